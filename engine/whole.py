"""Whole-program analyses: call graph, types, effects, features."""
import json
import os
import re
import subprocess
import tempfile
import shutil

from core import Root, Violation

GSC = 'graph_safe_compare::'


def viol(rule, root, fn, at, msg, trace=()):
    return Violation(rule, root, fn, at, msg, list(trace))


# ------------------------------------------------------------------ strongly connected components
def sccs(graph):
    index, low, on, stack, out = {}, {}, set(), [], []
    n = [0]
    for s in graph:
        if s in index:
            continue
        work = [(s, iter(graph.get(s, ())))]
        index[s] = low[s] = n[0]
        n[0] += 1
        stack.append(s)
        on.add(s)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in index:
                    index[w] = low[w] = n[0]
                    n[0] += 1
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(graph.get(w, ()))))
                    break
                if w in on:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in graph.get(v, ()):
                        out.append(c)
    return out


def terminators(inst):
    for b in inst['body']['blocks']:
        yield b['t']


def fnvals(x, out):
    """Types of constants anywhere in a body (function items passed as values)."""
    if isinstance(x, dict):
        if 't' in x and isinstance(x['t'], int) and x.get('k') in ('zst', 'agg', 'opaque'):
            out.add(x['t'])
        for v in x.values():
            fnvals(v, out)
    elif isinstance(x, list):
        for v in x:
            fnvals(v, out)


def call_graph(d):
    """Edges between instances (function, closure, function item as a value); leaves; indirect calls."""
    inst, types = d['inst'], d['types']
    g, leaves, indirect = {}, {}, []
    for k, i in inst.items():
        out = set()
        for t in terminators(i):
            if t['k'] != 'call':
                continue
            f = t['f']
            if f['how'] == 'indirect' or f['how'] in ('virtual', 'dyn'):
                indirect.append((i['path'], t.get('at')))
                continue
            if f.get('key') in inst:
                out.add(f['key'])
            elif f['how'] != 'ctor':
                leaves.setdefault(f.get('rpath') or f.get('path'), set()).add((i['path'], t.get('at')))
            # what is passed may be called
            for ty in t['at_']:
                reach_callables(types, ty, inst, out, set())
        vals = set()
        fnvals(i['body'], vals)
        for ty in vals:
            if types[ty]['k'] == 'fndef':
                c = types[ty].get('callee') or {}
                if c.get('key') in inst:
                    out.add(c['key'])
        # destructors of the crate
        for t in terminators(i):
            if t['k'] == 'drop':
                for ty in owned(types, t['p']['t'], set()):
                    if types[ty].get('drop') in inst:
                        out.add(types[ty]['drop'])
        g[k] = out
    return g, leaves, indirect


def reach_callables(types, ty, inst, out, seen):
    if ty in seen or ty is None:
        return
    seen.add(ty)
    t = types[ty]
    if t['k'] == 'fndef':
        c = t.get('callee') or {}
        if c.get('key') in inst:
            out.add(c['key'])
    if t['k'] == 'closure':
        if t.get('key') in inst:
            out.add(t['key'])
        else:
            p = t.get('p') or ''
            for k, i in inst.items():
                if p and i['path'] == p:
                    out.add(k)
    if t['k'] == 'ref':
        reach_callables(types, t['t'], inst, out, seen)


def type_parts(types, i):
    t = types[i]
    k = t['k']
    if k == 'adt':
        out = list(t.get('a') or ())
        for v in t.get('v') or ():
            out += [f['t'] for f in v['f']]
        return out
    if k in ('tuple', 'closure'):
        return list(t.get('f') or ())
    if k in ('array', 'slice'):
        return [t['t']]
    # borrowed data is not owned, and so is not dropped
    return []


def owned(types, ty, seen):
    if ty not in seen:
        seen.add(ty)
        for x in type_parts(types, ty):
            owned(types, x, seen)
    return seen


def stack_growth(facts, roots, control):
    """No cycle in the call graph, nor in what is dropped, of the given roots."""
    out, n = [], {'functions': 0, 'calls': 0, 'types': 0, 'roots': 0}
    for r in roots:
        d = facts.get(r)
        if d is None:
            out.append(viol('missing', r, r, '?', 'the function cannot be analysed: it is not in the facts'))
            continue
        g, leaves, indirect = call_graph(d)
        n['roots'] += 1
        n['functions'] += len(g)
        n['calls'] += sum(len(x) for x in g.values())
        for c in sccs(g):
            ps = sorted(set(d['inst'][k]['path'] for k in c))
            out.append(viol('recursion', r, ps[0], d['inst'][c[0]]['body'].get('at', '?'),
                            'functions that call each other: %s' % ' -> '.join(ps)))
        for p, at in indirect:
            if p.lstrip('<').startswith('graph_safe_compare'):
                out.append(viol('recursion', r, p, at or '?', 'an indirect call, which may recur'))
        types = d['types']
        tg = {i: type_parts(types, i) for i in range(len(types))}
        n['types'] += len(tg)
        for i, t in enumerate(types):
            if t['k'] == 'dyn' and any(i in ps for ps in tg.values()):
                if 'core::fmt' in t['s'] or 'core::any' in t['s'] or 'std::any' in t['s']:
                    continue
                own = [types[j]['s'] for j, ps in tg.items() if i in ps]
                if own:
                    out.append(viol('recursion', r, own[0], '?', 'an owned %s, of which the drop may recur' % t['s']))
        for c in sccs(tg):
            names = sorted(types[i]['s'] for i in c)
            ok = all(is_class_type(types[i]) for i in c)
            if not ok:
                out.append(viol('recursion', r, names[0], '?',
                                'dropping a value may recur: type refers to itself: %s' % ', '.join(names)))
    # the analysis has to see the recursion of the call-stack mode
    for r in control:
        d = facts.get(r)
        if d is None or not sccs(call_graph(d)[0]):
            out.append(viol('undecided', r, r, '?', 'control: the recursion of the call-stack mode is not seen in the call graph'))
    return out, n


def is_class_type(t):
    if t['k'] != 'adt':
        return False
    p = t.get('p') or ''
    return p.startswith(GSC + 'generic::equiv_classes::') or re.match(r'(core::cell::(Unsafe)?Cell|alloc::(\w+::)*rc::Rc)$', p) is not None


# ------------------------------------------------------------------ effects
EFFECTS = [
    r'^std::(io|fs|net|process|env|thread|time|os|sys|backtrace|panic)::', r'^<std::(io|fs|net|process|env|thread|time|os)::',
    r'^std::_?e?print', r'^std::io::_e?print', r'_print$', r'_eprint$',
    r'::sync::(atomic|mpsc|Mutex|RwLock|Once|OnceLock|LazyLock)', r'^core::sync::atomic', r'^std::sync::',
    r'^core::arch::', r'^std::arch::', r'^core::intrinsics::volatile', r'^alloc::boxed::Box::leak$', r'::mem::forget$',
    r'^core::mem::forget', r'ManuallyDrop', r'::thread_local', r'LocalKey', r'^std::collections::hash::map::RandomState',
    r'RandomState as core::hash::BuildHasher', r'^std::hash::random::DefaultHasher::new', r'Box::into_raw', r'Rc::into_raw', r'Vec::leak', r'::leak$',
]


def effects(facts, lib):
    out = []
    leaves, n = {}, 0
    exposed = {}
    rx = [re.compile(x) for x in EFFECTS]
    for r, d in facts.items():
        g, lv, ind = call_graph(d)
        n += len(g)
        for p, at in lv.items():
            leaves.setdefault(p, set()).update(at)
        for i in d['inst'].values():
            if i['path'].lstrip('<').startswith('graph_safe_compare'):
                # (the identity of references is their address)
                for b in i['body']['blocks'] if not r.startswith('root_refid') else ():
                    for s in b['s']:
                        k = s.get('r', {}).get('k') if isinstance(s.get('r'), dict) and s['r'].get('r') == 'cast' else None
                        if k and 'PointerExposeProvenance' in k:
                            exposed.setdefault(i['path'], s.get('at'))
                for t in terminators(i):
                    if t['k'] == 'call' and t['f']['how'] != 'ctor' and t['f'].get('path'):
                        for p in {t['f']['path'], t['f'].get('rpath') or t['f']['path']}:
                            leaves.setdefault(p, set()).add((i['path'], t.get('at')))
    for p in sorted(leaves):
        own = [(f, at) for f, at in leaves[p] if f.lstrip('<').startswith('graph_safe_compare')]
        if own and any(x.search(p) for x in rx):
            f, at = sorted(own, key=str)[0]
            out.append(viol('effect', f, f, at or '?', 'calls %s, which has an effect or state beyond the call' % p))
    for f, at in sorted(exposed.items()):
        out.append(viol('effect', f, f, at or '?', 'uses an address, which differs from run to run, as a number'))
    for s in lib['statics']:
        out.append(viol('effect', s, s, '?', 'the crate has the static %s' % s))
    for s in lib['foreign']:
        out.append(viol('effect', s, s, '?', 'the crate uses foreign items: %s' % s))
    return out, {'functions': n, 'external_callees': len(leaves), 'statics': len(lib['statics'])}


def unsafe_code(lib):
    out = [viol('unsafe', u, u, '?', u) for u in lib['unsafes']]
    return out, {'functions_in_crate': len(lib['fns'])}


# ------------------------------------------------------------------ the limits of the premade cycle-safe functions
LIMITS = {'PRECHECK_LIMIT': 400, 'FAST_LIMIT_MAX': 800, 'SLOW_LIMIT': 40}


def premade_limits(lib):
    """No premade choice of parameters gives a limit another value than the documented default."""
    out, n = [], 0
    for i in lib['impls']:
        if i['tr'] != GSC + 'cycle_safe::modes::interleave::Params':
            continue
        for c in i['consts']:
            n += 1
            if c['n'] in LIMITS and c['v'] is None:
                out.append(viol('undecided', i['adt'], i['adt'], c['at'], 'the value that a premade choice of parameters gives for %s' % c['n']))
            elif c['n'] in LIMITS and c['v'] != LIMITS[c['n']]:
                out.append(viol('limit', i['adt'], i['adt'], c['at'],
                                'a premade choice of parameters has %s = %d instead of the documented default %d' % (c['n'], c['v'], LIMITS[c['n']])))
        n += 1
    return out, {'premade_choices_of_limits': n}


# ------------------------------------------------------------------ who can make or alter the state of a comparison
# by the last segment of the path; the fields, the functions and the traits that are part of the documented API
KEPT = {
    'EdgesIter': ((), (), ('Iterator',)),
    'Class': ((), (), ('Default', 'Clone')),
    'Equiv': (('recur_mode',), ('new', 'from', 'into', 'equiv', 'equiv_main'), ('Default',)),
    'RecurQueue': ((), (), ('Default', 'From<CallStack>')),
    'RecurStack': ((), (), ('Default', 'From<CallStack>')),
    'Interleave': ((), (), ('Default',)),
    'hash_map::Table': ((), (), ('Default',)),
    'rc::Rc': ((), (), ('Deref', 'Clone')),
    'EquivClasses': ((), (), ('Default',)),
    'LazyVecStack': ((), (), ('Default',)),
    'LazyVecQueue': ((), (), ('Default',)),
}
# what gives a value, or a way to alter one, to who has none
OPENING = re.compile(r'^core::(ops::deref::DerefMut|convert::(AsMut|From|TryFrom|Into|TryInto)|borrow::BorrowMut|ops::index::IndexMut'
                     r'|iter::traits::collect::(Extend|FromIterator|IntoIterator)|default::Default|iter::traits::iterator::Iterator'
                     r'|str::traits::FromStr)$|^alloc::borrow::|::(Serialize|Deserialize)$')


def keeping(lib):
    out, n = [], {'types_kept': 0, 'fields': 0, 'public_functions': 0, 'trait_impls': 0}
    base = lambda p: re.sub(r'<.*', '', p)
    seen = {a['path']: a for a in lib['adts'] if a['seen']}

    def kept(path):
        for k, v in KEPT.items():
            if base(path).endswith('::' + k) and path in seen:
                return k, v
        return None, None
    for p, a in seen.items():
        k, v = kept(p)
        if not k:
            continue
        n['types_kept'] += 1
        for f in a['fields']:
            n['fields'] += 1
            if f['open'] and f['name'] not in v[0]:
                out.append(viol('forge', k, p, f['at'], 'who uses the crate can make or alter a %s by its field %s' % (k, f['name'])))
    for i in lib['impls']:
        k, v = kept(i['adt'])
        if not k:
            continue
        if i['tr'] is None:
            n['public_functions'] += 1
            gives = i['recv'] == 'none' and re.search(r'\b%s\b|\bSelf\b' % k.split('::')[-1], i['ret'])
            if i['name'] not in v[1] and (i['recv'] in ('mut', 'value') or gives or '&mut' in i['ret'].replace("'_ ", '').replace("'a ", '')):
                out.append(viol('forge', k, '%s::%s' % (i['adt'], i['name']), i['at'],
                                'who uses the crate can make or alter a %s by its public function %s' % (k, i['name'])))
        elif OPENING.search(base(i['tr'])):
            n['trait_impls'] += 1
            t = base(i['tr']).split('::')[-1]
            full = t + ('<%s>' % ', '.join(base(x).split('::')[-1] for x in i['args']) if i['args'] else '')
            if full not in v[2] and t not in [x for x in v[2] if '<' not in x]:
                out.append(viol('forge', k, i['adt'], i['at'], 'who uses the crate can make or alter a %s by its implementation of %s' % (k, full)))
    return out, n


# ------------------------------------------------------------------ features
FEATURES = ('std', 'alloc', 'wyrng', 'oorandom', 'fastrand')


def combos(tier):
    from itertools import chain, combinations
    full = [c for k in range(len(FEATURES) + 1) for c in combinations(FEATURES, k)]
    if tier == 'thorough':
        return full + [c + ('anticipate',) for c in full]
    return full + [c + ('anticipate',) for c in ((), ('alloc',), ('oorandom',), ('std',), ('std', 'wyrng'), FEATURES)]


def matrix(here, driver, tier):
    """Compiles with each set of features, on what crates it then depends, and what is then public."""
    out, n = [], 0
    tmp = tempfile.mkdtemp(prefix='gsc-matrix-')
    try:
        env = dict(os.environ)
        for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'GSC_FACTS_CRATE', 'GSC_FACTS_OUT'):
            env.pop(k, None)
        sr = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True).stdout.strip()
        env.update(LD_LIBRARY_PATH=sr + '/lib', RUSTC_WRAPPER=driver, GSC_LIB_CRATE='graph_safe_compare',
                   GSC_LIB_OUT=os.path.join(tmp, 'lib.json'), RUSTFLAGS='--cap-lints=allow', CARGO_TARGET_DIR=os.path.join(tmp, 't'),
                   CARGO_INCREMENTAL='0')
        known = {}
        for c in combos(tier):
            name = '+'.join(c) or 'none'
            lj = env['GSC_LIB_OUT']
            if os.path.exists(lj):
                os.remove(lj)
            p = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--locked', '--message-format=json', '--features', ' '.join(c)],
                               cwd=os.path.join(here, 'matrix'), env=env, capture_output=True, text=True)
            n += 1
            if p.returncode:
                ms = [json.loads(x)['message'] for x in p.stdout.splitlines() if '"compiler-message"' in x]
                ms = [m for m in ms if m['level'] == 'error' and m['spans']]
                at = ['%s:%d' % (x['file_name'], x['line_start']) for m in ms[:1] for x in m['spans']]
                out.append(viol('features', 'features ' + name, 'features ' + name, at[0] if at else '?',
                                'does not compile with the features {%s}: %s' % (', '.join(c), '; '.join(
                                    [m['message'] for m in ms[:2]] or re.findall(r'^error.*', p.stderr, re.M)[:2]))))
                continue
            enabled = None
            for line in p.stdout.splitlines():
                d = json.loads(line)
                if d.get('reason') == 'compiler-artifact' and d['target']['name'] == 'graph_safe_compare':
                    enabled = tuple(sorted(d['features']))
            if os.path.exists(lj):
                known[enabled] = json.load(open(lj))
            if enabled is None or enabled not in known:
                out.append(viol('features', 'features ' + name, 'features ' + name, '?', 'the crate was not compiled'))
                continue
            lib = known[enabled]
            cr = set(lib['crates'])
            if 'std' not in c and 'std' in cr:
                out.append(viol('no_std', 'features ' + name, 'features ' + name, '?',
                                'depends on the std crate although the std feature is not enabled ({%s})' % ', '.join(c)))
            if 'std' not in c and 'alloc' not in c and 'alloc' in cr:
                out.append(viol('no_std', 'features ' + name, 'features ' + name, '?',
                                'depends on the alloc crate although the alloc feature is not enabled ({%s})' % ', '.join(c)))
            for u in lib['unsafes']:
                out.append(viol('unsafe', u, u, '?', u + ' (features %s)' % name))
            fns = set(f['path'] for f in lib['fns'])
            rng = any(x in c for x in ('wyrng', 'oorandom')) or ('fastrand' in c and 'std' in c)
            heap, full = 'alloc' in c or 'std' in c, 'std' in c and rng
            for mod, fn, when in (('basic', 'equiv', True), ('basic', 'limited_equiv', True),
                                  ('deep_safe', 'equiv', heap), ('deep_safe', 'limited_equiv', heap),
                                  ('wide_safe', 'equiv', heap), ('wide_safe', 'limited_equiv', heap),
                                  ('cycle_safe', 'equiv', full), ('cycle_safe', 'precheck_equiv', full),
                                  ('robust', 'equiv', full), ('robust', 'precheck_equiv', full)):
                have = any(re.match(r'graph_safe_compare::%s::(\w+::)?%s$' % (mod, fn), f) for f in fns)
                if when and not have:
                    out.append(viol('features', 'features ' + name, mod + '::' + fn, '?',
                                    'there is no %s::%s with the features {%s}' % (mod, fn, ', '.join(c))))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out, {'feature_sets': n}


# ------------------------------------------------------------------ misuse that must not compile
ALIAS = {'E0616': ('E0616', 'E0609'), 'E0451': ('E0451', 'E0560', 'E0639', 'E0063'), 'E0624': ('E0624', 'E0599'),
         'E0639': ('E0639', 'E0423', 'E0433', 'E0599')}
WITNESSES = 39      # as counted by hand: fewer would pass vacuously


def witnesses(here):
    """Each case exists twice: the twin without the offending lines compiles; with them, it is refused for the reason given
    (refused for another reason: whether the reason given would be enough is undecided)."""
    from concurrent.futures import ThreadPoolExecutor
    out = []
    src = os.path.join(here, 'witness')
    tmp = tempfile.mkdtemp(prefix='gsc-witness-')
    try:
        env = dict(os.environ)
        for k in ('RUSTFLAGS', 'RUSTC_WRAPPER'):
            env.pop(k, None)
        env.update(CARGO_TARGET_DIR=os.path.join(tmp, 't'), CARGO_INCREMENTAL='0', RUSTFLAGS='--cap-lints=allow')
        p = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--locked', '--message-format=json'], cwd=src, env=env,
                           capture_output=True, text=True)
        rmeta, dirs = None, set()
        for line in p.stdout.splitlines():
            d = json.loads(line)
            if d.get('reason') == 'compiler-artifact':
                dirs.update(os.path.dirname(f) for f in d['filenames'])
                if d['target']['name'] == 'graph_safe_compare':
                    rmeta = [f for f in d['filenames'] if f.endswith('.rmeta')][0]
        if p.returncode or not rmeta:
            at = re.search(r'--> (\S+)', p.stderr)
            err = [json.loads(x)['message']['message'] for x in p.stdout.splitlines() if '"compiler-message"' in x][:2]
            return [viol('build', 'witness', 'graph_safe_compare', at.group(1) if at else '?', 'does not compile: %s' % '; '.join(err))], \
                {'witnesses': 0}
        prelude = open(os.path.join(src, 'prelude.rs')).read()

        def build(name, bad, text):
            drop_, keep = ('//GOOD', '//BAD') if bad else ('//BAD', '//GOOD')
            lines, first = [], None
            for i, x in enumerate(text.splitlines()):
                if x.rstrip().endswith(drop_) or i == 0:
                    x = ''
                elif x.rstrip().endswith(keep):
                    x = x.rstrip()[:-len(keep)]
                lines.append(x)
            attrs = [x for x in lines if x.startswith('#![')]
            body = '\n'.join('' if x in attrs else x for x in lines)
            f = os.path.join(tmp, '%s_%s.rs' % (name, 'bad' if bad else 'good'))
            with open(f, 'w') as h:
                h.write('\n'.join(attrs) + '\n' + prelude + '\n' + body + '\n')
            q = subprocess.run(['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--emit', 'metadata', '--error-format=json',
                                '--extern', 'graph_safe_compare=' + rmeta, '--out-dir', tmp, f]
                               + [x for d in sorted(dirs) for x in ('-L', 'dependency=' + d)], capture_output=True, text=True)
            codes, msgs = set(), []
            for line in q.stderr.splitlines():
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if d.get('level') == 'error' and d.get('spans'):
                    code = (d.get('code') or {}).get('code')
                    codes.add(code or ('E0451' if 'due to private fields' in d['message'] else '?'))
                    msgs.append(d['message'])
            return q.returncode, codes, msgs

        names = sorted(f[:-3] for f in os.listdir(os.path.join(src, 'cases')) if f.endswith('.rs'))
        if len(names) < WITNESSES:
            out.append(viol('witness', 'witness', 'witness', '?', 'there are %d witnesses, not %d' % (len(names), WITNESSES)))

        def case(name):
            text = open(os.path.join(src, 'cases', name + '.rs')).read()
            m = re.match(r'//! (\S+): (.*)', text)
            want = set()
            for c in m.group(1).split('|'):
                want.update(ALIAS.get(c, (c,)))
            v = []
            rc, codes, msgs = build(name, False, text)
            if rc:
                v.append(viol('witness', name, 'witness %s' % name, 'witness/cases/%s.rs' % name,
                              'what is proper use no longer compiles: %s (%s)' % ('; '.join(msgs[:2]), m.group(2))))
            rc, codes, msgs = build(name, True, text)
            if rc == 0:
                v.append(viol('witness', name, 'witness %s' % name, 'witness/cases/%s.rs' % name, 'misuse compiles: %s' % m.group(2)))
            elif not codes & want:
                v.append(viol('undecided', name, 'witness %s' % name, 'witness/cases/%s.rs' % name,
                              'misuse is refused for another reason (%s): %s' % (', '.join(sorted(codes)), m.group(2))))
            return v
        with ThreadPoolExecutor(8) as ex:
            for v in ex.map(case, names):
                out += v
        return out, {'witnesses': 2 * len(names), 'cases': len(names)}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
