#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property of /repo's current source.  Exit 0: it holds.  Exit 1: violations are listed, with
a line "VIOLATION property=<id> replay=<path>".
"""
import hashlib
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))

import core      # noqa: E402
import models    # noqa: E402
import plan      # noqa: E402
import props     # noqa: E402
import specs     # noqa: E402
import whole     # noqa: E402

DRIVER = os.path.join(HERE, 'driver', 'target', 'debug', 'gsc-facts')
TRUSTED = [
    'rustc (nightly): type checking, trait resolution and MIR construction',
    'models of the std / core functions that the crate calls (engine/models.py)',
    'the abstract interpreter (engine/core.py, engine/num.py)',
    'implementations of the public traits obey their documentation (pure id / get_edge / comparison; lawful Eq and Hash; '
    'rand_upto within its range; Step gives ever-larger indexes; a result made from less or greater is not equivalent)',
]


class Failed(Exception):
    """The subject cannot be built: nothing can be shown.  where: 'lib', 'client' or 'driver'."""

    def __init__(self, text, where):
        Exception.__init__(self, text)
        self.where = where


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def build_driver():
    src = [os.path.join(HERE, 'driver', 'src', f) for f in os.listdir(os.path.join(HERE, 'driver', 'src'))]
    if os.path.exists(DRIVER) and all(os.path.getmtime(DRIVER) >= os.path.getmtime(s) for s in src):
        return
    env = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR'):
        env.pop(k, None)
    p = run(['cargo', '+nightly', 'build', '--offline', '--locked'], cwd=os.path.join(HERE, 'driver'), env=env)
    if p.returncode:
        raise RuntimeError('cannot build the fact extractor:\n' + p.stderr[-3000:])


ALL = 'std,wyrng,oorandom,fastrand'
# name: (features, checks of debug builds?)
CONFIGS = {
    'debug': (ALL, True),
    'release': ('std,wyrng', False),
    'anticipate': (ALL + ',anticipate', True),
    'release-all': (ALL, False),
    'oorandom': ('std,oorandom', False),
    'fastrand': ('std,fastrand', False),
    'std': ('std', True),
    'alloc': ('alloc,oorandom', False),
    'core': ('wyrng', True),
    'bare': ('', False),
}


def configurations(tier):
    """{name: (features, debug)}; thorough: every set of features, with and without the checks of debug builds."""
    out = dict(CONFIGS)
    if tier == 'thorough':
        def full(fs):
            return frozenset(fs) | ({'alloc'} if 'std' in fs else set()) - {''}
        seen = set((full(fs.split(',')), debug) for fs, debug in out.values())
        for fs in whole.combos('thorough'):
            for debug in (True, False):
                if (full(fs), debug) not in seen:
                    seen.add((full(fs), debug))
                    out['%s:%s' % ('debug' if debug else 'release', '+'.join(fs) or 'none')] = (','.join(fs), debug)
    return out


def there(root, features):
    """Is this root part of the API with these features?"""
    fs = set(features.split(','))
    if 'std' in fs:
        fs.add('alloc')
    n = root[len('root_'):]
    if n.startswith('step_'):
        return 'anticipate' not in fs
    if n.startswith(('queue_', 'stack_', 'deep_safe', 'wide_safe', 'rc_')):
        return 'alloc' in fs
    if n.startswith('room_'):
        return 'alloc' in fs and (n != 'room_table' or 'std' in fs)
    if n.startswith('hash_map_'):
        return 'std' in fs
    if n.startswith(('robust', 'cycle_safe')):
        return 'std' in fs and bool(fs & {'wyrng', 'oorandom', 'fastrand'})
    if n.startswith('rng_'):
        return n.split('_')[-1] in fs and (not n.endswith('fastrand') or 'std' in fs)
    return True


def extract(features=ALL, debug=True):
    """Facts about every root, from the current source.  {root: facts}, library facts, {function: error} of the functions of
    the client that the library does not accept (which are taken out of it)."""
    tmp = tempfile.mkdtemp(prefix='gsc-facts-')
    try:
        sr = run(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()
        out, lib = os.path.join(tmp, 'facts'), os.path.join(tmp, 'lib')
        env = dict(os.environ)
        env.update(CARGO_TARGET_DIR=os.path.join(tmp, 't'), LD_LIBRARY_PATH=sr + '/lib', GSC_FACTS_CRATE='gsc_client',
                   GSC_FACTS_OUT=out, GSC_LIB_CRATE='graph_safe_compare',
                   GSC_LIB_OUT=lib, RUSTC_WRAPPER=DRIVER, CARGO_INCREMENTAL='0',
                   RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 --cap-lints=allow -Cdebug-assertions=%s -Coverflow-checks=%s'
                   % (('on', 'on') if debug else ('off', 'off')))
        cmd = ['cargo', '+nightly', 'check', '--offline', '--locked', '--message-format=json', '--features', features]
        cwd, refused = os.path.join(HERE, 'client'), {}
        for _ in range(6):
            p = run(cmd, cwd=cwd, env=env)
            if p.returncode == 0:
                break
            errs = errors(p.stdout)
            if any(lib_ for lib_, _, _ in errs):
                raise Failed('\n'.join(m for lib_, m, _ in errs if lib_), 'lib')
            if 'internal compiler error' in p.stderr + p.stdout or not errs:
                raise Failed(p.stderr + ''.join(m for _, m, _ in errs), 'driver')
            if not refused:
                cwd = os.path.join(tmp, 'client')
                shutil.copytree(os.path.join(HERE, 'client'), cwd, ignore=shutil.ignore_patterns('target'))
            new = {}
            for _, msg, at in errs:
                for f, line in at:
                    n = take_out(os.path.join(cwd, f), line)
                    if n:
                        new.setdefault(n, msg)
            if not new:
                raise Failed('\n'.join(m for _, m, _ in errs), 'client')
            refused.update(new)
            if os.path.exists(out):
                os.remove(out)
        else:
            raise Failed('\n'.join(m for _, m, _ in errs), 'client')
        facts = {}
        with open(out) as f:
            for line in f:
                # the same facts about a root in several configurations need to be kept, and analysed, only once
                h = hashlib.sha256(line.encode()).digest()
                d = _KNOWN.get(h)
                if d is None:
                    d = json.loads(line)
                    d['hash'] = h
                    d = _KNOWN.setdefault(h, d)
                if 'root' in d:
                    facts[d['root']] = d
        with open(lib) as f:
            lib = json.load(f)
        return facts, lib, refused
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def errors(stdout):
    """The errors of a build: (in the library?, message with position, [(file, line)] in the client)."""
    out = []
    for line in stdout.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get('reason') != 'compiler-message' or d['message']['level'] != 'error' or d['message']['message'].startswith('aborting due'):
            continue
        lib, at, sp = d['target']['name'] != 'gsc_client', [], []
        for s in d['message']['spans']:
            x = s
            while x.get('expansion'):
                x = x['expansion']['span']
            if x['is_primary'] or s['is_primary']:
                sp.append('%s:%d' % (x['file_name'], x['line_start']))
                at.append((x['file_name'], x['line_start']))
        out.append((lib, 'error: %s (%s)' % (d['message']['message'], ', '.join(sp)), at))
    return out


def client_functions():
    """The uses of the API that the client consists of."""
    src = ''.join(open(os.path.join(HERE, 'client', 'src', f)).read() for f in ('lib.rs', 'general.rs'))
    return sorted(set(re.findall(r'(?m)^pub fn ((?:root|general)_\w+)', src)))


def take_out(path, line):
    """Blanks the function of the client around this line; its name."""
    src = open(path).read().split('\n')
    i = min(line, len(src)) - 1
    while i >= 0 and not src[i].startswith('pub fn '):
        if src[i].startswith('}') and i < line - 1:
            return None
        i -= 1
    j = i
    while i >= 0 and j < len(src) and not src[j].startswith('}') and not (j == i and src[j].endswith('}')):
        j += 1
    if i < 0 or j == len(src):
        return None
    name = src[i][len('pub fn '):].split('(')[0].split('<')[0]
    while i > 0 and src[i - 1].startswith(('#[', '///')):
        i -= 1
    for k in range(i, j + 1):
        src[k] = ''
    with open(path, 'w') as f:
        f.write('\n'.join(src))
    return name


_FACTS = {}
_KNOWN = {}
_CFGS = {}


def history(cfg, root, run):
    """The mode has more state than its counter, table and generator: what it can be after any number of calls, as a fixpoint."""
    first = 'root_interleave_default'
    if first not in _FACTS[cfg]:
        return run(None)
    d = core.Analysis(core.Root(_FACTS[cfg][first]), specs.InitialState(), models.StdModels())
    d.run()
    if any(v.rule == 'undecided' for v in d.viol.values()) or not d.m.after:
        return run(None)
    work, seen, slots, total = sorted(d.m.after, key=repr), set(), {}, None

    def widen(e, at):
        if e[0] == 'A':
            return ('A', e[1], tuple(widen(x, at + (e[1], i)) for i, x in enumerate(e[2])))
        if e[0] == 'l' and not e[2] and not e[3]:
            s = slots.setdefault(at, set())
            s.add(e[1])
            if len(s) > 4:
                return ('s', ('>=0',) if min(s) >= 0 else ())
        return e
    while work:
        e = work.pop(0)
        e = (tuple(widen(x, (i,)) for i, x in enumerate(e[0])), e[1])
        if e in seen:
            continue
        seen.add(e)
        a = run(e)
        work += sorted(a.m.after, key=repr)
        if total is None:
            total = a
        else:
            for k, v in a.viol.items():
                total.viol.setdefault(k, v)
            for k, n in a.obl.items():
                total.obl[k] = total.obl.get(k, 0) + n
            total.ends, total.states, total.steps = total.ends + a.ends, total.states + a.states, total.steps + a.steps
            total.fns |= a.fns
            total.calls |= a.calls
        if any(v.rule != 'undecided' for v in total.viol.values()):
            break
        if len(seen) > 60:
            v = core.Violation('undecided', root, root, '?', 'cannot analyse: what the mode keeps takes ever new values', [])
            total.viol.setdefault(v.key(), v)
            break
    return total


def analyse(job):
    cfg, root = job
    t0 = time.time()
    m = plan.roots()[root]()
    r = core.Root(_FACTS[cfg][root])
    a = core.Analysis(r, m, models.StdModels())

    def run(before):
        b = core.Analysis(r, plan.roots()[root](), models.StdModels())
        b.m.before = before
        b.run()
        return b
    try:
        if root == 'root_interleave_do_edges':
            a.start()
            a = history(cfg, root, run) if m.extra else a.run()
        else:
            a.run()
    except Exception as e:     # a defect of the machinery must not pass as a proof
        v = core.Violation('undecided', root, root, '?', 'cannot analyse: %s: %s' % (type(e).__name__, e), [])
        a.viol.setdefault(v.key(), v)
    if not a.viol and (a.ends == 0 and not a.obl):
        v = core.Violation('end', root, root, '?', 'no path through the function has an end', [])
        a.viol.setdefault(v.key(), v)
    return {'cfg': cfg, 'root': root, 'viol': list(a.viol.values()), 'ends': a.ends, 'states': a.states, 'steps': a.steps, 'obl': a.obl,
            'fns': sorted(f for f in a.fns if f.lstrip('<').startswith('graph_safe_compare')), 'calls': sorted(a.calls),
            'sides': sorted(getattr(m, 'sides', ())), 'secs': round(time.time() - t0, 2)}


def cross_sides(results):
    """Queue: takes where it does not add (first in, first out).  Stack: takes where it adds."""
    out, s = [], {r['root']: r['sides'] for r in results}
    for k, same in (('queue', False), ('stack', True)):
        push, take = s.get('root_%s_recur' % k), s.get('root_%s_next' % k)
        if not push or not take:
            out.append(whole.viol('undecided', 'root_%s_next' % k, k, '?', 'it is not known where pending pairs are added and taken'))
        elif len(push) != 1 or len(take) != 1 or (push == take) != same:
            what = 'where they were added' if not same else 'elsewhere than where they were added'
            out.append(whole.viol('order', 'root_%s_next' % k, 'recursion::%s' % k, '?',
                                  'pending pairs of nodes are taken %s: not %s-first' % (what, 'depth' if same else 'breadth')))
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    spec = props.PROPS[pid]
    viols, undec, cov = [], [], {}
    assumptions = list(TRUSTED)
    wh = spec.get('whole', [])
    results = []
    try:
        build_driver()
        need_facts = spec['parts'] or 'stack' in wh or 'effects' in wh or 'unsafe' in wh or 'api' in wh or 'general' in wh
        if need_facts:
            cfgs = configurations(tier)
            _CFGS.update(cfgs)
            libs, refused = {}, {}
            with ThreadPoolExecutor(10) as ex:
                for c, r in zip(list(cfgs), ex.map(lambda x: try_extract(*x), cfgs.values())):
                    if isinstance(r, Failed):
                        # that it does not compile is for C24 to say
                        undec.append(whole.viol('undecided', 'client', 'configuration %s' % c, '?', str(r)[-300:]))
                        del cfgs[c]
                    else:
                        _FACTS[c], libs[c], refused[c] = r
            if not cfgs:
                cov.setdefault('explanation', 'The crate does not compile, so that nothing could be analysed.')
                finish(pid, tier, t0, viols, undec, cov, assumptions)
        if spec['parts']:
            names = sorted(plan.roots())
            want = props.roots_of(pid, names)
            jobs, who = [], {}
            for c in cfgs:
                for r in want:
                    if not there(r, cfgs[c][0]):
                        continue
                    if r in _FACTS[c]:
                        same = who.setdefault(_FACTS[c][r]['hash'], [])
                        if not same:
                            jobs.append((c, r))
                        same.append(c)
                    else:
                        # what speaks of all code says nothing about what is not there
                        rule = 'undecided' if ('*' in [x for ps, _ in spec['parts'] for x in ps]) else 'missing'
                        viols.append(whole.viol(rule, r, r, '?', 'this part of the API is not there to be analysed: %s'
                                                % refused[c].get(r, '?')))
            # the largest first
            jobs.sort(key=lambda j: -len(_FACTS[j[0]][j[1]]['inst']) - (1000 if 'interleave_do' in j[1] or 'callstack_main' in j[1] else 0))
            with multiprocessing.get_context('fork').Pool(min(8, max(1, len(jobs)))) as pool:
                results = pool.map(analyse, jobs, chunksize=1)
            for r in results:
                rules = want[r['root']]
                for v in r['viol']:
                    if rules is None or v.rule in rules or v.rule in props.ALWAYS or v.rule == 'undecided':
                        if r['cfg'] != 'debug' and '(configuration ' not in v.msg:
                            v.msg += ' (configuration %s)' % r['cfg']
                        viols.append(v)
            if 'sides' in spec.get('cross', ()):
                for c in cfgs:
                    if there('root_queue_next', cfgs[c][0]):
                        viols += cross_sides([r for r in results if c in who[_FACTS[r['cfg']][r['root']]['hash']]])
        ob = {}
        for r in results:
            rules = want[r['root']]
            for k, n in r['obl'].items():
                if rules is None or k in rules:
                    ob[k] = ob.get(k, 0) + n
        if results:
            fns = sorted(set(f for r in results for f in r['fns']))
            cov.update(obligations=sum(ob.values()), obligations_by_rule=ob, entry_points=len(results),
                       paths_to_an_end=sum(r['ends'] for r in results), abstract_states=sum(r['states'] for r in results),
                       steps=sum(r['steps'] for r in results), functions_analysed=len(fns), functions=fns[:80],
                       call_targets=len(set(x for r in results for x in r['calls'])),
                       configurations={c: {'features': cfgs[c][0], 'debug': cfgs[c][1], 'entry_points': sum(1 for h in who.values() if c in h),
                                           'of_them_the_same_as_in_another': sum(1 for h in who.values() if c in h[1:])} for c in cfgs},
                       roots=[{'root': r['root'], 'config': r['cfg'], 'paths': r['ends'], 'states': r['states'],
                               'obligations': sum(n for k, n in r['obl'].items() if want[r['root']] is None or k in want[r['root']])}
                              for r in results][:130])
        for w in wh:
            vs, n = whole_program(w, tier, libs if need_facts else None, refused if need_facts else None)
            viols += vs
            cov.setdefault('obligations', 0)
            cov['obligations'] += sum(n.values())
            cov['whole_program_' + w] = n
        cov['explanation'] = explanation(spec, wh)
    except Failed as e:
        viols.append(whole.viol('build', 'client', 'client', '?', 'the most general client of the public API does not compile: %s' % e))
        cov.setdefault('explanation', 'The client of the API did not compile, so that nothing could be analysed.')
    finish(pid, tier, t0, viols, undec, cov, assumptions)


def try_extract(features, debug):
    try:
        return extract(features, debug)
    except Failed as e:
        if e.where == 'client':
            raise
        return e


def explanation(spec, wh):
    out = []
    if spec['parts']:
        out.append('Path-sensitive typestate analysis (abstract interpretation to a fixpoint) of the type-checked MIR, from entry points '
                   'with abstract nodes, modes, tables and errors: every path through the analysed functions is covered; each obligation '
                   'is a condition of the property at a call, a return or a change of state on one of these paths.')
    if 'stack' in wh:
        out.append('Strongly connected components of the resolved call graph and of the ownership graph of types.')
    if 'effects' in wh:
        out.append('All callees outside the crate, and its statics, against a list of effects.')
    if 'unsafe' in wh:
        out.append('All unsafe blocks, functions and impls in the HIR of the crate, with each set of features.')
    if 'features' in wh:
        out.append('Type-checking of the crate with each set of features, and the crates that it then depends on.')
    if 'general' in wh:
        out.append('Type-checking of the most general uses of the API: each is accepted for every type that implements the documented traits.')
    if 'api' in wh:
        out.append('Compile-fail witnesses, each with a twin that differs by the offending part only and compiles; '
                   'and, of the types that hold the state of a comparison, every reachable field, public function and implemented trait that would let a user make or alter one.')
    return ' '.join(out)


def whole_program(w, tier, libs, refused):
    if w == 'general':
        vs, n = [], 0
        for c in libs:
            for f, msg in sorted(refused[c].items()):
                vs.append(whole.viol('general', f, f, '?', 'the library does not accept this use of its documented API: %s (configuration %s)' % (msg, c)))
            n += sum(1 for x in client_functions() if x.startswith('general_') or there(x, _CFGS[c][0]))
        return vs, {'uses': n}
    if w == 'stack':
        vs, n = [], {}
        for c, facts in _FACTS.items():
            safe = sorted(r for r in facts if any(x in r for x in ('deep_safe', 'wide_safe', 'robust', 'queue', 'stack_recur',
                                                                   'stack_next', 'stack_reset', 'stack_default', 'stack_from'))
                          and 'callstack' not in r)
            for must in ('root_deep_safe_equiv', 'root_wide_safe_equiv', 'root_robust_equiv', 'root_robust_precheck_equiv'):
                if must not in safe and there(must, _CFGS[c][0]):
                    safe.append(must)
            v, m = whole.stack_growth(facts, safe, [r for r in ('root_basic_equiv', 'root_cycle_safe_equiv') if there(r, _CFGS[c][0])])
            vs += v
            n = {k: n.get(k, 0) + x for k, x in m.items()}
        return vs, n
    if w == 'effects':
        vs, n = [], {}
        for c, facts in _FACTS.items():
            v, m = whole.effects(facts, libs[c])
            vs += v
            n = {k: n.get(k, 0) + x for k, x in m.items()}
        return vs, n
    if w == 'unsafe':
        vs, n = whole.unsafe_code(libs['debug']) if 'debug' in libs else ([], {})
        v2, n2 = whole.matrix(HERE, DRIVER, tier)
        return vs + [v for v in v2 if v.rule == 'unsafe'], dict(n, **n2)
    if w == 'features':
        vs, n = whole.matrix(HERE, DRIVER, tier)
        return [v for v in vs if v.rule != 'unsafe'], n
    if w == 'api':
        vs, n = whole.witnesses(HERE)
        for c in libs:
            v, m = whole.keeping(libs[c])
            vs += v
            n = dict(n, **{k: n.get(k, 0) + x for k, x in m.items()})
        return vs, n
    if w == 'limits':
        vs, n = [], {}
        for c in libs:
            v, m = whole.premade_limits(libs[c])
            vs += v
            n = {k: n.get(k, 0) + x for k, x in m.items()}
        return vs, n
    raise ValueError(w)


def finish(pid, tier, t0, viols, undec, cov, assumptions):
    undec = sorted(set('%s: %s (%s; from %s)' % (v.fn, v.msg, v.at, v.root) for v in undec + viols if v.rule == 'undecided'))
    viols = [v for v in viols if v.rule != 'undecided']
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        known = json.load(open(kf)).get('findings', [])
    seen, new, old = set(), [], []
    for v in viols:
        if v.key() in seen:
            continue
        seen.add(v.key())
        hit = [k for k in known if k['property'] == pid and k['key'] == v.key()]
        (old if hit else new).append(v)
    for v in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, v.msg))
    rep = os.path.join(HERE, 'out', 'replay-%s.txt' % pid)
    if new:
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        with open(rep, 'w') as f:
            f.write('Property %s is violated.  Run: python3 check.py %s %s\n\n' % (pid, pid, tier))
            for v in new[:40]:
                f.write('[%s] %s\n  at %s\n  in %s\n  found from %s\n' % (v.rule, v.msg, v.at, v.fn, v.root))
                for x in v.trace:
                    f.write('    %s\n' % x)
                f.write('\n')
    cov['discharged'] = max(0, cov.get('obligations', 0) - len(new) - len(old))
    cov['undecided'] = undec
    for u in undec[:12]:
        print('UNDECIDED property=%s %s' % (pid, u))
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for v in new[:12]:
        print('[%s] %s: %s (%s; from %s)' % (v.rule, v.fn, v.msg, v.at, v.root))
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        sys.exit(1)
    print('property %s holds%s: %d obligations (%.1f s)' % (pid, ' on what could be decided (%d parts could not)' % len(undec) if undec else '',
                                                            cov.get('obligations', 0), time.time() - t0))
    sys.exit(0)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:   # neither held nor violated
        import traceback
        traceback.print_exc()
        print('NO ANSWER property=%s: the check itself failed: %s' % (sys.argv[1] if len(sys.argv) > 1 else '?', e))
        sys.exit(2)
