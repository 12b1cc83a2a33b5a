"""Path-sensitive typestate analysis (abstract interpretation) over the MIR facts.

Abstract values (tuples):
  ('I', c, terms)      an integer: linear term over integer symbols
  ('B', bool)          a known boolean
  ('A', variant, fs)   aggregate (struct / tuple / array / closure / enum variant)
  ('S', id, ty)        an unknown of type ty; refined lazily by binding
  ('R', root, path)    a pointer; root = ('L', frame, local) | ('O', object)
  ('P', oid)           an owning smart pointer (Box / Rc) to object oid
  ('T', ptr)           a pointer without its metadata
  ('D', fr, rest, bk)  a sequence: known front, unknown middle (symbol id, 0 = empty), known back
  ('Z', ty)            zero-sized function item
  ('U',)               uninitialised / moved
  ('X', what)          anything of no interest

States are explored to a fixpoint: at every back edge the state is garbage-collected, unreachable
knowledge is forgotten (numeric facts by projection), symbols are renamed canonically, and a state
that was seen is not explored again.
"""
import sys
import time
import num

sys.setrecursionlimit(20000)

UNIT = ('A', 0, ())
MAX_STATES = 60000
MAX_SECONDS = 240
MAX_FACTS = 300


# so many visits of a point with nothing but integers changed make these integers arbitrary
COUNTS = 64


def unconst(x):
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == 'I' and isinstance(x[1], int):
            return ('I',)
        return tuple(unconst(y) for y in x)
    return x


class Split(Exception):
    def __init__(self, n):
        self.n = n


class Infeasible(Exception):
    pass


class Undecided(Exception):
    pass


class Restart(Exception):
    """A frame was pushed; run the current statement again when it returns."""


class Stop(Exception):
    """The path ends here (a violation was recorded)."""


class Frame:
    __slots__ = ('key', 'body', 'bb', 'si', 'loc', 'dest', 'ret', 'konst', 'dropq', 'path')

    def __init__(self, key, inst):
        self.key = key
        self.body = inst['body']
        self.path = inst['path']
        self.bb = 0
        self.si = 0
        self.loc = {}
        self.dest = None
        self.ret = None
        self.konst = None
        self.dropq = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.key, f.body, f.bb, f.si, f.path = self.key, self.body, self.bb, self.si, self.path
        f.loc = dict(self.loc)
        f.dest, f.ret, f.konst = self.dest, self.ret, self.konst
        f.dropq = list(self.dropq) if self.dropq is not None else None
        return f


class State:
    __slots__ = ('frames', 'heap', 'hkind', 'bind', 'facts', 'num', 'mon', 'nxt', 'trace', 'dec', 'di')

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.hkind = dict(self.hkind)
        s.bind = dict(self.bind)
        s.facts = dict(self.facts)
        s.num = self.num
        s.mon = dict(self.mon)
        s.nxt = self.nxt
        s.trace = self.trace
        s.dec = list(self.dec)
        s.di = self.di
        return s


class Root:
    def __init__(self, d):
        self.name = d['root']
        self.key = d['key']
        self.T = d['types']
        self.inst = d['inst']
        self._inh = {}

    def ts(self, ty):
        return self.T[ty]['s']

    def inhabited(self, ty):
        r = self._inh.get(ty)
        if r is not None:
            return r
        self._inh[ty] = True
        t = self.T[ty]
        k = t['k']
        r = True
        if k == 'never':
            r = False
        elif k == 'adt' and t['exp']:
            vs = [all(self.inhabited(f['t']) for f in v['f']) for v in t['v']]
            r = any(vs) if t['kind'] == 'enum' else all(vs)
        elif k == 'tuple':
            r = all(self.inhabited(x) for x in t['f'])
        elif k == 'array' and t['n']:
            r = self.inhabited(t['t'])
        self._inh[ty] = r
        return r

    def variants(self, ty):
        t = self.T[ty]
        return [i for i, v in enumerate(t['v']) if all(self.inhabited(f['t']) for f in v['f'])]

    def named_int(self, name):
        for i, t in enumerate(self.T):
            if t['k'] == 'int' and t['s'] == name:
                return i
        raise Undecided('the type %s is not used' % name)

    def field_ty(self, ty, variant, i):
        t = self.T[ty]
        k = t['k']
        if k == 'adt':
            if t['p'] in ('core::cell::Cell', 'core::cell::UnsafeCell'):
                return t['a'][0]
            return t['v'][variant]['f'][i]['t']
        if k in ('tuple', 'closure'):
            return t['f'][i]
        if k in ('array', 'slice'):
            return t['t']
        raise Undecided('field type of %s' % t['s'])


class Violation:
    def __init__(self, rule, root, fn, at, msg, trace):
        self.rule, self.root, self.fn, self.at, self.msg, self.trace = rule, root, fn, at, msg, trace

    def key(self):
        return '%s|%s|%s' % (self.rule, self.root, self.msg)


def liveness(body):
    """(locals whose address is taken, live-in per block, live-out per block)."""
    r = body.get('live')
    if r is not None:
        return r
    n = len(body['blocks'])
    taken = {0}
    use, dfn, succ = [], [], []

    def pl(p, u, d):
        if p['l'] not in d:
            u.add(p['l'])
        for e in p['p']:
            if e != '*' and e[0] == 'i' and e[1] not in d:
                u.add(e[1])

    def walk(x, u, d):
        if isinstance(x, dict):
            if 'l' in x and 'p' in x and isinstance(x['p'], list):
                pl(x, u, d)
            if x.get('r') in ('ref', 'rawref', 'addr') or x.get('r') == 'ref':
                taken.add(x['p']['l'])
            for v in x.values():
                walk(v, u, d)
        elif isinstance(x, list):
            for v in x:
                walk(v, u, d)

    for b in body['blocks']:
        u, d, sc = set(), set(), set()
        for s in b['s']:
            if s['s'] == '=':
                walk(s['r'], u, d)
                if s['p']['p']:
                    pl(s['p'], u, d)
                else:
                    d.add(s['p']['l'])
            elif s['s'] == 'dead':
                d.add(s['l'])
            else:
                walk(s, u, d)
        t = b['t']
        for k, v in t.items():
            if k == 'd' and t['k'] == 'call':
                if v['p']:
                    pl(v, u, d)
            else:
                walk(v, u, d)
        for k in ('b', 'other'):
            if isinstance(t.get(k), int):
                sc.add(t[k])
        for a in t.get('arms') or ():
            sc.add(a[1])
        use.append(u)
        dfn.append(d)
        succ.append(sc)
    lin = [set() for _ in range(n)]
    lout = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            o = set()
            for j in succ[i]:
                o |= lin[j]
            if o != lout[i]:
                lout[i] = o
                ch = True
            w = use[i] | (o - dfn[i])
            if w != lin[i]:
                lin[i] = w
                ch = True
    body['live'] = (taken, lin, lout)
    return body['live']


class Analysis:
    """One root, one monitor."""

    def __init__(self, root, monitor, models):
        self.r = root
        self.m = monitor
        self.models = models
        self.viol = {}
        self.states = 0
        self.steps = 0
        self.ends = 0
        self.fns = set()
        self.calls = set()
        self.obl = {}
        self.fin = False
        monitor.an = self

    # ------------------------------------------------------------ reporting
    def oblige(self, rule):
        self.obl[rule] = self.obl.get(rule, 0) + 1

    def report(self, st, rule, msg, at=None):
        if at is None:
            at = self.here(st)
        fn = st.frames[-1].path if st.frames else self.r.name
        for f in reversed(st.frames):
            if 'graph_safe_compare' in f.path and not f.path.startswith('gsc_client'):
                fn = f.path
                break
        v = Violation(rule, self.r.name, fn, at, msg, self.trace(st))
        self.viol.setdefault(v.key(), v)

    def require(self, st, rule, cond, msg, at=None):
        self.oblige(rule)
        if not cond:
            self.report(st, rule, msg, at)
        return cond

    def here(self, st):
        # the innermost construct of the crate under analysis
        for f in reversed(st.frames):
            b = f.body['blocks'][f.bb]
            at = None
            if f.si < len(b['s']):
                at = b['s'][f.si].get('at')
            if at is None:
                at = b['t'].get('at')
            if at is None:
                for s in b['s']:
                    at = s.get('at') or at
            if at and '/repo/' in at:
                return at
        return st.frames[0].body.get('at', '?') if st.frames else '?'

    def trace(self, st):
        out = []
        t = st.trace
        while t is not None and len(out) < 60:
            out.append(t[0])
            t = t[1]
        return out[::-1]

    def note(self, st, txt):
        st.trace = (txt, st.trace)

    # ------------------------------------------------------------ values
    def choose(self, st, n):
        if n == 1:
            return 0
        if n == 0:
            raise Infeasible()
        if st.di < len(st.dec):
            k = st.dec[st.di]
            st.di += 1
            return k
        raise Split(n)

    def new_id(self, st):
        st.nxt += 1
        return st.nxt

    def new_obj(self, st, val, kind):
        o = self.new_id(st)
        st.heap[o] = val
        st.hkind[o] = kind
        return o

    def int_range(self, ty):
        t = self.r.T[ty]
        b = t['bits']
        if t['signed']:
            return -(1 << (b - 1)), (1 << (b - 1)) - 1
        return 0, (1 << b) - 1

    def assume(self, st, lin):
        if num.is_const(lin):
            if lin[0] < 0:
                raise Infeasible()
            return
        if num.entails(st.num, lin):
            return
        cs = num.reduce_set(list(st.num) + [lin])
        if cs is None or num.infeasible(frozenset(num.relevant(cs, lin))):
            raise Infeasible()
        st.num = cs

    def test(self, st, lin):
        """Decide `lin >= 0`, splitting when both are possible."""
        if num.entails(st.num, lin):
            return True
        neg = num.shift(num.scale(lin, -1), -1)
        if num.entails(st.num, neg):
            return False
        if self.choose(st, 2) == 0:
            self.assume(st, lin)
            return True
        self.assume(st, neg)
        return False

    def fresh_int(self, st, lo, hi):
        s = self.new_id(st)
        l = num.sym(s)
        st.num = num.reduce_set(list(st.num) + [num.shift(l, -lo), num.shift(num.scale(l, -1), hi)])
        return ('I',) + l

    def fresh(self, st, ty):
        t = self.r.T[ty]
        k = t['k']
        if k == 'int':
            return self.fresh_int(st, *self.int_range(ty))
        if not self.r.inhabited(ty):
            raise Infeasible()
        if k == 'tuple':
            return ('A', 0, tuple(self.fresh(st, x) for x in t['f']))
        if k == 'array' and t['n'] is not None and t['n'] <= 8:
            return ('A', 0, tuple(self.fresh(st, t['t']) for _ in range(t['n'])))
        if k in ('fndef',):
            return ('Z', ty)
        if k == 'closure':
            return ('A', 0, tuple(self.fresh(st, x) for x in t['f']))
        if k == 'adt':
            p = t['p']
            if p == 'core::num::nonzero::NonZero':
                it = t['a'][0]
                lo, hi = self.int_range(it)
                return self.fresh_int(st, 1 if lo == 0 else lo, hi)
            if p in ('core::cell::Cell', 'core::cell::UnsafeCell'):
                return ('A', 0, (self.fresh(st, t['a'][0]),))
            if p == 'core::fmt::Arguments':
                return ('X', 'fmt')
            if t['exp'] and t['kind'] == 'struct':
                return ('A', 0, tuple(self.fresh(st, f['t']) for f in t['v'][0]['f']))
        return ('S', self.new_id(st), ty)

    def res(self, st, v):
        while v[0] == 'S' and v[1] in st.bind:
            v = st.bind[v[1]]
        return v

    def deep(self, st, v):
        """Resolve bindings everywhere in `v`."""
        v = self.res(st, v)
        if v[0] == 'A':
            return ('A', v[1], tuple(self.deep(st, x) for x in v[2]))
        if v[0] == 'D':
            return ('D', tuple(self.deep(st, x) for x in v[1]), v[2], tuple(self.deep(st, x) for x in v[3]))
        return v

    def bind(self, st, v, val):
        st.bind[v[1]] = val
        return val

    def variant(self, st, v):
        """Force `v` (an enum value) to a variant."""
        v = self.res(st, v)
        if v[0] == 'A':
            return v
        if v[0] == 'S':
            t = self.r.T[v[2]]
            if t['k'] == 'adt' and t['exp']:
                vs = self.r.variants(v[2])
                vs = self.models.allowed_variants(self, st, v, vs)
                i = vs[self.choose(st, len(vs))]
                n = ('A', i, tuple(self.fresh(st, f['t']) for f in t['v'][i]['f']))
                self.bind(st, v, n)
                self.models.bound_variant(self, st, v, n)
                return n
        raise Undecided('variant of %r' % (v,))

    def boolean(self, st, v):
        v = self.res(st, v)
        if v[0] == 'B':
            return v[1]
        if v[0] == 'S':
            b = self.choose(st, 2) == 0
            self.bind(st, v, ('B', b))
            return b
        if v[0] == 'I' and num.is_const(v[1:]):
            return v[1] != 0
        raise Undecided('truth of %r' % (v,))

    def intv(self, st, v):
        v = self.res(st, v)
        if v[0] == 'I':
            return v[1:]
        if v[0] == 'B':
            return num.const(int(v[1]))
        if v[0] == 'S':
            t = self.r.T[v[2]]
            if t['k'] == 'bool':
                return num.const(int(self.boolean(st, v)))
            if t['k'] == 'int':
                n = self.fresh(st, v[2])
                self.bind(st, v, n)
                return n[1:]
        if v[0] == 'A' and len(v[2]) == 1:
            return self.intv(st, v[2][0])
        raise Undecided('integer %r' % (v,))

    # ------------------------------------------------------------ memory
    def root_val(self, st, root):
        if root[0] == 'L':
            return st.frames[root[1]].loc.get(root[2], ('U',))
        if root[1] not in st.heap:
            raise Undecided('dangling object')
        return st.heap[root[1]]

    def set_root(self, st, root, v):
        if root[0] == 'L':
            st.frames[root[1]].loc[root[2]] = v
        else:
            st.heap[root[1]] = v

    def child(self, st, v, e):
        v = self.res(st, v)
        if isinstance(e, tuple):
            if v[0] != 'D':
                raise Undecided('element of %r' % (v,))
            seq = v[1] if e[0] == 'ef' else v[3]
            i = e[1] if e[0] == 'ef' else len(seq) - 1 - e[1]
            if not (0 <= i < len(seq)):
                raise Undecided('element index')
            return seq[i]
        if v[0] == 'S':
            t = self.r.T[v[2]]
            if t['k'] == 'adt' and t['kind'] == 'enum':
                v = self.variant(st, v)
            elif t['k'] == 'adt' and not t['exp']:
                return v
        if v[0] == 'A':
            if e >= len(v[2]):
                raise Undecided('field %r of %r' % (e, v))
            return v[2][e]
        if v[0] in ('P', 'I', 'X'):
            return v  # a field of an opaque smart pointer / NonZero
        if v[0] == 'U':
            raise Undecided('read of uninitialised memory')
        raise Undecided('field %r of %r' % (e, v))

    def load(self, st, root, path):
        v = self.root_val(st, root)
        for e in path:
            v = self.child(st, v, e)
        return self.res(st, v)

    def update(self, st, v, path, new, ty=None):
        if not path:
            return new
        e = path[0]
        v = self.res(st, v)
        if isinstance(e, tuple):
            seq = list(v[1] if e[0] == 'ef' else v[3])
            i = e[1] if e[0] == 'ef' else len(seq) - 1 - e[1]
            seq[i] = self.update(st, seq[i], path[1:], new)
            return ('D', tuple(seq), v[2], v[3]) if e[0] == 'ef' else ('D', v[1], v[2], tuple(seq))
        if v[0] == 'S':
            v = self.variant(st, v)
        if v[0] == 'U':
            fs = [('U',)] * (e + 1)
            v = ('A', 0, tuple(fs))
        if v[0] != 'A':
            raise Undecided('store into %r' % (v,))
        fs = list(v[2])
        while len(fs) <= e:
            fs.append(('U',))
        fs[e] = self.update(st, fs[e], path[1:], new)
        return ('A', v[1], tuple(fs))

    def store(self, st, root, path, val):
        if not path:
            self.set_root(st, root, val)
        else:
            self.set_root(st, root, self.update(st, self.root_val(st, root), path, val))

    def pointer(self, st, v):
        """The (root, path) a pointer value points to."""
        v = self.res(st, v)
        if v[0] == 'R':
            return v[1], v[2]
        if v[0] == 'P':
            return ('O', v[1]), ()
        if v[0] == 'T':
            return self.pointer(st, v[1])
        if v[0] == 'S':
            t = self.r.T[v[2]]
            if t['k'] in ('ref', 'ptr'):
                o = self.new_obj(st, self.fresh(st, t['t']), 'lazy')
                self.bind(st, v, ('R', ('O', o), ()))
                return ('O', o), ()
            if t['k'] == 'adt':
                o = self.models.handle_obj(self, st, v)
                return ('O', o), ()
        if v[0] == 'A' and len(v[2]) >= 1:
            return self.pointer(st, v[2][0])
        if v[0] == 'X' and v[1] == 'str':
            return ('O', self.new_obj(st, v, 'fresh')), ()
        raise Undecided('pointer %r' % (v,))

    def deref(self, st, v):
        return self.load(st, *self.pointer(st, v))

    def place(self, st, p):
        """Address of a place."""
        root = ('L', len(st.frames) - 1, p['l'])
        path = ()
        for e in p['p']:
            if e == '*':
                root, path = self.pointer(st, self.load(st, root, path))
            elif e[0] == 'f':
                path = path + (e[1],)
            elif e[0] == 'v':
                v = self.load(st, root, path)
                if v[0] == 'S':
                    v = self.variant(st, v)
                if v[0] == 'A' and v[1] != e[1]:
                    # set_discriminant style initialisation writes fields first
                    self.store(st, root, path, ('A', e[1], ()))
            elif e[0] == 'c':
                if e[2]:
                    v = self.load(st, root, path)
                    if v[0] != 'A':
                        raise Undecided('slice index')
                    path = path + (len(v[2]) - e[1],)
                else:
                    path = path + (e[1],)
            elif e[0] == 'i':
                i = self.intv(st, st.frames[-1].loc[e[1]])
                if not num.is_const(i):
                    v = self.load(st, root, path)
                    if v[0] == 'A':
                        n = len(v[2])
                        k = self.choose(st, n)
                        self.assume(st, num.shift(i, -k))
                        self.assume(st, num.shift(num.scale(i, -1), k))
                        i = num.const(k)
                    else:
                        raise Undecided('symbolic index')
                path = path + (i[0],)
            else:
                raise Undecided('projection %r' % (e,))
        return root, path

    def cellwrap(self, path):
        return path

    def read(self, st, p):
        root, path = self.place(st, p)
        return self.load(st, root, path)

    # ------------------------------------------------------------ operands
    def constant(self, st, c):
        k = c['k']
        ty = c['t']
        t = self.r.T[ty]
        if k == 'int':
            if t['k'] == 'bool':
                return ('B', bool(c['v']))
            return ('I', c['v'], ())
        if k == 'zst':
            if t['k'] == 'fndef':
                return ('Z', ty)
            if t['k'] in ('tuple', 'closure') or (t['k'] == 'adt' and t['kind'] == 'struct'):
                return ('A', 0, tuple(self.fresh(st, x) for x in self.struct_fields(ty)))
            if t['k'] == 'adt' and t['kind'] == 'enum':
                vs = self.r.variants(ty)
                return ('A', vs[0], ())
            return ('X', 'zst')
        if k == 'agg':
            if t['k'] == 'adt' and t['p'] == 'core::num::nonzero::NonZero':
                x = c['f'][0]
                while x['k'] == 'agg':
                    x = x['f'][0]
                if x['k'] == 'int':
                    return ('I', x['v'], ())
                return self.fresh(st, ty)
            return ('A', c['v'] or 0, tuple(self.constant(st, x) for x in c['f']))
        if k == 'promoted':
            return self.konst(st, c['key'], ty)
        if k == 'uneval':
            if c.get('val'):
                v = c['val']
                if v['k'] not in ('opaque', 'ptr', 'str'):
                    return self.constant(st, v)
            if c.get('key') and c['key'] in self.r.inst:
                return self.konst(st, c['key'], ty)
            fk = ('const', c.get('rpath') or c['path'], tuple(self.r.ts(x) for x in c['a']))
            if fk not in st.facts:
                st.facts[fk] = self.fresh(st, ty)
            return st.facts[fk]
        if k == 'opaque':
            if t['k'] in ('int', 'bool'):
                fk = ('cparam', self.r.ts(ty))
                if fk not in st.facts:
                    st.facts[fk] = self.fresh(st, ty)
                return st.facts[fk]
            if t['k'] == 'adt' and t['p'] == 'core::num::nonzero::NonZero':
                return self.fresh(st, ty)
            if t['k'] == 'adt' and t['exp']:
                return self.fresh(st, ty)
        return ('X', k)

    def konst(self, st, key, ty):
        """Value of a constant given by a body: interpret the body once."""
        fk = ('kbody', key)
        if fk in st.facts:
            v = st.facts[fk]
            return v
        inst = self.r.inst.get(key)
        if inst is None:
            return self.fresh(st, ty)
        f = Frame(key, inst)
        f.konst = fk
        self.fns.add(inst['path'])
        st.frames.append(f)
        raise Restart()

    def struct_fields(self, ty):
        t = self.r.T[ty]
        if t['k'] in ('tuple', 'closure'):
            return t['f']
        if t['k'] == 'adt' and t['exp']:
            return [f['t'] for f in t['v'][0]['f']]
        return []

    def operand(self, st, o):
        k = o['o']
        if k == 'const':
            return self.constant(st, o['c'])
        if k == 'rtchecks':
            return ('B', 'Overflow' in o['c'])
        root, path = self.place(st, o['p'])
        v = self.load(st, root, path)
        if o['o'] == 'move' and '*' not in o['p']['p'] and root[0] == 'L':
            self.kills.append((root, path))
        return v

    def kill(self, st):
        """Places that were moved out of hold nothing any more."""
        for root, path in self.kills:
            self.store(st, root, path, ('U',))
        self.kills = []

    # ------------------------------------------------------------ rvalues
    def wrap(self, st, lin, ty):
        """Reduce `lin` modulo the type's size (at most one wrap is distinguished)."""
        lo, hi = self.int_range(ty)
        if self.test(st, num.shift(lin, -lo)):
            if self.test(st, num.shift(num.scale(lin, -1), hi)):
                return lin, False
            w = num.shift(lin, -(hi - lo + 1))
        else:
            w = num.shift(lin, hi - lo + 1)
        if num.entails(st.num, num.shift(w, -lo)) and num.entails(st.num, num.shift(num.scale(w, -1), hi)):
            return w, True
        f = self.fresh_int(st, lo, hi)
        return f[1:], True

    def arith(self, st, op, a, b, ty):
        """Exact mathematical result, or None when not linear."""
        if op == 'Add':
            return num.add(a, b)
        if op == 'Sub':
            return num.sub(a, b)
        if op == 'Mul':
            if num.is_const(a):
                return num.scale(b, a[0])
            if num.is_const(b):
                return num.scale(a, b[0])
            return self.product(st, a, b, ty)
        return None

    def product(self, st, a, b, ty):
        """A number bounded by what is linear in the bounds of `a * b` (McCormick)."""
        (al, au), (bl, bu) = num.bounds(st.num, a), num.bounds(st.num, b)
        if None in (al, au, bl, bu):
            return None
        cs = [x * y for x in (al, au) for y in (bl, bu)]
        lo, hi = self.int_range(ty)
        if al >= 0 and bl >= 0 and max(cs) > hi:
            corner = list(st.num) + [num.shift(a, -au), num.shift(b, -bu)]
            if num.infeasible(frozenset(corner)):
                raise Undecided('a product whose greatest value is not known')
        p = self.fresh_int(st, min(cs), max(cs))
        st.facts[('inexact', p[1:])] = ('K', 1)
        p = p[1:]
        for x, y, sg in ((al, bl, 1), (au, bu, 1), (au, bl, -1), (al, bu, -1)):
            t = num.shift(num.sub(num.sub(p, num.scale(b, x)), num.scale(a, y)), x * y)
            self.assume(st, num.scale(t, sg))
        return p

    def inexact(self, st, t):
        """Does `t` depend on a number of which only bounds are known?"""
        syms = {s for s, _ in t[1]}
        for c in num.relevant(st.num, t):
            syms |= {s for s, _ in c[1]}
        return any(('inexact', num.sym(s)) in st.facts for s in syms)

    def divrem(self, st, op, a, b, ty):
        t = self.r.T[ty]
        if num.is_const(a) and num.is_const(b) and b[0]:
            q = abs(a[0]) // abs(b[0])
            if (a[0] < 0) != (b[0] < 0):
                q = -q
            r = a[0] - q * b[0]
            return num.const(q if op == 'Div' else r)
        if num.entails(st.num, a) and num.is_const(b) and b[0] > 0:
            fk = ('div', ('I',) + a, b[0])
            if fk not in st.facts:
                q = self.fresh_int(st, 0, (1 << t['bits']) - 1)
                st.facts[fk] = q
                qq = num.scale(q[1:], b[0])
                self.assume(st, num.sub(a, qq))
                self.assume(st, num.shift(num.sub(qq, a), b[0] - 1))
            q = st.facts[fk][1:]
            return q if op == 'Div' else num.sub(a, num.scale(q, b[0]))
        if num.entails(st.num, a) and num.entails(st.num, num.shift(b, -1)):
            if op == 'Rem':
                r = self.fresh_int(st, 0, (1 << t['bits']) - 1)[1:]
                self.assume(st, num.shift(num.sub(b, r), -1))
                self.assume(st, num.sub(a, r))
                return r
            q = self.fresh_int(st, 0, (1 << t['bits']) - 1)[1:]
            self.assume(st, num.sub(a, q))
            return q
        return self.fresh_int(st, *self.int_range(ty))[1:]

    def compare(self, st, op, a, b):
        if op == 'Lt':
            return self.test(st, num.shift(num.sub(b, a), -1))
        if op == 'Le':
            return self.test(st, num.sub(b, a))
        if op == 'Gt':
            return self.test(st, num.shift(num.sub(a, b), -1))
        if op == 'Ge':
            return self.test(st, num.sub(a, b))
        eq = self.test(st, num.sub(b, a)) and self.test(st, num.sub(a, b))
        return eq if op == 'Eq' else not eq

    def ptr_order(self, st, a, b):
        """-1 / 0 / 1 for two pointers."""
        a, b = self.ptr_norm(st, a), self.ptr_norm(st, b)
        if a == b:
            return 0
        thin = a[0] == 'T' or b[0] == 'T'
        if not thin and a[0] == 'R' and b[0] == 'R':
            ka = a[1][0] == 'O' and st.hkind.get(a[1][1]) in ('fresh', 'cell')
            kb = b[1][0] == 'O' and st.hkind.get(b[1][1]) in ('fresh', 'cell')
            distinct = ka and kb or a[1][0] == 'L' or b[1][0] == 'L' or (a[1] == b[1])
        else:
            distinct = False
        x, y, sg = (a, b, 1) if repr(a) < repr(b) else (b, a, -1)
        fk = ('pcmp', x, y)
        rk = ('pcmp', y, x)
        if fk in st.facts:
            return sg * st.facts[fk][1]
        if rk in st.facts:
            return -sg * st.facts[rk][1]
        opts = [-1, 1] if distinct else [-1, 0, 1]
        c = opts[self.choose(st, len(opts))]
        st.facts[fk] = ('K', c)
        return sg * c

    def ptr_norm(self, st, v):
        v = self.res(st, v)
        if v[0] == 'T':
            return ('T', self.ptr_norm(st, v[1]))
        root, path = self.pointer(st, v)
        return ('R', root, path)

    def binop(self, st, op, a, b, ty, rty):
        t = self.r.T[ty]
        if t['k'] == 'float':
            return ('B', self.choose(st, 2) == 1) if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') else ('X', 'float')
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Cmp'):
            if t['k'] in ('ptr', 'ref'):
                if op in ('Eq', 'Ne'):
                    c = self.ptr_order(st, a, b)
                else:
                    c = self.ptr_order(st, a, b)
                if op == 'Cmp':
                    return ('A', c + 1, ())
                return ('B', {'Eq': c == 0, 'Ne': c != 0, 'Lt': c < 0, 'Le': c <= 0, 'Gt': c > 0, 'Ge': c >= 0}[op])
            if t['k'] == 'adt' or t['k'] == 'tuple':
                raise Undecided('comparison of %s' % t['s'])
            x, y = self.intv(st, a), self.intv(st, b)
            if op == 'Cmp':
                if self.compare(st, 'Lt', x, y):
                    return ('A', 0, ())
                return ('A', 1 if self.compare(st, 'Eq', x, y) else 2, ())
            return ('B', self.compare(st, op, x, y))
        if op in ('BitAnd', 'BitOr', 'BitXor') and t['k'] == 'bool':
            x, y = self.boolean(st, a), self.boolean(st, b)
            return ('B', {'BitAnd': x and y, 'BitOr': x or y, 'BitXor': x != y}[op])
        if t['k'] in ('ptr', 'ref'):
            raise Undecided('pointer arithmetic')
        x, y = self.intv(st, a), self.intv(st, b)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            m = self.arith(st, base, x, y, ty)
            lo, hi = self.int_range(ty)
            if m is None:
                if op.endswith('WithOverflow'):
                    o = self.choose(st, 2) == 1
                    return ('A', 0, (self.fresh_int(st, lo, hi), ('B', o)))
                return self.fresh_int(st, lo, hi)
            if op.endswith('Unchecked'):
                return ('I',) + m
            w, o = self.wrap(st, m, ty)
            if op.endswith('WithOverflow'):
                return ('A', 0, (('I',) + w, ('B', o)))
            return ('I',) + w
        if base in ('Div', 'Rem'):
            return ('I',) + self.divrem(st, base, x, y, ty)
        if num.is_const(x) and num.is_const(y):
            lo, hi = self.int_range(ty)
            m = hi - lo + 1
            f = {'BitAnd': lambda p, q: p & q, 'BitOr': lambda p, q: p | q, 'BitXor': lambda p, q: p ^ q,
                 'Shl': lambda p, q: p << (q % t['bits']), 'Shr': lambda p, q: p >> (q % t['bits'])}.get(base)
            if f:
                v = f(x[0], y[0])
                v = (v - lo) % m + lo
                return ('I', v, ())
        if base == 'Shr' and num.is_const(y) and not t['signed']:
            return ('I',) + self.divrem(st, 'Div', x, num.const(1 << (y[0] % t['bits'])), ty)
        if base == 'Shl' and num.is_const(y):
            m = num.scale(x, 1 << (y[0] % t['bits']))
            return ('I',) + self.wrap(st, m, ty)[0]
        lo, hi = self.int_range(ty)
        if base == 'BitAnd' and not t['signed']:
            f = self.fresh_int(st, lo, hi)
            self.assume(st, num.sub(x, f[1:]))
            self.assume(st, num.sub(y, f[1:]))
            return f
        return self.fresh_int(st, lo, hi)

    def cast(self, st, r):
        v = self.operand(st, r['o'])
        k = r['k']
        src, dst = self.r.T[r['ot']], self.r.T[r['t']]
        if k == 'IntToInt':
            if dst['k'] != 'int':
                return ('X', 'cast')
            vr = self.res(st, v)
            if vr[0] == 'A' and src['k'] == 'adt':
                x = num.const(self.discr_value(r['ot'], vr[1]))
            elif vr[0] == 'S' and src['k'] == 'adt':
                vr = self.variant(st, vr)
                x = num.const(self.discr_value(r['ot'], vr[1]))
            else:
                x = self.intv(st, v)
            lo, hi = self.int_range(r['t'])
            if num.entails(st.num, num.shift(x, -lo)) and num.entails(st.num, num.shift(num.scale(x, -1), hi)):
                return ('I',) + x
            if num.is_const(x):
                return ('I', (x[0] - lo) % (hi - lo + 1) + lo, ())
            if self.test(st, num.shift(x, -lo)) and self.test(st, num.shift(num.scale(x, -1), hi)):
                return ('I',) + x
            return self.fresh_int(st, lo, hi)
        if 'PtrToPtr' in k or 'PointerCoercion' in k or k == 'Transmute':
            if dst['k'] in ('ptr', 'ref') and src['k'] in ('ptr', 'ref'):
                a, b = self.r.T[src['t']], self.r.T[dst['t']]
                if a['k'] in ('param', 'alias', 'dyn', 'slice', 'str') and b['k'] not in ('param', 'alias', 'dyn', 'slice', 'str'):
                    return ('T', v)
                return v
            if dst['k'] in ('ptr', 'ref'):
                return ('R',) + self.pointer(st, v)
            if src['k'] in ('ptr', 'ref') and dst['k'] == 'int':
                return ('S', self.new_id(st), r['t'])
            if k == 'Transmute':
                return self.transmute(st, v, r['ot'], r['t'])
            return v
        if 'PointerExposeProvenance' in k or 'Address' in k:
            fk = ('addr', self.ptr_norm(st, v))
            if fk not in st.facts:
                st.facts[fk] = self.fresh(st, r['t'])
            return st.facts[fk]
        if dst['k'] == 'int':
            return self.fresh(st, r['t'])
        return ('X', 'cast')

    def nonzero(self, ty):
        t = self.r.T[ty]
        return t['k'] == 'adt' and t['p'] == 'core::num::nonzero::NonZero'

    def scalar(self, ty):
        """The type of integer that a type is represented by, if any."""
        t = self.r.T[ty]
        return ty if t['k'] == 'int' else t['a'][0] if self.nonzero(ty) else None

    def transmute(self, st, v, sty, dty):
        src, dst = self.r.T[sty], self.r.T[dty]
        a, b = self.scalar(sty), self.scalar(dty)
        if a is not None and b is not None:
            x = self.intv(st, v)
            return ('I',) + (x if a == b else self.wrap(st, x, b)[0])
        niche = [t['k'] == 'adt' and t['kind'] == 'enum' and t['p'] == 'core::option::Option' and t['a'] and self.nonzero(t['a'][0])
                 for t in (src, dst)]
        if a is not None and niche[1]:
            x = self.intv(st, v)
            return ('A', 0, ()) if self.compare(st, 'Eq', x, num.const(0)) else ('A', 1, (('I',) + x,))
        if b is not None and niche[0]:
            v = self.variant(st, v)
            return ('I', 0, ()) if v[1] == 0 else ('I',) + self.intv(st, v[2][0])
        for x, y, fwd in ((sty, dst, True), (dty, src, False)):
            it = self.scalar(x)
            if it is None or y['k'] != 'array' or self.r.T[y['t']]['k'] != 'int':
                continue
            lo, hi = self.int_range(it)
            blo, bhi = self.int_range(y['t'])
            if blo != 0 or y['n'] is None or (bhi + 1) ** y['n'] != hi - lo + 1:
                continue
            if fwd:
                w = self.intv(st, v)
                if lo < 0 and not self.test(st, w):
                    w = num.shift(w, hi - lo + 1)
                parts = [self.fresh_int(st, blo, bhi) for _ in range(y['n'])]
            else:
                v = self.deep(st, v)
                if v[0] != 'A':
                    break
                parts = [('I',) + self.intv(st, p) for p in v[2]]
            total = num.const(0)
            for i, p in enumerate(parts):
                total = num.add(total, num.scale(p[1:], (bhi + 1) ** i))
            if fwd:
                d = num.sub(total, w)
                self.assume(st, d)
                self.assume(st, num.scale(d, -1))
                return ('A', 0, tuple(parts))
            return ('I',) + (total if lo == 0 else self.wrap(st, total, it)[0])
        if b is not None and (src['k'] == 'bool' or src['k'] == 'adt' and src['kind'] == 'enum'):
            return ('I',) + self.intv(st, v)
        if self.res(st, v)[0] in ('I', 'B') and dst['k'] not in ('bool', 'adt') or dst['k'] == 'int':
            raise Undecided('transmute from %s to %s' % (self.r.ts(sty), self.r.ts(dty)))
        return v

    def discr_value(self, ty, variant):
        t = self.r.T[ty]
        if t['k'] == 'adt' and t['kind'] == 'enum':
            d = t['v'][variant]['d']
            return d
        return 0

    def rvalue(self, st, r, s):
        k = r['r']
        if k == 'use':
            return self.operand(st, r['o'])
        if k == 'ref':
            return ('R',) + self.place(st, r['p'])
        if k == 'cast':
            return self.cast(st, r)
        if k == 'bin':
            a, b = self.operand(st, r['a']), self.operand(st, r['b'])
            return self.binop(st, r['op'], a, b, r['t'], r.get('rt'))
        if k == 'un':
            a = self.operand(st, r['a'])
            t = self.r.T[r['t']]
            if r['op'] == 'Not':
                if t['k'] == 'bool':
                    return ('B', not self.boolean(st, a))
                return self.fresh(st, r['t'])
            if t['k'] == 'float':
                return ('X', 'float')
            if r['op'] == 'Neg':
                return ('I',) + self.wrap(st, num.scale(self.intv(st, a), -1), r['t'])[0]
            if r['op'] == 'PtrMetadata' and t['k'] in ('ref', 'ptr') and self.r.T[t['t']]['k'] == 'slice':
                v = self.deref(st, a)
                if v[0] == 'A':
                    return ('I', len(v[2]), ())
            return ('X', 'meta')
        if k == 'discr':
            root, path = self.place(st, r['p'])
            v = self.load(st, root, path)
            t = self.r.T[r['t']]
            if t['k'] == 'adt' and t['kind'] == 'enum':
                if v[0] == 'S':
                    v = self.variant(st, v)
                if v[0] != 'A':
                    raise Undecided('discriminant of %r' % (v,))
                d, rt = self.discr_value(r['t'], v[1]), self.r.T[r['rt']]
                if rt['k'] == 'int' and rt['signed'] and d > self.int_range(r['rt'])[1]:
                    d -= 1 << rt['bits']
                return ('I', d, ())
            return ('I', 0, ())
        if k == 'agg':
            fs = tuple(self.operand(st, x) for x in r['f'])
            t = self.r.T[r['t']]
            if t['k'] == 'adt' and t['p'] in ('core::cell::UnsafeCell', 'core::cell::Cell') and fs and \
                    self.res(st, fs[0])[0] == 'A' and t['p'] == 'core::cell::Cell' and False:
                return fs[0]
            if r['k'] == 'rawptr':
                return fs[0]
            return ('A', r['v'], fs)
        if k == 'repeat':
            v = self.operand(st, r['o'])
            if r['n'] is not None and r['n'] <= 64:
                return ('A', 0, (v,) * r['n'])
            return ('X', 'array')
        if k == 'tls':
            self.report(st, 'effect', 'thread-local state %s is used' % r['d'], s.get('at'))
            return ('X', 'tls')
        raise Undecided('rvalue %s' % k)

    # ------------------------------------------------------------ execution
    def start(self):
        st = State()
        st.frames, st.heap, st.hkind, st.bind, st.facts = [], {}, {}, {}, {}
        st.num = frozenset()
        st.mon = {}
        st.nxt = 0
        st.trace = None
        st.dec, st.di = [], 0
        inst = self.r.inst.get(self.r.key)
        if inst is None:
            raise Undecided('no body for root')
        f = Frame(self.r.key, inst)
        st.frames.append(f)
        b = inst['body']
        args = []
        for i in range(1, b['argc'] + 1):
            v = self.fresh(st, b['locals'][i])
            t = self.r.T[b['locals'][i]]
            if t['k'] == 'ref':
                root, path = self.pointer(st, v)
                v = ('R', root, path)
            f.loc[i] = v
            args.append(v)
        self.m.init(st, args)
        return st

    def run(self):
        try:
            st = self.start()
        except Infeasible:
            # an uninhabited argument: there is nothing to run
            self.oblige('uninhabited')
            return self
        except Undecided as e:
            v = Violation('undecided', self.r.name, self.r.name, '?', 'cannot analyse: %s' % e, [])
            self.viol.setdefault(v.key(), v)
            return self
        work = [st]
        seen = set()
        self.deadline = time.time() + MAX_SECONDS
        self.most = 0
        self.wide, self.visits = {}, {}
        while work:
            st = work.pop()
            self.run_path(st, work, seen)
            if time.time() > self.deadline:
                v = Violation('undecided', self.r.name, self.r.name, self.here(st),
                              'the analysis does not end within %d seconds' % MAX_SECONDS, [])
                self.viol.setdefault(v.key(), v)
                break
            if self.states > MAX_STATES:
                v = Violation('undecided', self.r.name, self.r.name, self.here(st),
                              'the abstract state space does not close within %d states' % MAX_STATES, [])
                self.viol.setdefault(v.key(), v)
                break
            if len(self.viol) > 40:
                break
        return self

    def run_path(self, st, work, seen):
        while True:
            snap = st.copy()
            try:
                st.di = 0
                self.steps += 1
                if not self.steps & 1023 and time.time() > self.deadline:
                    return
                done = self.step(st)
                st.dec, st.di = [], 0
                if done:
                    self.ends += 1
                    return
                if st.mon.pop('__check', None):
                    self.states += 1
                    self.most = max(self.most, len(st.facts))
                    if len(st.facts) > MAX_FACTS:
                        raise Undecided('what has to be remembered does not stay bounded')
                    point = tuple((f.key, f.bb) for f in st.frames)
                    if point in self.wide:
                        self.widen(st, self.wide[point])
                    k = self.canon(st)
                    if k in seen:
                        return
                    seen.add(k)
                    self.counting(st, point, k)
                    if self.states > MAX_STATES:
                        return
            except Restart:
                st.dec, st.di = [], 0
                continue
            except Split as e:
                for i in range(e.n - 1, -1, -1):
                    c = snap.copy()
                    c.dec = snap.dec + [i]
                    work.append(c)
                self.states += e.n
                return
            except Infeasible:
                return
            except Stop:
                self.ends += 1
                return
            except Undecided as e:
                if self.give_up_const(snap):
                    st = snap
                    continue
                self.report(snap, 'undecided', 'cannot analyse: %s' % e)
                return

    def give_up_const(self, st):
        """Within the body of a constant (evaluated at compile time, without effects): any value."""
        for i, f in enumerate(st.frames):
            if f.konst:
                st.facts[f.konst] = self.fresh(st, f.body['locals'][0])
                del st.frames[i:]
                st.dec, st.di = [], 0
                return True
        return False

    def goto(self, st, b):
        f = st.frames[-1]
        if b <= f.bb:
            st.mon['__check'] = True
        f.bb, f.si = b, 0

    def step(self, st):
        f = st.frames[-1]
        self.kills = []
        blk = f.body['blocks'][f.bb]
        if f.si < len(blk['s']):
            s = blk['s'][f.si]
            if s['s'] == '=':
                v = self.rvalue(st, s['r'], s)
                self.kill(st)
                root, path = self.place(st, s['p'])
                self.store(st, root, path, v)
            elif s['s'] == 'setdiscr':
                root, path = self.place(st, s['p'])
                v = self.load(st, root, path)
                self.store(st, root, path, ('A', s['v'], v[2] if v[0] == 'A' else ()))
            elif s['s'] == 'dead':
                f.loc.pop(s['l'], None)
            f.si += 1
            return False
        return self.term(st, f, blk['t'])

    def term(self, st, f, t):
        k = t['k']
        if k == 'goto':
            self.goto(st, t['b'])
            return False
        if k == 'switch':
            v = self.res(st, self.operand(st, t['o']))
            ty = self.r.T[t['t']]
            if ty['k'] == 'bool':
                x = int(self.boolean(st, v))
                for a, b in t['arms']:
                    if a == x:
                        self.goto(st, b)
                        return False
                self.goto(st, t['other'])
                return False
            if v[0] == 'X':
                raise Undecided('switch on %r' % (v,))
            x = self.intv(st, v)
            lo, hi = self.int_range(t['t']) if ty['k'] == 'int' else (None, None)
            for a, b in t['arms']:
                if ty['k'] == 'int' and ty['signed'] and a > hi:
                    a -= 1 << ty['bits']
                ax = num.const(a)
                if num.is_const(x):
                    # enum discriminants may be given as signed or as bit patterns
                    if x[0] == a or (x[0] - a) % (1 << 8 if False else (1 << (ty['bits'] if ty['k'] == 'int' else 64))) == 0:
                        self.goto(st, b)
                        return False
                elif self.compare(st, 'Eq', x, ax):
                    self.goto(st, b)
                    return False
            self.goto(st, t['other'])
            return False
        if k == 'return':
            return self.ret(st, f)
        if k == 'unreachable':
            raise Undecided('reaches what cannot be executed')
        if k == 'drop':
            return self.drop(st, f, t)
        if k == 'assert':
            self.oblige('panic')
            c = self.boolean(st, self.operand(st, t['o']))
            if c == t['e']:
                self.goto(st, t['b'])
                return False
            self.panic(st, 'assertion of the compiler fails: %s' % t['m'], t.get('at'))
            return True
        if k == 'call':
            return self.call(st, f, t)
        if k in ('resume', 'terminate'):
            return True
        raise Undecided('terminator %s' % k)

    def panic(self, st, msg, at=None):
        for f in st.frames:
            if f.konst:
                self.oblige('const-eval')
                raise Infeasible()  # rejected when the constant is evaluated at compile time
        self.report(st, 'panic', msg, self.here(st))
        raise Stop()

    def ret(self, st, f):
        v = f.loc.get(0, UNIT)
        v = self.res(st, v)
        if len(st.frames) == 1:
            self.fin = True
            self.oblige('panic')
            self.m.done(st, v)
            self.fin = False
            return True
        st.frames.pop()
        if f.konst:
            if v[0] == 'R' and v[1][0] == 'L' and v[1][1] == len(st.frames):
                # promoted: reference to a local of the constant's body
                o = self.new_obj(st, f.loc[v[1][2]], 'lazy')
                v = ('R', ('O', o), v[2])
            st.facts[f.konst] = v
            return False
        if f.dest is not None:
            self.store(st, f.dest[0], f.dest[1], v)
        if f.ret is None:
            raise Infeasible()
        if f.ret >= 0:
            self.goto(st, f.ret)
        return False

    def drop_targets(self, st, ty, root, path, out, depth=0):
        t = self.r.T[ty]
        if depth > 12:
            raise Undecided('drop glue depth')
        if not self.has_local_drop(ty):
            return
        v = self.load(st, root, path)
        if v[0] == 'U':
            return
        if t['k'] == 'adt' and t['exp']:
            if t['drop'] and t['drop'] in self.r.inst:
                out.append((t['drop'], ('R', root, path)))
            if t['kind'] == 'enum':
                v = self.variant(st, v)
            if v[0] != 'A':
                raise Undecided('drop of %r' % (v,))
            for i, fd in enumerate(t['v'][v[1]]['f']):
                self.drop_targets(st, fd['t'], root, path + (i,), out, depth + 1)
        elif t['k'] in ('tuple', 'closure'):
            for i, x in enumerate(t['f']):
                self.drop_targets(st, x, root, path + (i,), out, depth + 1)
        elif t['k'] == 'array':
            for i in range(t['n'] or 0):
                self.drop_targets(st, t['t'], root, path + (i,), out, depth + 1)
        else:
            raise Undecided('drop of a container of %s' % t['s'])

    def has_local_drop(self, ty, seen=None):
        seen = seen if seen is not None else set()
        if ty in seen:
            return False
        seen.add(ty)
        t = self.r.T[ty]
        if t['k'] == 'adt':
            if t['exp'] and t['drop'] and t['drop'] in self.r.inst:
                return True
            sub = [f['t'] for v in t['v'] for f in v['f']] if t['exp'] else t['a']
            return any(self.has_local_drop(x, seen) for x in sub)
        if t['k'] in ('tuple', 'closure'):
            return any(self.has_local_drop(x, seen) for x in t['f'])
        if t['k'] == 'array':
            return self.has_local_drop(t['t'], seen)
        return False

    def drop(self, st, f, t):
        ty = t['p']['t']
        if f.dropq is None and self.has_local_drop(ty):
            out = []
            root, path = self.place(st, t['p'])
            self.drop_targets(st, ty, root, path, out)
            f.dropq = out
        if f.dropq:
            key, ptr = f.dropq.pop(0)
            inst = self.r.inst[key]
            g = Frame(key, inst)
            g.loc[1] = ptr
            g.ret = -1
            self.fns.add(inst['path'])
            st.frames.append(g)
            return False
        f.dropq = None
        self.m.dropped(st, t)
        self.goto(st, t['b'])
        return False

    # ------------------------------------------------------------ calls
    def call(self, st, f, t):
        fn = t['f']
        if fn['how'] == 'indirect':
            v = self.res(st, self.operand(st, fn['o']))
            if v[0] == 'Z':
                fn = self.r.T[v[1]]['callee']
            else:
                raise Undecided('indirect call')
        args = [self.operand(st, a) for a in t['args']]
        self.kill(st)
        return self.invoke(st, f, fn, args, t)

    def invoke(self, st, f, fn, args, t):
        names = [x for x in (fn.get('rpath'), fn.get('path')) if x]
        at = t.get('at')
        dty = t['d']['t']
        self.calls.add(names[0])
        # 1. the monitor of the root, 2. models, 3. the body
        r = self.m.call(st, fn, names, args, dty, t)
        if r is None:
            r = self.models.call(self, st, fn, names, args, dty, t)
        if r is None and fn['how'] == 'ctor':
            r = ('A', fn['variant'], tuple(args))
        if r is None and fn.get('key') in self.r.inst:
            inst = self.r.inst[fn['key']]
            if any(g.key == fn['key'] for g in st.frames) and not self.m.reenter(st, fn['key']):
                self.report(st, 'recursion', 'recursive call of %s' % inst['path'], at)
                raise Stop()
            g = Frame(fn['key'], inst)
            b = inst['body']
            viaf = (fn.get('path') or '').startswith(('core::ops::function::', 'core::ops::async_function::'))
            # a closure's body takes its arguments one by one; calls through Fn* pass them as a tuple
            if b['argc'] == len(args) and not (viaf and fn['how'] == 'body' and inst['path'].rsplit('::', 1)[-1].startswith('{closure')):
                xs = args
            else:
                last = self.res(st, args[-1])
                if last[0] != 'A':
                    raise Undecided('call of %s: arguments' % inst['path'])
                xs = args[:-1] + list(last[2])
                if b['argc'] != len(xs):
                    raise Undecided('call of %s: %d arguments' % (inst['path'], len(xs)))
            # a closure taken by reference where its body wants it by value, or the reverse
            for i, x in enumerate(xs):
                g.loc[i + 1] = x
            if inst['path'].endswith('}') or '{closure#' in inst['path']:
                want = self.r.T[b['locals'][1]]['k']
                have = self.res(st, xs[0])
                if want == 'ref' and have[0] not in ('R', 'S'):
                    o = self.new_obj(st, have, 'fresh')
                    g.loc[1] = ('R', ('O', o), ())
                elif want == 'closure' and have[0] == 'R':
                    g.loc[1] = self.load(st, have[1], have[2])
            g.dest = self.place(st, t['d'])
            g.ret = t['b']
            self.fns.add(inst['path'])
            if len(st.frames) > 60:
                raise Undecided('call depth')
            st.frames.append(g)
            return False
        if r is None:
            r = self.unknown_call(st, fn, names, args, dty, t)
        if t['b'] is None:
            raise Infeasible()
        root, path = self.place(st, t['d'])
        self.store(st, root, path, r)
        self.goto(st, t['b'])
        return False

    def unknown_call(self, st, fn, names, args, dty, t):
        """A function without a model: anything may happen to what it can reach mutably."""
        if any(f.konst for f in st.frames):
            # evaluated by the compiler: it has no effect, and a panic fails the build
            if t['b'] is not None:
                raise Undecided('the value of a constant: call of %s, which has no model' % names[0])
            return self.fresh(st, dty)
        if t['b'] is None:
            self.panic(st, 'call of %s, which does not return' % names[0], t.get('at'))
        for a, ty in zip(args, t['at_']):
            self.havoc_arg(st, a, ty, names[0])
        self.note(st, 'unmodelled call %s' % names[0])
        self.m.unknown(st, names, args, t)
        return self.fresh(st, dty)

    def havoc_arg(self, st, a, ty, name):
        tt = self.r.T[ty]
        if tt['k'] in ('ref', 'ptr') and tt['m']:
            root, path = self.pointer(st, a)
            self.store(st, root, path, self.fresh(st, tt['t']))
        elif tt['k'] == 'closure' or (tt['k'] == 'fndef'):
            raise Undecided('call of %s with a callback' % name)

    # ------------------------------------------------------------ counters
    def slots(self, st):
        """The integers in the live state whose type is known: (address, value, type)."""
        out, objs = [], set()

        def walk(addr, v, ty):
            v = self.res(st, v)
            t = self.r.T[ty]
            if v[0] == 'I':
                if t['k'] == 'int':
                    out.append((addr, v, ty))
            elif v[0] == 'A' and (t['k'] == 'tuple' or t['k'] == 'adt' and t['exp']):
                for i, x in enumerate(v[2]):
                    try:
                        ft = self.r.field_ty(ty, v[1], i)
                    except (LookupError, TypeError, ValueError, Undecided):
                        continue
                    if ft is not None:
                        walk(addr + ((v[1], i),), x, ft)
            elif v[0] == 'R' and t['k'] == 'ref' and not v[2] and v[1][0] == 'O' and v[1][1] not in objs and v[1][1] in st.heap:
                objs.add(v[1][1])
                walk(addr + ('*',), st.heap[v[1][1]], t['t'])
        for n, f in enumerate(st.frames):
            for l in sorted(f.loc):
                if l < len(f.body['locals']):
                    walk((n, l), f.loc[l], f.body['locals'][l])
        return out

    def counting(self, st, point, k):
        """Is there an integer that takes ever new values at this point, while all else is the same?"""
        sk = (point, unconst(k[0]), unconst(k[1]), k[2], k[3], len(k[4]))
        n = self.visits.setdefault(sk, [])
        n.append({a: v for a, v, _ in self.slots(st)})
        if len(n) >= COUNTS and len(n) % COUNTS == 0:
            for a in n[0]:
                if len({x.get(a) for x in n}) > COUNTS // 2:
                    self.wide.setdefault(point, set()).add(a)

    def widen(self, st, addrs):
        for a, v, ty in self.slots(st):
            if a in addrs:
                lo, hi = self.int_range(ty)
                if hi >= 1 << 62:
                    hi = 1 << 62            # no counter gets there by counting
                lo = max(lo, -(1 << 62))
                if num.entails(st.num, v[1:]):
                    lo = max(lo, 0)
                self.put(st, a, self.fresh_int(st, lo, hi))

    def put(self, st, addr, new):
        n, l, path = addr[0], addr[1], addr[2:]

        def go(v, path):
            v = self.res(st, v)
            if not path:
                return new
            if path[0] == '*':
                st.heap[v[1][1]] = go(st.heap[v[1][1]], path[1:])
                return v
            i = path[0][1]
            return ('A', v[1], v[2][:i] + (go(v[2][i], path[1:]),) + v[2][i + 1:])
        st.frames[n].loc[l] = go(st.frames[n].loc[l], path)

    # ------------------------------------------------------------ canonical form
    def canon(self, st):
        """Forget what is unreachable, rename, and return a hashable key.  Also compacts `st`."""
        self.m.checkpoint(st)
        self.models.checkpoint(self, st)
        ids = {}
        order = []
        heapq = []

        def ren(i):
            if i not in ids:
                ids[i] = len(ids) + 1
                order.append(i)
            return ids[i]

        def val(v):
            k = v[0]
            if k == 'S':
                w = self.res(st, v)
                if w is not v and w != v:
                    return val(w)
                return ('S', ren(v[1]), v[2])
            if k == 'I':
                return ('I', v[1], tuple(sorted((ren(s), c) for s, c in v[2])))
            if k == 'A':
                return ('A', v[1], tuple(val(x) for x in v[2]))
            if k == 'R':
                return ('R', rootv(v[1]), v[2])
            if k == 'O':
                return rootv(v)
            if k == 'P':
                return ('P', rootv(('O', v[1]))[1])
            if k == 'T':
                return ('T', val(v[1]))
            if k == 'D':
                return ('D', tuple(val(x) for x in v[1]), ren(v[2]) if v[2] else 0, tuple(val(x) for x in v[3]))
            if k == 'M':
                return ('M',) + tuple(val(x) for x in v[1:])
            return v

        def rootv(r):
            if r[0] == 'L':
                return r
            if r[1] not in ids:
                n = ren(r[1])
                heapq.append(r[1])
                return ('O', n)
            return ('O', ids[r[1]])

        fr = []
        for n, f in enumerate(st.frames):
            inner = st.frames[n + 1] if n + 1 < len(st.frames) else None
            if inner is None or not (inner.konst or f.dropq is not None):
                lv = liveness(f.body)
                want = lv[0] | (lv[1][f.bb] if inner is None else lv[2][f.bb])
                for l in [l for l in f.loc if l not in want]:
                    del f.loc[l]
            live = f.loc
            fr.append((f.key, f.bb, f.si, tuple((l, val(v)) for l, v in sorted(live.items()) if v[0] != 'U'),
                       None if f.dest is None else (rootv(f.dest[0]), f.dest[1]), f.ret, f.konst))
        mon = tuple((k, val(v)) for k, v in sorted(st.mon.items()))
        heap = []

        def flush():
            while heapq:
                o = heapq.pop(0)
                heap.append((ids[o], st.hkind.get(o), val(st.heap[o]) if o in st.heap else None))

        flush()
        # facts: kept when everything their key mentions is reachable
        kept = {}

        def key_ids(k, out):
            if isinstance(k, tuple):
                if len(k) >= 2 and k[0] == 'S' and isinstance(k[1], int):
                    w = self.res(st, k)
                    if w is not k and w[0] != 'S':
                        key_ids(w, out)
                    else:
                        out.append(w[1] if w[0] == 'S' else k[1])
                elif len(k) == 2 and k[0] == 'O':
                    out.append(k[1])
                elif k and k[0] == 'I' and len(k) == 3:
                    out.extend(s for s, _ in k[2])
                else:
                    for x in k:
                        key_ids(x, out)
            return out

        def kval(k):
            if isinstance(k, tuple) and k and k[0] in ('S', 'I', 'A', 'R', 'O', 'P', 'T', 'D') and len(k) > 1:
                return val(k)
            if isinstance(k, tuple):
                return tuple(kval(x) for x in k)
            return k

        # Where an edge came from ('from') and the first index ('zero') are kept last: they must not
        # keep alive what was learnt about indices that nothing else refers to any more.
        pend = {k: key_ids(k[1:], []) for k in st.facts}
        for late in (False, True):
            again = True
            while again:
                again = False
                ready = [k for k, i in pend.items()
                         if k not in kept and (k[0] in ('from', 'zero')) == late and all(x in ids for x in i)
                         and (k[0] != 'zero' or all(x in ids for x in key_ids((st.facts[k],), [])))]
                if ready:
                    lab = sorted(((repr(kval(k)), k) for k in ready), key=lambda x: x[0])
                    for _, k in lab:
                        kept[k] = (kval(k), val(st.facts[k]))
                    flush()
                    again = True
        facts = tuple(sorted(kept.values(), key=repr))
        keep = frozenset(ids)
        cs = num.project(st.num, keep)
        if cs is None:
            raise Infeasible()
        ncs = tuple(sorted((c, tuple(sorted((ids[s], k) for s, k in ts))) for c, ts in cs))
        # compact the live state
        st.num = cs
        st.facts = {k: v for k, v in st.facts.items() if k in kept}
        for o in list(st.heap):
            if o not in ids:
                del st.heap[o]
                st.hkind.pop(o, None)
        return (tuple(fr), tuple(sorted(heap, key=repr)), mon, facts, ncs)
