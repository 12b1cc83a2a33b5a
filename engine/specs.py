"""What each root has to do: monitors that run along with the analysis of a root.

Rules (the first part of a violation key) are grouped by topic; check.py maps them to properties.
"""
import num
from core import Undecided, Infeasible, Stop, UNIT
from models import GSC, LESS, GREATER

TRUE, FALSE = ('B', True), ('B', False)


def K(x):
    return ('K', x)


class Monitor:
    """Base: nothing is asked of the root but that it neither panics nor defeats the analysis."""
    shared_classes = False

    def __init__(self):
        self.sides = set()

    def init(self, st, args):
        pass

    def call(self, st, fn, names, args, dty, t):
        return None

    def reenter(self, st, key):
        return False

    def done(self, st, v):
        pass

    def event(self, st, name, args, result, t):
        h = getattr(self, 'on_' + name, None)
        if h is not None:
            h(st, args, result, t)

    def checkpoint(self, st):
        pass

    def dropped(self, st, t):
        pass

    def unknown(self, st, names, args, t):
        raise Undecided('call of %s, which has no body here and no model' % names[0])

    def element(self, st, ety):
        return self.an.fresh(st, ety)

    def generic_deref(self, ty):
        return False

    def handle_pointee(self, ty):
        return None

    # ------------------------------------------------------------ names for reports
    def nm(self, st, v):
        v = self.an.res(st, v)
        if v[0] == 'S':
            for k in ('a', 'b', 'oa', 'ob'):
                if st.mon.get(k) == v:
                    return {'oa': 'A', 'ob': 'B'}.get(k, k)
            for f, r in st.facts.items():
                if f[0] == 'zero' and r == v:
                    return 'zero'
                if f[0] == 'id' and r == v:
                    return 'id(%s)' % self.nm(st, f[1])
                if f[0] == 'ema' and r == v:
                    return 'cmp(%s,%s)' % (self.nm(st, f[1]), self.nm(st, f[2]))
                if f[0] == 'inc' and r[1] == 1 and r[2][0] == v:
                    return self.nm(st, f[1]) + '+1'
                if f[0] == 'from_ord' and r == v:
                    return 'from_ord(%s)' % ('Less', 'Equal', 'Greater')[f[1]]
            fr = st.facts.get(('from', v))
            if fr:
                return 'edge(%s,%s)' % (self.nm(st, fr[1]), self.nm(st, fr[2]))
            return 's%d' % v[1]
        return self.show(st, v)

    def show(self, st, v):
        v = self.an.res(st, v)
        k = v[0]
        if k == 'S':
            return self.nm(st, v)
        if k == 'I':
            return '%d%s' % (v[1], ''.join('%+d*x%d' % (c, s) for s, c in v[2]))
        if k == 'B':
            return str(v[1])
        if k == 'A':
            return '#%s(%s)' % (v[1], ', '.join(self.show(st, x) for x in v[2]))
        if k == 'K':
            return str(v[1])
        return k

    # ------------------------------------------------------------ helpers
    def iseq(self, st, c):
        """Is the comparison result known to say "equivalent"?  True / False / None."""
        r = st.facts.get(('iseq', self.an.res(st, c)))
        return None if r is None else r[1]

    def conv(self, st, got, e):
        """Is `got` the error `e`, converted at most once?"""
        an = self.an
        got, e = an.deep(st, got), an.deep(st, e)
        if got == e:
            return True
        return any(f[0] == 'into' and f[1] == e and an.deep(st, r) == got for f, r in st.facts.items())

    def zero(self, st):
        for f, r in st.facts.items():
            if f[0] == 'zero':
                return r
        return None

    def edge(self, st, n, i):
        """True / False when it is known that there is an edge, else None; and the edge."""
        r = st.facts.get(('edge', n, i))
        if r is None:
            return None, None
        return r[1] == 1, (self.an.res(st, r[2][0]) if r[1] == 1 else None)

    def typed(self, st, v, ty, stops, out):
        """Leaves of `v` whose type is in `stops`, in order."""
        an = self.an
        s = an.r.ts(ty)
        if s in stops:
            out.append((s, an.deep(st, v)))
            return out
        t = an.r.T[ty]
        v = an.res(st, v)
        if t['k'] == 'adt' and v[0] == 'A' and t['exp']:
            for i, x in enumerate(v[2]):
                self.typed(st, x, an.r.field_ty(ty, v[1], i), stops, out)
        elif t['k'] in ('tuple', 'array', 'closure') and v[0] == 'A':
            for i, x in enumerate(v[2]):
                self.typed(st, x, an.r.field_ty(ty, 0, i), stops, out)
        elif t['k'] == 'adt' and v[0] == 'S' and t['exp'] and t['kind'] == 'struct':
            raise Undecided('unexpanded %s' % s)
        return out

    def walk(self, st, v, f, seen=None):
        """Apply `f` to every part of a value, through local smart pointers."""
        an = self.an
        seen = seen if seen is not None else set()
        v = an.res(st, v)
        f(v)
        if v[0] == 'A':
            for x in v[2]:
                self.walk(st, x, f, seen)
        elif v[0] == 'D':
            for x in v[1] + v[3]:
                self.walk(st, x, f, seen)
        elif v[0] == 'P' and v[1] not in seen and v[1] in st.heap:
            seen.add(v[1])
            self.walk(st, st.heap[v[1]], f, seen)

    def seqs(self, st, v):
        out = []
        self.walk(st, v, lambda x: out.append(x) if x[0] == 'D' else None)
        return out


# ==================================================================== one pair of nodes
class StepMon(Monitor):
    """mode: main (abstract modes), loop (Equiv::equiv), callstack, drain."""

    def __init__(self, mode):
        self.mode = mode

    def init(self, st, args):
        st.mon['a'], st.mon['b'] = self.an.deep(st, args[1]), self.an.deep(st, args[2])

    def reenter(self, st, key):
        return self.mode == 'callstack' and sum(1 for g in st.frames if g.key == key) < 2

    def pair(self, st):
        return st.mon['a'], st.mon['b']

    def ids(self, st):
        """Are the two nodes the same?  True / False / None."""
        a, b = self.pair(st)
        if a == b:
            return True
        x, y = st.facts.get(('id', a)), st.facts.get(('id', b))
        if x is None or y is None:
            return None
        x, y = sorted((self.an.res(st, x), self.an.res(st, y)))
        if x == y:
            return True
        r = st.facts.get(('eq', x, y))
        return None if r is None else r[1]

    def first(self, st):
        """What is known about the first edges: (S|N|None, S|N|None)."""
        fa, fb = st.mon.get('fa'), st.mon.get('fb')
        return fa and fa[1], fb and fb[1]

    # ------------------------------------------------------------ what happens
    def on_do_traverse(self, st, args, result, t):
        m = st.mon
        if self.mode == 'callstack' and 'oa' in m:
            self.next_pair(st)
        if not self.an.require(st, 'traverse', 'tr' not in m,
                               'the descend mode is asked more than once about the same pair', t.get('at')):
            raise Stop()
        m['tr'] = result

    def on_do_edges(self, st, args, result, t):
        an, m = self.an, st.mon
        a, b = self.pair(st)
        at = t.get('at')
        an.require(st, 'traverse', m.get('tr') == ('A', 0, (TRUE,)),
                   'do_edges is asked about a pair that the mode did not let traverse', at)
        an.require(st, 'args', tuple(args[1:3]) == (a, b),
                   'do_edges is asked about (%s, %s) instead of (a, b)' % (self.nm(st, args[1]), self.nm(st, args[2])), at)
        an.require(st, 'descend', 'de' not in m, 'do_edges is asked twice about a pair', at)
        an.require(st, 'branch', self.ids(st) is False, 'do_edges is asked about nodes that may be the same one', at)
        c = st.facts.get(('ema', a, b))
        an.require(st, 'branch', c is not None and self.iseq(st, c) is True,
                   'do_edges is asked before the nodes themselves compared as equivalent', at)
        an.require(st, 'branch', self.first(st) == (True, True),
                   'do_edges is asked about a pair not known to have edges on both sides', at)
        m['de'] = result

    def on_recur(self, st, args, result, t):
        self.enter_recur(st, t)
        st.mon['re'] = result

    def enter_recur(self, st, t):
        an, m = self.an, st.mon
        at = t.get('at')
        an.require(st, 'descend', m.get('de') == ('A', 0, (TRUE,)),
                   'the edges are descended although do_edges did not allow it', at)
        an.require(st, 'descend', 're' not in m, 'the edges of a pair are descended twice', at)

    def call(self, st, fn, names, args, dty, t):
        if self.mode in ('callstack', 'drain') and fn['path'] == GSC + 'generic::recursion::RecurMode::recur':
            m = st.mon
            if 'oa' not in m:
                self.enter_recur(st, t)
                m['oa'], m['ob'] = m['a'], m['b']
                m['i'] = self.zero(st) or K('?')
                m['fresh'] = K(1)
                for k in ('tr', 'de', 're', 'fa', 'fb'):
                    m.pop(k, None)
                return None
            if self.mode == 'callstack':
                return self.an.models.m_recur(self.an, st, fn, args, dty, t)
            self.an.report(st, 'descend', 'the edges of a pair are descended twice', t.get('at'))
            raise Stop()
        return None

    # ------------------------------------------------------------ what has to come out
    def outcome(self, st):
        """('ok', c) | ('equiv',) | ('err', e) | ('bad', rule, message)."""
        m, an = st.mon, self.an
        a, b = self.pair(st)
        tr = m.get('tr')
        if tr is None:
            return 'bad', 'traverse', 'a pair is done with, although the descend mode was not asked whether to traverse it'
        if tr[1] == 1:
            return 'err', tr[2][0]
        if tr[2][0] == FALSE:
            return ('equiv',)
        ids = self.ids(st)
        if ids is None:
            return 'bad', 'identity', 'a result is decided without knowing whether both are the same node'
        if ids:
            return ('equiv',)
        c = st.facts.get(('ema', a, b))
        if c is None:
            return 'bad', 'node', 'a result is decided without comparing a to b modulo edges'
        if self.iseq(st, c) is None:
            return 'bad', 'node', 'a result is decided without asking whether the nodes are equivalent modulo edges'
        if self.iseq(st, c) is False:
            return 'ok', c
        ea, eb = self.first(st)
        if ea is None or eb is None:
            return 'bad', 'edges', 'a result is decided without looking at the first edges of both nodes'
        if not ea and not eb:
            return ('equiv',)
        if ea != eb:
            return self.mismatch(st, ea)
        de = m.get('de')
        if de is None:
            return 'bad', 'descend', 'a pair with edges is done with, although do_edges was not asked'
        if de[1] == 1:
            return 'err', de[2][0]
        if de[2][0] == FALSE:
            return ('equiv',)
        re = m.get('re')
        if re is None:
            return 'bad', 'descend', 'a pair is done with, although its edges were not descended as do_edges allowed'
        return ('err', re[2][0]) if re[1] == 1 else ('ok', re[2][0])

    def mismatch(self, st, a_has):
        o = GREATER if a_has else LESS
        c = st.facts.get(('from_ord', o))
        if c is None:
            return 'bad', 'mismatch', 'different amounts of edges: no result is made from Ordering::%s' % ('Less', '', 'Greater')[o]
        return 'ok', c, 'mismatch'

    def known_equiv(self, st, out):
        return out[0] == 'equiv' or (out[0] == 'ok' and self.iseq(st, out[1]) is True)

    def matches(self, st, v, out, t=None):
        """Check that the value returned is the outcome."""
        an = self.an
        v = an.deep(st, v)
        rule = {'err': 'error', 'equiv': 'result'}.get(out[0], out[2] if len(out) > 2 else 'result')
        if out[0] == 'bad':
            an.require(st, out[1], False, out[2])
            return
        if v[0] != 'A':
            raise Undecided('result %r' % (v,))
        if out[0] == 'err':
            an.require(st, 'error', v[1] == 1 and self.conv(st, v[2][0], out[1]),
                       'an error of a mode is not what is returned, converted once')
            return
        if not an.require(st, 'error', v[1] == 0, 'an error is returned although none occurred'):
            return
        c = an.res(st, v[2][0])
        if self.known_equiv(st, out):
            an.require(st, rule, self.iseq(st, c) is True, 'a result other than "equivalent" is returned for %s'
                       % self.why(st, out))
        elif out[0] == 'ok':
            an.require(st, rule, c == an.res(st, out[1]),
                       'returns %s where %s was decided' % (self.nm(st, c), self.nm(st, out[1])))

    def why(self, st, out):
        tr = st.mon.get('tr')
        if tr == ('A', 0, (FALSE,)):
            return 'a pair that is not to be traversed'
        if self.ids(st):
            return 'a node and itself'
        if st.mon.get('de') == ('A', 0, (FALSE,)):
            return 'a pair whose edges are not to be descended'
        if self.first(st) == (False, False):
            return 'nodes without edges'
        return 'equivalent descendents'

    # ------------------------------------------------------------ edges in order
    def advance(self, st):
        """Go to the next index after the current one was dealt with; False at the end."""
        m = st.mon
        if m.get('fresh'):
            m.pop('fresh')
            return m['i'] != K('end')
        if m['i'] == K('end'):
            return False
        n = st.facts.get(('inc', m['i']))
        if n is None:
            m['i'] = K('?')
        elif n[1] == 0:
            m['i'] = K('end')
            return False
        else:
            m['i'] = self.an.res(st, n[2][0])
        return True

    def next_pair(self, st):
        """callstack: a new pair is begun; it has to be the next edges of the outer pair."""
        an, m = self.an, st.mon
        if not m.get('fresh'):
            out = self.outcome(st)
            if out[0] == 'bad':
                an.require(st, out[1], False, out[2])
                raise Stop()
            an.require(st, 'first', self.known_equiv(st, out), 'goes on with further edges after a difference or an error')
        if not self.advance(st):
            an.report(st, 'pairs', 'compares edges beyond the last one')
            raise Stop()
        ea, x = self.edge(st, m['oa'], m['i'])
        eb, y = self.edge(st, m['ob'], m['i'])
        if not an.require(st, 'pairs', ea is True and eb is True,
                          'compares a pair that is not the pair of edges at the next index'):
            raise Stop()
        # which nodes are really compared shows in the calls made for them
        m['a'], m['b'] = x, y
        for k in ('tr', 'de', 're', 'fa', 'fb'):
            m.pop(k, None)

    def callstack_outcome(self, st):
        m = st.mon
        if not m.get('fresh'):
            out = self.outcome(st)
            if out[0] in ('bad', 'err') or not self.known_equiv(st, out):
                return out
        if not self.advance(st):
            return ('equiv',)
        ea, eb = self.edge(st, m['oa'], m['i'])[0], self.edge(st, m['ob'], m['i'])[0]
        if ea is None or eb is None:
            return 'bad', 'pairs', 'stops before having looked at the next edges of both nodes'
        if ea and eb:
            return 'bad', 'pairs', 'stops although there are further edges on both sides'
        if ea != eb:
            return self.mismatch(st, ea)
        return ('equiv',)

    # ------------------------------------------------------------ drain
    def on_yielded(self, st, args, result, t):
        an, m = self.an, st.mon
        x = args[0]
        if m.get('miss'):
            an.require(st, 'pairs', x[1] == 1, 'edges are given after their amounts were found to differ')
            return
        if not self.advance(st):
            an.report(st, 'pairs', 'gives edges beyond the last one')
            raise Stop()
        ea, p = self.edge(st, m['oa'], m['i'])
        eb, q = self.edge(st, m['ob'], m['i'])
        if ea is None or eb is None:
            an.report(st, 'pairs', 'what is given are not the edges at the next index')
            raise Stop()
        if not ea and not eb:
            an.report(st, 'pairs', 'gives edges beyond the last one')
            raise Stop()
        if ea and eb:
            ok = x[0] == 'A' and x[1] == 0 and an.deep(st, x[2][0]) == ('A', 0, (p, q))
            an.require(st, 'pairs', ok, 'what is given are not the edges of a and of b, in this order, at the next index')
        else:
            out = self.mismatch(st, ea)
            ok = out[0] == 'ok' and x[0] == 'A' and x[1] == 1 and an.res(st, x[2][0]) == an.res(st, out[1])
            an.require(st, 'mismatch', ok, 'different amounts of edges do not give from_ord(%s)' % ('Greater' if ea else 'Less'))
            m['miss'] = K(1)

    def on_ended(self, st, args, result, t):
        an, m = self.an, st.mon
        if m.get('miss') or not self.advance(st):
            return
        ea, eb = self.edge(st, m['oa'], m['i'])[0], self.edge(st, m['ob'], m['i'])[0]
        an.require(st, 'pairs', ea is False and eb is False, 'ends before the last edges were given')

    def on_get_edge(self, st, args, result, t):
        m = st.mon
        if args[1] == self.zero(st):
            # kept here because nothing may refer to the first index any more at the end
            for k, n in (('fa', m['a']), ('fb', m['b'])):
                if args[0] == n:
                    m[k] = K(result[1] == 1)
        if m.get('miss'):
            return
        at = t and t.get('at')
        n, first = st.facts.get(('cnt',) + tuple(args))[1], args[1] == self.zero(st)
        if 'oa' in m and args[0] in (m['oa'], m['ob']):
            # edges of the pair that is descended: the first ones were looked at beforehand
            self.an.require(st, 'count', n <= (2 if first else 1), 'an edge of a pair that is descended is requested again', at)
            i = m['i']
            if not m.get('fresh'):
                i = st.facts.get(('inc', i))
                i = self.an.res(st, i[2][0]) if i is not None and i[1] == 1 else None
            if not self.an.require(st, 'pairs', args[1] == i, 'goes on to further edges before the last ones were dealt with', at):
                raise Stop()
            return
        a, b = self.pair(st)
        if not self.an.require(st, 'count', args[0] in (a, b), 'an edge is requested of a node that it is not the turn of', at):
            return
        c = st.facts.get(('ema', a, b))
        self.an.require(st, 'count', m.get('tr') == ('A', 0, (TRUE,)) and self.ids(st) is False and c is not None and self.iseq(st, c) is True,
                        'an edge is requested of nodes that are not known to be traversed, different, and equivalent by themselves', at)
        self.an.require(st, 'count', first, 'an edge other than the first is requested though the edges are not descended', at)
        self.an.require(st, 'count', n <= 1, 'a first edge is requested again before the edges are descended', at)

    # ------------------------------------------------------------ loop
    def on_next(self, st, args, result, t):
        an, m = self.an, st.mon
        if self.mode != 'loop':
            an.report(st, 'loop', 'the recursion mode is asked for what is next, not by Equiv::equiv', t.get('at'))
            raise Stop()
        out = self.outcome(st)
        if out[0] == 'bad':
            an.require(st, out[1], False, out[2])
            raise Stop()
        an.require(st, 'first', self.known_equiv(st, out), 'goes on with further pairs after a difference or an error', t.get('at'))
        if 'end' in m:
            an.report(st, 'loop', 'asks for further pairs after the recursion mode had ended', t.get('at'))
            raise Stop()
        if result[1] == 0:
            m['end'] = K('none')
        else:
            x = an.deep(st, result[2][0])
            if x[1] == 1:
                m['end'] = ('M', x[2][0])
            else:
                m['a'], m['b'] = an.res(st, x[2][0][2][0]), an.res(st, x[2][0][2][1])
                for k in ('tr', 'de', 're', 'fa', 'fb'):
                    m.pop(k, None)

    def done(self, st, v):
        an, m = self.an, st.mon
        an.oblige('paths')
        if self.mode == 'loop' and 'end' in m:
            if m['end'] == K('none'):
                self.matches(st, v, ('equiv',))
            else:
                v = an.deep(st, v)
                an.require(st, 'loop', v[1] == 0 and v[2][0] == m['end'][1],
                           'a difference given by the recursion mode is not what is returned')
            return
        if self.mode in ('callstack', 'drain') and 'oa' in m:
            if self.mode == 'callstack':
                self.matches(st, v, self.callstack_outcome(st))
            return
        out = self.outcome(st)
        if self.mode == 'loop' and out[0] != 'bad':
            if not an.require(st, 'loop', not self.known_equiv(st, out),
                              'returns "equivalent" without asking the recursion mode for further pairs'):
                return
            if out[0] == 'ok':
                an.require(st, 'loop', self.iseq(st, out[1]) is False, 'returns without knowing whether the pair is equivalent')
        self.matches(st, v, out)


# ==================================================================== collections of edges
class NextMon(Monitor):
    """RecurMode::next of a queue / stack of edges iterators."""

    def init(self, st, args):
        an = self.an
        ret = an.r.inst[an.r.key]['body']['locals'][0]
        res = an.r.field_ty(ret, 1, 0)
        arr = an.r.field_ty(res, 0, 0)
        self.nty = an.r.ts(an.r.T[arr]['t'])
        self.ity = '<%s as graph_safe_compare::Node>::Index' % self.nty
        self.oty = 'std::option::Option<%s>' % self.ity
        st.mon['obj'] = ('O', an.pointer(st, args[0])[0][1])
        st.mon['els'] = ('M',)

    def element(self, st, ety):
        self.ety = ety
        ns, os = self.parts(ety, set())
        if (ns, os) != (2, 1):
            raise Undecided('what is kept for a pair of nodes has room for %d nodes and %d positions' % (ns, os))
        return self.an.fresh(st, ety)

    def parts(self, ty, seen):
        """How many nodes and positions is there room for in a value of a type?"""
        r = self.an.r
        s, t = r.ts(ty), r.T[ty]
        if s == self.nty:
            return 1, 0
        if s == self.oty:
            return 0, 1
        if ty in seen:
            return 0, 0
        if t['k'] == 'array':
            n, o = self.parts(t['t'], seen | {ty})
            return n * t['n'], o * t['n']
        if t['k'] in ('tuple', 'closure'):
            fs = t['f']
        elif t['k'] == 'adt' and t['exp']:
            fs = [f['t'] for v in t['v'] for f in v['f']]
        else:
            fs = []
        ps = [self.parts(x, seen | {ty}) for x in fs]
        return sum(p[0] for p in ps), sum(p[1] for p in ps)

    def state(self, st, e):
        """(a, b, index or None) of an element."""
        an = self.an
        lv = self.typed(st, e, self.ety, (self.nty, self.oty), [])
        ns = [v for s, v in lv if s == self.nty]
        os = [v for s, v in lv if s == self.oty]
        if len(ns) != 2 or len(os) != 1:
            raise Undecided('the parts of what is kept for a pair of nodes: %d nodes, %d positions' % (len(ns), len(os)))
        return ns[0], ns[1], os[0]

    def on_uncons(self, st, args, result, t):
        rest, e, r2, front = args
        a, b, o = self.state(st, e)
        if st.mon.get('side') not in (None, front):
            self.an.report(st, 'order', 'takes from both ends')
        st.mon['side'] = front
        st.mon['els'] = st.mon['els'] + (('M', a, b, o, e),)

    def on_lost(self, st, args, result, t):
        self.an.report(st, 'pairs', 'removes something that may be pending', t.get('at'))

    def on_get_edge(self, st, args, result, t):
        an, n, at = self.an, st.facts.get(('cnt',) + tuple(args))[1], t and t.get('at')
        for el in reversed(st.mon['els'][1:]):
            if args[0] not in (el[1], el[2]):
                continue
            o = an.deep(st, el[3])
            i = an.res(st, o[2][0]) if o[0] == 'A' and o[1] == 1 else None
            if i is not None and args[1] == i:
                ea, eb = self.edge(st, el[1], i)[0], self.edge(st, el[2], i)[0]
                miss = ea is not None and eb is not None and ea != eb
                an.require(st, 'count', n <= (2 if miss else 1), 'the edge to be given is requested again', at)
            elif i is not None and ('inc', i) in st.facts and st.facts[('inc', i)][1] == 1 and \
                    an.res(st, st.facts[('inc', i)][2][0]) == args[1]:
                an.require(st, 'count', n <= 1, 'the edge after the one to be given is requested more than once beforehand', at)
            else:
                an.report(st, 'count', 'an edge other than the one to be given and the one after it is requested', at)
            return
        an.report(st, 'count', 'an edge is requested of a node that is not pending', at)

    def kind(self, st, el):
        """What the element has to give, from its state on entry: end / item / miss / unknown."""
        an = self.an
        a, b = el[1], el[2]
        o = an.deep(st, el[3])
        if o[0] != 'A':
            return 'unknown', None
        if o[1] == 0:
            return 'end', None
        i = an.res(st, o[2][0])
        (ea, x), (eb, y) = self.edge(st, a, i), self.edge(st, b, i)
        if ea is None or eb is None:
            return 'unknown', None
        if ea and eb:
            return 'item', (x, y, i)
        if not ea and not eb:
            return 'end', None
        return 'miss', ea

    def present(self, st):
        """Elements, initially known or not, that are now in the collection, and the rest."""
        o = st.mon['obj'][1]
        ds = self.seqs(st, st.heap[o])
        if len(ds) != 1:
            if not ds and not st.mon['els'][1:]:
                return None
            raise Undecided('%d collections' % len(ds))
        return ds[0]

    def checkpoint(self, st):
        # elements that were used up and removed need not be remembered
        els = st.mon.get('els')
        if els is None or len(els) < 2:
            return
        d = self.present(st)
        here = [self.state(st, x)[:2] for x in d[1] + d[3]]
        keep = []
        for el in els[1:]:
            if (el[1], el[2]) not in here and self.kind(st, el)[0] == 'end':
                self.an.oblige('removed')
                continue
            keep.append(el)
        st.mon['els'] = ('M',) + tuple(keep)

    def done(self, st, v):
        an = self.an
        an.oblige('paths')
        if 'side' in st.mon:
            self.sides.add(st.mon['side'][1])
        v = an.deep(st, v)
        d = self.present(st)
        els = list(st.mon['els'][1:])
        here = {self.state(st, x)[:2]: x for x in (d[1] + d[3] if d else ())}
        for el in els[:-1]:
            an.require(st, 'pairs', self.kind(st, el)[0] == 'end', 'goes on to other pairs of nodes before all edges of one were given')
            an.require(st, 'lazy', (el[1], el[2]) not in here, 'a pair of nodes whose edges were all given is kept')
        if len(here) > 1:
            an.report(st, 'pairs', 'more than one pair of nodes was changed')
        if v[1] == 0:
            for el in els[-1:]:
                an.require(st, 'pairs', self.kind(st, el)[0] == 'end', 'ends although there are further edges')
            n = d and st.facts.get(('len', ('S', d[2], -2)))
            ok = d is not None and (d[2] == 0 or n is not None and num.entails(st.num, num.scale(n[1:], -1)))
            an.require(st, 'pairs', ok, 'ends although further pairs of nodes may be pending')
            an.require(st, 'lazy', not here, 'a pair of nodes whose edges were all given is kept')
            return
        if not els:
            an.report(st, 'pairs', 'gives something that does not come from a pending pair of nodes')
            return
        el = els[-1]
        k, x = self.kind(st, el)
        r = v[2][0]
        if k == 'miss':
            out = st.facts.get(('from_ord', GREATER if x else LESS))
            an.require(st, 'mismatch', r[1] == 1 and out is not None and an.res(st, r[2][0]) == out,
                       'different amounts of edges do not give from_ord(%s)' % ('Greater' if x else 'Less'))
            return
        if not an.require(st, 'pairs', k == 'item', 'gives something although the pair of nodes has no further edges'):
            return
        an.require(st, 'pairs', r[1] == 0 and r[2][0] == ('A', 0, (x[0], x[1])),
                   'what is given are not the edges of a and of b, in this order, at the next index')
        # what is left of this pair
        n = st.facts.get(('inc', x[2]))
        e = here.get((el[1], el[2]))
        if n is None:
            an.report(st, 'pairs', 'the position is not advanced')
            return
        if n[1] == 0:
            an.require(st, 'lazy', e is None, 'a pair of nodes whose edges were all given is kept')
            return
        i2 = an.res(st, n[2][0])
        ea, eb = self.edge(st, el[1], i2)[0], self.edge(st, el[2], i2)[0]
        if ea is None and eb is None or (ea is None and eb is False) or (eb is None and ea is False):
            an.require(st, 'lazy', False, 'gives an edge without first finding out whether it was the last one')
            return
        if ea is False and eb is False:
            an.require(st, 'lazy', e is None, 'a pair of nodes whose edges were all given is kept')
            return
        if not an.require(st, 'pairs', e is not None, 'a pair of nodes is removed although it has further edges'):
            return
        o = an.deep(st, self.state(st, e)[2])
        an.require(st, 'pairs', o[0] == 'A' and o[1] == 1 and an.res(st, o[2][0]) == i2, 'the position is not advanced to the next index')
        pos = d[1] if st.mon['side'] == TRUE else d[3]
        an.require(st, 'order', any(y is e or y == e for y in pos), 'a pair of nodes is put back elsewhere')


class PushMon(Monitor):
    """RecurMode::recur of a queue / stack: keeps the edges iterator, and says "equivalent" for now."""

    def init(self, st, args):
        an = self.an
        st.mon['obj'] = ('O', an.pointer(st, args[0])[0][1])
        st.mon['x'] = ('M', an.deep(st, args[1]))
        st.mon['pre'] = ('M', an.deep(st, st.heap[st.mon['obj'][1]]))
        st.mon['n'] = K(0)

    def on_push(self, st, args, result, t):
        an, m = self.an, st.mon
        m['n'] = K(m['n'][1] + 1)
        m['side'] = args[1]
        an.require(st, 'pairs', an.deep(st, args[0]) == an.deep(st, m['x'][1]), 'what is kept is not the edges that were given', t.get('at'))

    def on_pop(self, st, args, result, t):
        self.an.report(st, 'pairs', 'removes something that is pending', t.get('at'))

    def on_clear(self, st, args, result, t):
        self.an.report(st, 'pairs', 'removes what is pending', t.get('at'))

    on_lost = on_clear

    def done(self, st, v):
        an, m = self.an, st.mon
        an.oblige('paths')
        ds = self.seqs(st, st.heap[m['obj'][1]])
        if 'side' in m:
            ends = {k for d in ds for k, es in ((True, d[1]), (False, d[3])) if es}
            self.sides.add(ends.pop() if len(ends) == 1 else m['side'][1])
        an.require(st, 'pairs', m['n'] == K(1), 'the edges given are kept %d times instead of once' % m['n'][1])
        v = an.deep(st, v)
        an.require(st, 'result', v[1] == 0 and self.iseq(st, v[2][0]) is True, 'does not say "equivalent" for now')
        ds = self.seqs(st, st.heap[m['obj'][1]])
        if m['n'] == K(1):
            ok = len(ds) == 1 and len(ds[0][1]) + len(ds[0][3]) == 1 and ds[0][2] != 0
            an.require(st, 'pairs', ok, 'what was pending is not left as it was')


class EmptyMon(Monitor):
    """What comes out has empty collections (default, from, reset)."""

    def done(self, st, v):
        an = self.an
        an.oblige('paths')
        ds = self.seqs(st, v)
        an.require(st, 'clean', len(ds) >= 1 and all(d[1:] == ((), 0, ()) for d in ds), 'edges that were pending remain')


class NoneMon(Monitor):
    def done(self, st, v):
        self.an.require(st, 'pairs', self.an.deep(st, v) == ('A', 0, ()), 'the call-stack mode gives pairs of its own')


class PlainMon(Monitor):
    def done(self, st, v):
        self.an.oblige('paths')


# ==================================================================== modes
class AlwaysMon(Monitor):
    """do_edges / do_traverse that always say yes, and change nothing."""

    def init(self, st, args):
        an = self.an
        root = an.pointer(st, args[0])[0]
        st.mon['obj'] = ('O', root[1])
        st.mon['pre'] = ('M', an.deep(st, st.heap[root[1]]))

    def done(self, st, v):
        an = self.an
        v = an.deep(st, v)
        an.require(st, 'yes', v == ('A', 0, (TRUE,)), 'does not answer Ok(true)')
        an.require(st, 'yes', an.deep(st, st.heap[st.mon['obj'][1]]) == st.mon['pre'][1], 'changes the state of the mode')


class LimitMon(AlwaysMon):
    """Limited::do_traverse: counts down, and fails at zero."""

    def done(self, st, v):
        an = self.an
        an.oblige('paths')
        v = an.deep(st, v)
        post = an.deep(st, st.heap[st.mon['obj'][1]])
        pre, post = an.intv(st, st.mon['pre'][1]), an.intv(st, post)
        if v[1] == 0:
            an.require(st, 'limit', v[2][0] == TRUE, 'a pair within the limit is not traversed')
            an.require(st, 'limit', num.entails(st.num, num.shift(pre, -1)), 'lets traverse although the limit is used up')
            d = num.shift(num.sub(pre, post), -1)
            an.require(st, 'limit', num.entails(st.num, d) and num.entails(st.num, num.scale(d, -1)),
                       'the limit is not reduced by exactly one')
        else:
            an.require(st, 'limit', num.entails(st.num, num.scale(pre, -1)), 'the limit is reported as reached although it is not')


class StateOfMode:
    """What the state of the interleave mode consists of besides its counter, its table and its generator."""

    def layout(self, ty):
        """The path and type of the counter, and of all else of a known type."""
        an, out = self.an, []

        def walk(path, ty):
            t = an.r.T[ty]
            if t['k'] in ('int', 'bool'):
                out.append((path, ty))
            elif t['k'] == 'adt' and t['exp'] and t['kind'] == 'struct' and not t['p'].endswith('PhantomData'):
                for i, f in enumerate(t['v'][0]['f']):
                    walk(path + (i,), f['t'])
            elif t['k'] == 'adt' and t['exp'] and t['kind'] == 'enum':
                out.append((path, ty))
            elif t['k'] == 'tuple':
                for i, x in enumerate(t['f']):
                    walk(path + (i,), x)
        walk((), ty)
        ints = [x for x in out if an.r.T[x[1]]['k'] == 'int']
        if len(ints) != 1:
            ints = [x for x in ints if an.r.T[x[1]]['s'] == 'i32']
        if len(ints) != 1:
            raise Undecided('%d counters in the state of the mode' % len(ints))
        return ints[0], [x for x in out if x != ints[0]]

    def const(self, st, name):
        for f, r in st.facts.items():
            if f[0] == 'const' and f[1].endswith('interleave::Params::' + name):
                return r[1:]
        return None

    def abstract(self, st, v, ty):
        """A value of the state, as what may be said of it at the next call."""
        an = self.an
        v = an.deep(st, v)
        if v[0] == 'B':
            return v
        if v[0] == 'I':
            k, ss = {'FAST_LIMIT_MAX': 0, 'SLOW_LIMIT': 0}, dict(v[2])
            for name in k:
                c = self.const(st, name)
                if c is not None and c[0] == 0 and len(c[1]) == 1 and c[1][0][1] == 1:
                    k[name] = ss.pop(c[1][0][0], 0)
            if not ss:
                return ('l', v[1], k['FAST_LIMIT_MAX'], k['SLOW_LIMIT'])
            return ('s', tuple(n for n, f in self.PREDS if (l := f(self, st, v[1:])) is not None and num.entails(st.num, l)))
        t = an.r.T[ty]
        if v[0] == 'A' and t['k'] in ('adt', 'tuple'):
            try:
                return ('A', v[1], tuple(self.abstract(st, x, an.r.field_ty(ty, v[1], i)) for i, x in enumerate(v[2])))
            except (LookupError, Undecided):
                pass
        return ('x',)

    def _fast(self, st, v):
        c = self.const(st, 'FAST_LIMIT_MAX')
        return num.sub(c, v) if c is not None else None

    def _slow(self, st, v):
        c = self.const(st, 'SLOW_LIMIT')
        return num.sub(c, v) if c is not None else None

    def _nslow(self, st, v):
        c = self.const(st, 'SLOW_LIMIT')
        return num.add(c, v) if c is not None else None

    PREDS = (('>=0', lambda m, st, v: v), ('>=1', lambda m, st, v: num.shift(v, -1)), ('<0', lambda m, st, v: num.shift(num.scale(v, -1), -1)),
             ('<=fast', _fast), ('<=slow', _slow), ('>=-slow', _nslow))

    def concrete(self, st, e, ty):
        an = self.an
        if e[0] == 'B':
            return e
        if e[0] == 'l':
            v = num.const(e[1])
            for name, k in (('FAST_LIMIT_MAX', e[2]), ('SLOW_LIMIT', e[3])):
                if k:
                    v = num.add(v, self.const(st, name), k)
            return ('I',) + v
        if e[0] == 's':
            lo, hi = an.int_range(ty)
            # no counter gets there by counting
            v = an.fresh_int(st, max(lo, -(1 << 62)), min(hi, 1 << 62))
            for n, f in self.PREDS:
                if n in e[1]:
                    an.assume(st, f(self, st, v[1:]))
            return v
        if e[0] == 'A':
            return ('A', e[1], tuple(self.concrete(st, x, an.r.field_ty(ty, e[1], i)) for i, x in enumerate(e[2])))
        return an.fresh(st, ty)


class InitialState(StateOfMode, Monitor):
    """Only collects what a new mode consists of."""

    def __init__(self):
        self.after = set()

    def done(self, st, v):
        an = self.an
        ty = an.r.inst[an.r.key]['body']['locals'][0]
        tick, extra = self.layout(ty)

        def at(v, path):
            for i in path:
                v = v[2][i]
            return v
        v = an.deep(st, v)
        x = an.res(st, at(v, tick[0]))
        sign = [n for n in ('>=0', '<0') if x[0] == 'I' and num.entails(st.num, dict(self.PREDS)[n](self, st, x[1:]))]
        self.after.add((tuple(self.abstract(st, at(v, p), t) for p, t in extra), sign[0] if sign else '?'))


class InterleaveMon(StateOfMode, Monitor):
    shared_classes = True
    # (what else the state consists of, the sign of the counter) at the call, and after it
    before = None

    def __init__(self):
        self.after = set()

    def init(self, st, args):
        an = self.an
        root, path = an.pointer(st, args[0])
        st.mon['obj'] = ('O', root[1])
        ty = an.r.T[an.r.inst[an.r.key]['body']['locals'][1]]['t']
        self.ty = ty
        self.where, self.extra = self.layout(ty)
        sty = an.r.T[ty]['a'][0]
        ints = []
        for name in ('FAST_LIMIT_MAX', 'SLOW_LIMIT'):
            k = ('const', GSC + 'cycle_safe::modes::interleave::Params::' + name, (an.r.ts(sty),))
            u16 = [i for i, t in enumerate(an.r.T) if t['k'] == 'int' and t['s'] == 'u16']
            if not u16:
                raise Undecided('u16 is not used')
            st.facts[k] = an.fresh(st, u16[0])
        fast, slow = self.const(st, 'FAST_LIMIT_MAX'), self.const(st, 'SLOW_LIMIT')
        t = self.ticker(st)
        st.mon['t0'] = ('I',) + t
        st.mon['fast'], st.mon['slow'] = ('I',) + fast, ('I',) + slow
        # rejected at compile time otherwise (root_const_interleave)
        an.assume(st, num.shift(num.scale(fast, -1), 65534))
        # the invariant of the ticker (shown to be inductive below, and to hold of the default)
        an.assume(st, num.add(t, slow))
        an.assume(st, num.sub(fast, t))
        st.mon['a'], st.mon['b'] = an.deep(st, an.deref(st, args[1])), an.deep(st, an.deref(st, args[2]))
        st.mon['rand'] = K(0)
        st.mon['tab'] = K(0)
        if self.before:
            for (p, ety), e in zip(self.extra, self.before[0]):
                an.store(st, ('O', root[1]), p, self.concrete(st, e, ety))
            if self.before[1] != '?':
                an.assume(st, dict(self.PREDS)[self.before[1]](self, st, t))

    def ticker(self, st):
        an = self.an
        return an.intv(st, an.load(st, st.mon['obj'], self.where[0]))

    def collect(self, st):
        an = self.an
        t = self.ticker(st)
        sign = [n for n in ('>=0', '<0') if num.entails(st.num, dict(self.PREDS)[n](self, st, t))]
        self.after.add((tuple(self.abstract(st, an.load(st, st.mon['obj'], p), ty) for p, ty in self.extra), sign[0] if sign else '?'))

    def on_rand(self, st, args, result, t):
        an, m = self.an, st.mon
        m['rand'] = K(m['rand'][1] + 1)
        m['rv'] = result
        d = num.shift(num.sub(args[0][1:], m['fast'][1:]), -1)
        an.require(st, 'phase', num.entails(st.num, d) and num.entails(st.num, num.scale(d, -1)),
                   'the length of the fast phase is not drawn from 0 ..= FAST_LIMIT_MAX', t.get('at'))
        an.require(st, 'draw', args[1][1][0] != 'L', 'a number is drawn from a generator that is not kept in the mode', t.get('at'))

    def on_table_get(self, st, args, result, t):
        self.slow_only(st, t)
        self.key_ok(st, args[1], t)

    def on_table_insert(self, st, args, result, t):
        self.slow_only(st, t)
        self.key_ok(st, args[1], t)
        st.mon['ins'] = K(1)

    def slow_only(self, st, t):
        m = st.mon
        m['tab'] = K(1)

    def key_ok(self, st, k, t):
        an = self.an
        ia, ib = st.facts.get(('id', st.mon['a'])), st.facts.get(('id', st.mon['b']))
        ks = [an.deep(st, x) for x in (ia, ib) if x is not None]
        an.require(st, 'record', an.deep(st, k) in ks, 'a class is looked up or recorded for something other than the ids of a and b', t.get('at'))

    def eq0(self, st, lin):
        return num.entails(st.num, lin) and num.entails(st.num, num.scale(lin, -1))

    # ------------------------------------------------------------ classes
    def final(self, st, o):
        """Where the chain from the record `o` ends now: ('obj', rep) or ('grp', g)."""
        an, md = self.an, self.an.models
        seen = set()
        while True:
            if o in seen:
                return 'cycle', o
            seen.add(o)
            v = an.deep(st, st.heap[o])
            v = v[2][0] if v[0] == 'A' and len(v[2]) == 1 else v
            if v[0] == 'A':
                ct = self.ctype(st, o)
                rep, link = md.class_shape(an, ct)
                if v[1] == rep:
                    return 'obj', o
                o = md.handle_obj(an, st, v[2][0])
                continue
            # content not looked at: as it was
            g = md.uf_group(an, st, o)
            r = st.facts.get(('rep', g))
            if r is not None and r[1] != o:
                o = r[1]
                continue
            return 'grp', g

    def ctype(self, st, o):
        f = st.facts.get(('ctype', ('O', o)))
        return f[1] if f else self.an.models.cell_type(self.an, None)

    def entry(self, st, fs, node):
        """The record of a node in a table (facts of kind `fs`): object, None (no entry) or '?'."""
        an = self.an
        i = st.facts.get(('id', node))
        if i is None:
            return '?'
        i = an.deep(st, i)
        for f, r in st.facts.items():
            if f[0] == fs:
                k = an.deep(st, f[2])
                if k == i or st.facts.get(('eq',) + tuple(sorted((k, i)))) == TRUE:
                    v = r[1]
                    if v[1] == 0:
                        return None
                    h = an.load(st, v[2][0][1], v[2][0][2])
                    return an.models.handle_obj(an, st, h)
        return '?'

    def records(self, st):
        """Every shared record, new or old."""
        return [o for o in st.heap if st.hkind.get(o) in ('cell', 'fresh') and
                st.heap[o][0] == 'A' and len(st.heap[o][2]) == 1]

    def done(self, st, v):
        an, m, md = self.an, st.mon, self.an.models
        an.oblige('paths')
        v = an.deep(st, v)
        if self.extra:
            self.collect(st)
        if not an.require(st, 'phase', v[0] == 'A' and v[1] == 0, 'do_edges fails'):
            return
        r = an.boolean(st, v[2][0])
        t1 = self.ticker(st)
        t0, fast, slow = m['t0'][1:], m['fast'][1:], m['slow'][1:]
        # the invariant is inductive
        an.require(st, 'phase', num.entails(st.num, num.add(t1, slow)) and num.entails(st.num, num.sub(fast, t1)),
                   'the counter leaves -SLOW_LIMIT ..= FAST_LIMIT_MAX')
        u = num.shift(t0, -1)
        tab = m['tab'] == K(1)
        if an.test(st, u):
            an.require(st, 'phase', r, 'an edge is skipped in the fast phase')
            an.require(st, 'phase', self.eq0(st, num.sub(t1, u)), 'the counter is not reduced by one in the fast phase')
            an.require(st, 'phase', not tab, 'the table of classes is used in the fast phase')
            an.require(st, 'phase', m['rand'] == K(0), 'a random number is drawn in the fast phase')
            return
        if not an.test(st, num.add(u, slow)):
            an.require(st, 'phase', r, 'an edge is skipped when the slow phase ends')
            ok = m['rand'] == K(1) and self.eq0(st, num.sub(t1, m['rv'][1:]))
            an.require(st, 'phase', ok, 'when the slow phase ends, the counter is not set to a new random limit')
            an.require(st, 'phase', not tab, 'the table of classes is used when the slow phase ends')
            return
        # slow phase
        an.require(st, 'phase', m['rand'] == K(0), 'a random number is drawn in the slow phase')
        self.slow(st, r, t1, u)

    def slow(self, st, r, t1, u):
        an, m, md = self.an, st.mon, self.an.models
        pa, pb = self.entry(st, 'pre', m['a']), self.entry(st, 'pre', m['b'])
        same_key = self.same_key(st)
        if same_key:
            # a pair that has one id is never asked about; any answer that loses nothing is fine
            pass
        known = None
        if pa is None or pb is None:
            known = False
        elif pa != '?' and pb != '?':
            fa, fb = self.pre_class(st, pa), self.pre_class(st, pb)
            if fa is not None and fb is not None:
                known = fa == fb
        if r is False:
            an.require(st, 'skip', known is True or same_key and pa not in (None, '?'),
                       'edges are skipped although the pair is not known to be in one class')
            an.require(st, 'phase', self.eq0(st, t1), 'after a skip in the slow phase the counter is not restarted')
        else:
            if not same_key:
                an.require(st, 'progress', known is False,
                           'edges are descended in the slow phase although the pair may already be in one class')
            an.require(st, 'phase', self.eq0(st, num.sub(t1, u)), 'the counter is not reduced by one in the slow phase')
        # afterwards both are in one class
        qa, qb = self.entry(st, 'tab', m['a']), self.entry(st, 'tab', m['b'])
        ok = qa not in (None, '?') and qb not in (None, '?')
        an.require(st, 'record', ok, 'the pair is not recorded in the table')
        if ok:
            an.require(st, 'record', self.final(st, qa) == self.final(st, qb),
                       'the pair is not in one class after it was allowed to be descended')
            for pre, post in ((pa, qa), (pb, qb)):
                if pre not in (None, '?'):
                    an.require(st, 'class', self.final(st, pre) == self.final(st, post),
                               'a node is taken out of its class')
            if pa is None and pb not in (None, '?'):
                an.require(st, 'class', self.final(st, pb) == self.final(st, qa), 'a new node is not put in the class of the other')
            if pb is None and pa not in (None, '?'):
                an.require(st, 'class', self.final(st, pa) == self.final(st, qb), 'a new node is not put in the class of the other')
        self.legal(st, pa, pb)

    def same_key(self, st):
        an, m = self.an, st.mon
        x, y = st.facts.get(('id', m['a'])), st.facts.get(('id', m['b']))
        if x is None or y is None:
            return False
        x, y = sorted((an.deep(st, x), an.deep(st, y)))
        return x == y or st.facts.get(('eq', x, y)) == TRUE

    def pre_class(self, st, o):
        """The class of a record on entry: its representative, when that was found out."""
        if st.hkind.get(o) != 'cell':
            return None
        g = self.an.models.uf_group(self.an, st, o)
        r = st.facts.get(('rep', g))
        return r if r is not None else None

    def legal(self, st, pa, pb):
        """Records may change only so that the classes stay the same, but for the union of the two."""
        an, md = self.an, self.an.models
        merged, weights = [], []
        for o in self.records(st):
            if self.final(st, o)[0] == 'cycle':
                an.report(st, 'class', 'links of classes form a cycle')
                raise Stop()
            if st.hkind[o] != 'cell':
                ct = self.ctype(st, o)
                v = an.deep(st, st.heap[o])[2][0]
                if v[0] != 'A':
                    continue
                rep, link = md.class_shape(an, ct)
                if v[1] == rep:
                    an.require(st, 'weight', num.entails(st.num, num.shift(an.intv(st, v[2][0]), -1)),
                               'a new class has no weight')
                continue
            k = md.uf_legal(an, st, o)
            an.oblige('records')
            if k == 'bad':
                an.report(st, 'class', 'a record of a class is changed in a way that loses or moves members')
            elif k == 'merge':
                merged.append(o)
            elif k == 'weight':
                weights.append(o)
        if not merged:
            for o in weights:
                old, new = self.weights(st, o)
                an.require(st, 'weight', self.eq0(st, num.sub(old, new)), 'the weight of a class changes without a union')
            return
        if not an.require(st, 'class', len(merged) == 1, 'more than one class is linked away'):
            return
        o = merged[0]
        fa = self.pre_class(st, pa) if pa not in (None, '?') else None
        fb = self.pre_class(st, pb) if pb not in (None, '?') else None
        new = an.deep(st, st.heap[o])[2][0]
        tgt = md.handle_obj(an, st, new[2][0])
        if not an.require(st, 'class', fa is not None and fb is not None and fa != fb and
                          {('O', o), ('O', tgt)} == {fa, fb},
                          'a union joins something other than the classes of the two nodes'):
            return
        ct = self.ctype(st, o)
        wo = an.intv(st, an.deep(st, st.facts[('orig', ('O', o))])[2][0])
        orig = an.deep(st, st.facts[('orig', ('O', tgt))])
        wt = an.intv(st, orig[2][0])
        wn = an.intv(st, an.deep(st, st.heap[tgt])[2][0][2][0])
        an.require(st, 'weight', num.entails(st.num, num.sub(wt, wo)), 'the heavier class is linked below the lighter one')
        bits = [t['bits'] for t in an.r.T if t['k'] == 'int' and t['s'] == 'usize']
        mx = (1 << (bits[0] if bits else 64)) - 1
        s = num.add(wo, wt)
        ok = self.eq0(st, num.sub(wn, s)) or \
            (num.entails(st.num, num.shift(s, -mx)) and self.eq0(st, num.shift(wn, -mx)))
        an.require(st, 'weight', ok, 'the weight of a union is not the (saturated) sum of both weights')
        for x in weights:
            if x != tgt:
                an.report(st, 'weight', 'the weight of a class that takes no part in the union changes')

    def weights(self, st, o):
        an = self.an
        return (an.intv(st, an.deep(st, st.facts[('orig', ('O', o))])[2][0]),
                an.intv(st, an.deep(st, st.heap[o])[2][0][2][0]))


class InterleaveDefaultMon(Monitor):
    def done(self, st, v):
        fresh_interleave(self, st, v, 'a new mode')


def fresh_interleave(mon, st, v, what):
    """A mode / algorithm that has no history: counters at zero, nothing recorded."""
    an = mon.an
    bad, ints = [], []

    def f(x):
        if x[0] == 'I':
            ints.append(x == ('I', 0, ()))
        elif x[0] == 'D':
            if x[1:] != ((), 0, ()):
                bad.append('pending edges')
        elif x[0] == 'S':
            t = an.r.T[x[2]]
            if ('clean', x) in st.facts or ('emptymap', x) in st.facts:
                return
            if t['k'] == 'adt' and t['krate'] in ('oorandom', 'wyhash', 'fastrand', 'core'):
                return
            if t['k'] == 'adt' and t['p'].endswith('PhantomData'):
                return
            bad.append('a %s that is not new' % t['s'])
    mon.walk(st, v, f)
    # what other integers there may be is followed from here on by the analysis of do_edges
    if ints and not any(ints):
        bad.append('a counter that is not zero')
    an.require(st, 'clean', not bad, '%s starts with %s' % (what, ', '.join(sorted(set(bad))) or 'nothing'))


# ==================================================================== Equiv itself
class NewMon(Monitor):
    """Equiv::new / default / from / into."""

    def __init__(self, kind):
        self.kind = kind

    def init(self, st, args):
        if self.kind == 'new':
            st.mon['d'] = ('M', self.an.deep(st, args[0]))
        if self.kind == 'from':
            st.mon['src'] = ('M', self.an.deep(st, args[0]))

    def on_reset(self, st, args, result, t):
        st.mon['reset'] = ('M', args[0], result)

    def done(self, st, v):
        an, m = self.an, st.mon
        an.oblige('paths')
        v = an.deep(st, v)
        ty = an.r.inst[an.r.key]['body']['locals'][0]
        pty = an.r.ts(an.r.T[ty]['a'][0])
        dm = '<%s as graph_safe_compare::generic::equiv::Params>::DescendMode' % pty
        rm = '<%s as graph_safe_compare::generic::equiv::Params>::RecurMode' % pty
        lv = self.typed(st, v, ty, (dm, rm), [])
        d = [x for s, x in lv if s == dm]
        r = [x for s, x in lv if s == rm]
        if len(d) != 1 or len(r) != 1:
            raise Undecided('the parts of Equiv')
        if self.kind == 'new':
            an.require(st, 'clean', d[0] == m['d'][1], 'the descend mode is not the one given')
        else:
            an.require(st, 'clean', ('clean', d[0]) in st.facts, 'the descend mode is not a new one')
        if self.kind == 'from':
            rs = m.get('reset')
            src = []
            self.walk(st, m['src'][1], lambda x: src.append(x) if x[0] == 'S' else None)
            ok = rs is not None and self.conv(st, r[0], rs[2])
            an.require(st, 'clean', ok, 'the recursion mode is not reset before it is reused')
            if rs is not None:
                an.require(st, 'clean', rs[1] in src, 'what is reset is not the former recursion mode')
        else:
            an.require(st, 'clean', ('clean', r[0]) in st.facts, 'the recursion mode is not a new one')


class CallsMon(Monitor):
    """A premade function: runs of Equiv::equiv, each with what modes, state and nodes, and the result.

    runs: list of dicts {descend, recur}; limit: 'arg' (first parameter) | 'const' | None."""

    def __init__(self, runs, limit=None, const=None):
        self.runs, self.limit, self.kconst = runs, limit, const

    def init(self, st, args):
        an = self.an
        n = [an.deep(st, x) for x in args]
        st.mon['a'], st.mon['b'] = n[-2], n[-1]
        if self.limit == 'arg':
            st.mon['lim'] = ('M', n[0])
        st.mon['n'] = K(0)

    def on_reset(self, st, args, result, t):
        pass

    def call(self, st, fn, names, args, dty, t):
        an, m = self.an, st.mon
        if fn['path'] == GSC + 'generic::equiv::Equiv::equiv':
            at = t.get('at')
            i = m['n'][1]
            m['n'] = K(i + 1)
            if i >= len(self.runs):
                an.report(st, 'runs', 'the algorithm is run once more than it should', at)
                raise Stop()
            want = self.runs[i]
            if i:
                prev = m['r%d' % (i - 1)]
                an.require(st, 'fallback', prev == K('limit'), 'the comparison is done again although the pre-check did not reach its limit', at)
            a, b = an.deep(st, args[1]), an.deep(st, args[2])
            an.require(st, 'args', (a, b) == (m['a'], m['b']), 'the nodes compared are not a and b, in this order', at)
            root, path = an.pointer(st, args[0])
            ev = an.load(st, root, path)
            ety = an.r.T[t['at_'][0]]['t']
            self.modes(st, ev, ety, want, at)
            # the result
            vs = an.r.variants(dty)
            v = vs[an.choose(st, len(vs))]
            x = an.fresh(st, an.r.field_ty(dty, v, 0))
            if v == 1 and i + 1 < len(self.runs):
                x = an.variant(st, x)
                lim = an.r.T[an.r.field_ty(dty, 1, 0)]['v'][x[1]]['n'] == 'LimitReached'
                m['r%d' % i] = K('limit') if lim else ('M', ('A', 1, (x[2][0],)))
            else:
                m['r%d' % i] = ('M', ('A', v, (x,)))
            an.note(st, 'Equiv::equiv() = %s' % self.show(st, ('A', v, (x,))))
            return ('A', v, (x,))
        return None

    def modes(self, st, ev, ety, want, at):
        an, m = self.an, st.mon
        t = an.r.T[ety]
        ftys = [an.r.T[f['t']] for f in t['v'][0]['f']]
        names = [x['p'] if x['k'] == 'adt' else x['s'] for x in ftys]
        for role in ('descend', 'recur'):
            w = want[role]
            hit = [i for i, n in enumerate(names) if n.endswith(w)]
            if not an.require(st, 'modes', len(hit) == 1, 'the run does not use %s' % w, at):
                continue
            v = an.deep(st, ev)[2][hit[0]]
            if w.endswith('Limited'):
                v = an.intv(st, v)
                if self.limit == 'arg':
                    lim = an.intv(st, m['lim'][1])
                elif self.kconst is not None:
                    lim = num.const(self.kconst)
                else:
                    lim = None
                    for f, r in st.facts.items():
                        if f[0] == 'const' and f[1].endswith('Params::PRECHECK_LIMIT'):
                            lim = r[1:]
                ok = lim is not None and self_eq(st, v, lim)
                an.require(st, 'limit', ok, 'the limit of the run is not the one specified', at)
            elif role == 'descend' or want.get('clean', True):
                fresh_interleave(self, st, v, 'the %s mode' % role)

    def done(self, st, v):
        an, m = self.an, st.mon
        an.oblige('paths')
        n = m['n'][1]
        if not an.require(st, 'runs', n >= 1, 'the algorithm is not run'):
            return
        last = m['r%d' % (n - 1)]
        if last == K('limit'):
            an.require(st, 'fallback', False, 'the pre-check reached its limit but the comparison is not done again')
            return
        v = an.deep(st, v)
        r = an.deep(st, last[1])
        rty = an.r.T[an.r.inst[an.r.key]['body']['locals'][0]]
        if rty.get('p') == 'core::result::Result':
            ok = v[0] == 'A' and v[1] == r[1] and (self.conv(st, v[2][0], r[2][0]) or (r[1] == 1 and self.inner(v[2][0], r[2][0])))
        else:
            ok = r[1] == 0 and v == r[2][0]
        an.require(st, 'error' if r[1] == 1 else 'result', ok, 'what the algorithm found is not what is returned')

    def inner(self, v, r):
        while r[0] == 'A' and len(r[2]) == 1:
            r = r[2][0]
            if r == v:
                return True
        return False


def self_eq(st, a, b):
    d = num.sub(a, b)
    return num.entails(st.num, d) and num.entails(st.num, num.scale(d, -1))


# ==================================================================== premade parts
class TableGetMon(Monitor):
    def init(self, st, args):
        st.mon['k'] = ('M', self.an.deep(st, self.an.deref(st, args[1])))
        st.mon['n'] = K(0)

    def on_table_get(self, st, args, result, t):
        self.an.require(st, 'table', self.an.deep(st, args[1]) == st.mon['k'][1], 'another key is looked up', t.get('at'))
        st.mon['r'] = ('M', result)

    def on_table_insert(self, st, args, result, t):
        self.an.report(st, 'table', 'a lookup inserts', t.get('at'))

    def on_table_lose(self, st, args, result, t):
        self.an.report(st, 'table', 'a lookup takes entries out of the table', t.get('at'))
        raise Stop()

    def done(self, st, v):
        an = self.an
        an.oblige('paths')
        r = st.mon.get('r')
        an.require(st, 'table', r is not None and an.deep(st, v) == an.deep(st, r[1]), 'what is found for a key is not what is returned')


class TableInsertMon(Monitor):
    def init(self, st, args):
        an = self.an
        st.mon['k'], st.mon['v'] = ('M', an.deep(st, args[1])), ('M', an.deep(st, args[2]))
        st.mon['n'] = K(0)

    def on_table_insert(self, st, args, result, t):
        an, m = self.an, st.mon
        m['n'] = K(m['n'][1] + 1)
        ok = an.deep(st, args[1]) == m['k'][1] and an.deep(st, args[2]) == m['v'][1]
        an.require(st, 'table', ok, 'another key or another value is inserted', t.get('at'))

    def on_table_lose(self, st, args, result, t):
        if not args or self.an.deep(st, args[0]) != st.mon['k'][1]:
            self.an.report(st, 'table', 'an insertion takes other entries out of the table', t.get('at'))
            raise Stop()

    def done(self, st, v):
        an, m = self.an, st.mon
        held = [st.facts[f][1] for f in st.facts if f[0] == 'tab' and an.deep(st, f[2]) == m['k'][1]]
        held = len(held) == 1 and held[0][1] == 1 and an.deep(st, an.deref(st, held[0][2][0])) == m['v'][1]
        an.require(st, 'table', m['n'] in (K(0), K(1)) and held, 'the table does not hold a value that was inserted (once) for its key')


class FreshMon(Monitor):
    """A new table / number generator."""

    def __init__(self, what):
        self.what = what

    def done(self, st, v):
        an = self.an
        if self.what == 'table':
            n = []
            self.walk(st, v, lambda x: n.append(('emptymap', x) in st.facts) if x[0] == 'S' else None)
            an.require(st, 'clean', n and all(n), 'a new table is not empty')
        an.oblige('paths')


class RoomMon(Monitor):
    """A new queue, stack or table has room for `INITIAL_CAPACITY` elements."""

    def on_room(self, st, args, result, t):
        n = self.an.intv(st, args[0])
        st.mon['room'] = st.mon.get('room', ('M',)) + (('I',) + n,)

    def on_no_room(self, st, args, result, t):
        st.mon.pop('room', None)

    def done(self, st, v):
        an = self.an
        an.oblige('paths')
        want = [r[1:] for f, r in st.facts.items() if f[0] in ('const', 'kbody') and 'INITIAL_CAPACITY' in str(f[1])]
        have = [x[1:] for x in st.mon.get('room', ('M',))[1:]]
        ok = any(num.entails(st.num, num.sub(h, w)) and num.entails(st.num, num.sub(w, h)) for h in have for w in want)
        an.require(st, 'room', ok, 'the room made is not that for INITIAL_CAPACITY elements')


class HandleMon(Monitor):
    """Rc::new / clone / deref keep to one allocation."""

    def __init__(self, kind):
        self.kind = kind

    def init(self, st, args):
        an = self.an
        st.mon['x'] = ('M', an.deep(st, args[0]))
        if self.kind != 'new':
            v = an.deep(st, an.deref(st, args[0]))
            st.mon['h'] = ('M', v)

    def on_rc_new(self, st, args, result, t):
        st.mon['new'] = ('M', result, self.an.deep(st, args[0]))

    def on_cell_set(self, st, args, result, t):
        self.an.report(st, 'handle', 'the shared record is changed', t and t.get('at'))

    def done(self, st, v):
        an, m = self.an, st.mon
        an.oblige('paths')
        v = an.deep(st, v)
        if self.kind == 'new':
            n = m.get('new')
            ok = n is not None and n[2] == m['x'][1] and ('O', an.models.handle_obj(an, st, v)) == n[1]
            an.require(st, 'handle', ok, 'a new handle does not refer to a new record with the given content')
            return
        o = an.models.handle_obj(an, st, m['h'][1])
        if self.kind == 'clone':
            an.require(st, 'handle', an.models.handle_obj(an, st, v) == o and 'new' not in m,
                       'a clone of a handle does not refer to the same record')
        else:
            an.require(st, 'handle', v[0] == 'R' and v[1] == ('O', o), 'a handle does not dereference to its record')


class ClassMon(Monitor):
    def __init__(self, kind):
        self.kind = kind

    def init(self, st, args):
        if self.kind == 'clone':
            st.mon['x'] = ('M', self.an.deep(st, self.an.deref(st, args[0])))

    def done(self, st, v):
        an = self.an
        an.oblige('paths')
        v = an.deep(st, v)
        ty = an.r.inst[an.r.key]['body']['locals'][0]
        rep, link = an.models.class_shape(an, ty)
        if self.kind == 'default':
            ok = v[0] == 'A' and v[1] == rep and num.entails(st.num, num.shift(an.intv(st, v[2][0]), -1))
            an.require(st, 'class', ok, 'a new class is not a representative with a positive weight')
        else:
            an.require(st, 'class', an.deep(st, st.mon['x'][1]) == v, 'a clone of a class record differs from it')


class RandMon(Monitor):
    def init(self, st, args):
        an = self.an
        st.mon['e'] = ('I',) + an.intv(st, args[1])
        st.mon['g'] = ('M', args[0])
        st.mon['was'] = ('M', an.deep(st, an.deref(st, args[0])))

    def on_rng_advance(self, st, args, result, t):
        st.mon['adv'] = K(1)

    def on_rng_seeded(self, st, args, result, t):
        self.an.report(st, 'draw', 'the generator is seeded anew for a draw, so that numbers repeat', t.get('at'))
        raise Stop()

    def done(self, st, v):
        an = self.an
        an.oblige('paths')
        now = an.deep(st, an.deref(st, st.mon['g'][1]))
        an.require(st, 'draw', 'adv' in st.mon and (self.stateless(now) or now != st.mon['was'][1]),
                   'the state of the generator is as before, so that the next number is the same')
        r = an.intv(st, v)
        ok = num.entails(st.num, num.shift(num.sub(st.mon['e'][1:], r), -1))
        if not ok and an.inexact(st, r):
            raise Undecided('a random number of which only bounds are known')
        an.require(st, 'range', ok,
                   'a random number may reach the exclusive end')


    def stateless(self, v):
        return v[0] == 'A' and all(self.stateless(x) for x in v[2])


class RefIdMon(Monitor):
    def __init__(self, op):
        self.op = op

    def generic_deref(self, ty):
        return True

    def init(self, st, args):
        st.mon['x'] = ('M', args[0])
        if len(args) > 1:
            st.mon['y'] = ('M', args[1])
        st.mon['h'] = ('M',)

    def target(self, st, arg):
        """The address a RefId argument (or a reference to one) refers to."""
        an = self.an
        v = an.deep(st, arg)
        if v[0] == 'R':
            v = an.deep(st, an.load(st, v[1], v[2]))
        while v[0] == 'A':
            if len(v[2]) != 1:
                raise Undecided('the parts of RefId')
            v = v[2][0]
        k = ('deref', v)
        if k not in st.facts:
            return None
        return ('R', st.facts[k], ())

    def on_hash(self, st, args, result, t):
        st.mon['h'] = st.mon['h'] + (args[0],)

    def order(self, st):
        p, q = self.target(st, st.mon['x'][1]), self.target(st, st.mon['y'][1])
        if p is None or q is None:
            return None
        if p == q:
            return 0
        c = st.facts.get(('pcmp', p, q))
        if c is not None:
            return c[1]
        c = st.facts.get(('pcmp', q, p))
        return None if c is None else -c[1]

    def done(self, st, v):
        an = self.an
        an.oblige('paths')
        v = an.deep(st, v)
        if self.op == 'hash':
            p = self.target(st, st.mon['x'][1])
            hs = st.mon['h'][1:]
            an.require(st, 'refid', p is not None and p in hs and
                       all(h in (p, ('T', p)) or h[0] == 'I' and num.is_const(h[1:]) for h in hs),
                       'the hash is not that of the address alone')
            return
        if self.op == 'clone':
            x = an.deep(st, st.mon['x'][1])
            x = an.deep(st, an.load(st, x[1], x[2]))
            an.require(st, 'refid', v == x, 'a clone differs from the original')
            return
        c = self.order(st)
        if self.op in ('eq', 'ne') and c is None:
            # equality decided without the order: not equal
            an.report(st, 'refid', 'the result of %s is not decided by the addresses' % self.op)
            return
        if not an.require(st, 'refid', c is not None, 'the result of %s is not decided by the addresses' % self.op):
            return
        if self.op in ('max', 'min'):
            x, y = an.deep(st, st.mon['x'][1]), an.deep(st, st.mon['y'][1])
            if c == 0:
                ok = v in (x, y)
            elif self.op == 'max':
                ok = v == (x if c > 0 else y)
            else:
                ok = v == (x if c < 0 else y)
            an.require(st, 'refid', ok, '%s disagrees with the order of the addresses' % self.op)
            return
        want = {'eq': ('B', c == 0), 'ne': ('B', c != 0), 'lt': ('B', c < 0), 'le': ('B', c <= 0),
                'gt': ('B', c > 0), 'ge': ('B', c >= 0), 'cmp': ('A', c + 1, ()),
                'partial_cmp': ('A', 1, (('A', c + 1, ()),))}[self.op]
        if self.op in ('eq', 'ne') and v[0] == 'I':
            v = ('B', v[1] != 0)
        an.require(st, 'refid', v == want, '%s disagrees with the order of the addresses' % self.op)


class CmpMon(Monitor):
    def __init__(self, ty, op):
        self.ty, self.op = ty, op

    def init(self, st, args):
        an = self.an
        if args:
            v = an.deep(st, args[0])
            if v[0] == 'R':
                v = an.deep(st, an.load(st, v[1], v[2]))
            st.mon['x'] = ('M', v)

    def done(self, st, v):
        an = self.an
        an.oblige('paths')
        v = an.deep(st, v)
        x = an.deep(st, st.mon['x'][1]) if 'x' in st.mon else None
        eq = ('B', True) if self.ty == 'bool' else ('A', 1, ())
        if self.op == 'new_equiv':
            ok = v == eq
        elif self.op == 'is_equiv':
            if x[0] == 'S' and v[0] == 'S':
                ok = self.ty == 'bool' and v == x
            else:
                ok = v == ('B', x == eq)
        else:
            if self.ty == 'bool':
                ok = x[0] == 'A' and v == ('B', x[1] == 1)
            else:
                ok = v == x
        an.require(st, 'cmp', ok, '%s of %s breaks its law' % (self.op, self.ty))


class StepIncMon(Monitor):
    def init(self, st, args):
        an = self.an
        st.mon['x'] = ('I',) + an.intv(st, an.deref(st, args[0]))
        ty = an.r.T[an.r.inst[an.r.key]['body']['locals'][1]]['t']
        self.hi = an.int_range(ty)[1]

    def done(self, st, v):
        an = self.an
        an.oblige('paths')
        v = an.deep(st, v)
        x = st.mon['x'][1:]
        if v[1] == 0:
            an.require(st, 'step', num.entails(st.num, num.shift(x, -self.hi)), 'there is no next index although it would fit')
        else:
            d = num.shift(num.sub(an.intv(st, v[2][0]), x), -1)
            an.require(st, 'step', num.entails(st.num, d) and num.entails(st.num, num.scale(d, -1)),
                       'the next index is not one more (it may wrap around or stay)')


class ConstMon(Monitor):
    def __init__(self, kind):
        self.kind = kind

    def const(self, st, name):
        for f, r in st.facts.items():
            if f[0] == 'const' and f[1].endswith('interleave::Params::' + name):
                return r[1:]
        return None

    def done(self, st, v):
        an = self.an
        an.oblige('paths')
        v = an.deep(st, v)
        x = [an.intv(st, y) for y in v[2]]
        if self.kind == 'interleave':
            fast, slow = self.const(st, 'FAST_LIMIT_MAX'), self.const(st, 'SLOW_LIMIT')
            an.require(st, 'const', fast is not None and self_eq(st, x[0], num.shift(fast, 1)),
                       'FAST_LIMIT_MAX_RANGE_END is not FAST_LIMIT_MAX + 1')
            an.require(st, 'const', slow is not None and self_eq(st, num.add(x[1], slow), num.const(0)),
                       'SLOW_LIMIT_NEG is not the negated SLOW_LIMIT')
            return
        if self.kind == 'only':
            k = st.facts.get(('cparam', 'u16'))
            an.require(st, 'const', k is not None and self_eq(st, x[0], k[1:]), 'PRECHECK_LIMIT is not the one defined')
        k, fast, slow = x
        an.require(st, 'const', self_eq(st, fast, num.scale(k, 2)), 'FAST_LIMIT_MAX is not by default twice PRECHECK_LIMIT')
        an.require(st, 'progress', num.entails(st.num, num.shift(slow, -1)),
                   'SLOW_LIMIT may by default be zero, with which the slow phase never records anything')
        d = num.sub(k, num.scale(slow, 10))
        ok = num.entails(st.num, d) and num.entails(st.num, num.shift(num.scale(d, -1), 9)) or \
            (num.entails(st.num, num.shift(num.scale(k, -1), 9)) and self_eq(st, slow, num.const(1)))
        an.require(st, 'const', ok, 'SLOW_LIMIT is not by default a tenth of PRECHECK_LIMIT')
