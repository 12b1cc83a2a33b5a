"""Contracts of what the crate calls but does not define: the user's trait implementations and the
standard library.  Every model states what is assumed; nothing here depends on private names of
the crate."""
import num
from core import Split, Infeasible, Undecided, Stop, UNIT

GSC = 'graph_safe_compare::'
LESS, EQUAL, GREATER = 0, 1, 2


def NONE():
    return ('A', 0, ())


def SOME(v):
    return ('A', 1, (v,))


def OK(v):
    return ('A', 0, (v,))


def ERR(v):
    return ('A', 1, (v,))


class Models:
    def __init__(self):
        self.table = {}
        for n in dir(self):
            f = getattr(self, n)
            for p in getattr(f, '_paths', ()):
                self.table[p] = f

    def call(self, an, st, fn, names, args, dty, t):
        for n in names:
            f = self.table.get(n)
            if f is not None:
                # a trait method resolved to a body of the crate is analysed, not modelled
                if fn['how'] == 'body' and getattr(f, '_abstract', False):
                    return None
                return f(an, st, fn, args, dty, t)
        n = names[0]
        if fn['how'] == 'drop_glue' or n in ('core::mem::drop', 'core::ptr::drop_in_place'):
            if n == 'core::mem::drop':
                return None
            return UNIT
        if n.startswith('core::panicking::') or n.startswith('std::rt::begin_panic') or n in (
                'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed',
                'alloc::alloc::handle_alloc_error', 'std::process::abort', 'std::process::exit',
                'core::intrinsics::abort'):
            an.panic(st, 'reaches %s' % n, t.get('at'))
        if n.startswith('core::fmt::') or n.startswith('core::intrinsics::cold_path') or \
                n in ('core::hint::black_box', 'core::intrinsics::assert_inhabited',
                      'core::intrinsics::assert_zero_valid'):
            return an.fresh(st, dty) if not n.startswith('core::intrinsics') else UNIT
        if fn['how'] == 'clone_shim' and fn.get('key') not in an.r.inst:
            return an.deref(st, args[0])
        return None

    # ---------------------------------------------------------------- ghost: union-find
    def is_class(self, an, ty):
        """Is `ty` the class-record enum: one variant with a weight, one with a handle?"""
        t = an.r.T[ty]
        return t['k'] == 'adt' and t['p'].startswith(GSC) and t['kind'] == 'enum' and \
            self.class_shape(an, ty) is not None

    def class_shape(self, an, ty):
        """(representative variant, link variant)."""
        t = an.r.T[ty]
        if len(t['v']) != 2 or any(len(v['f']) != 1 for v in t['v']):
            return None
        k = [an.r.T[v['f'][0]['t']]['k'] for v in t['v']]
        if k[0] == 'int' and k[1] != 'int':
            return 0, 1
        if k[1] == 'int' and k[0] != 'int':
            return 1, 0
        return None

    def uf_unify(self, st, g1, g2):
        if g1 == g2:
            return
        r1, r2 = st.facts.get(('rep', g1)), st.facts.get(('rep', g2))
        if r1 is not None and r2 is not None and r1 != r2:
            raise Infeasible()
        if st.facts.get(('gne', g1, g2)) or st.facts.get(('gne', g2, g1)):
            raise Infeasible()
        for k in list(st.facts):
            if k[0] == 'grp' and st.facts[k] == g2:
                st.facts[k] = g1
        if r2 is not None:
            st.facts[('rep', g1)] = r2
            st.facts.pop(('rep', g2), None)
        self.uf_close(st)

    def uf_lt(self, st, a, b):
        if a == b:
            raise Infeasible()
        st.facts[('lt', a, b)] = ('K', 1)
        self.uf_close(st)

    def uf_close(self, st):
        """Transitive closure of the chain order; raises when it is not one."""
        for k in list(st.facts):
            if k[0] == 'rep':
                r = st.facts[k]
                for k2 in list(st.facts):
                    if k2[0] == 'grp' and st.facts[k2] == k[1] and k2[1] != r:
                        st.facts.setdefault(('lt', k2[1], r), ('K', 1))
        lt = {(k[1], k[2]) for k in st.facts if k[0] == 'lt'}
        while True:
            new = {(a, d) for a, b in lt for c, d in lt if b == c} - lt
            if not new:
                break
            lt |= new
        reps = {v for k, v in st.facts.items() if k[0] == 'rep'}
        for a, b in lt:
            if (b, a) in lt or a == b or a in reps:
                raise Infeasible()
            st.facts[('lt', a, b)] = ('K', 1)

    def uf_group(self, an, st, o):
        k = ('grp', ('O', o))
        if k not in st.facts:
            st.facts[k] = ('S', an.new_id(st), -1)
        return st.facts[k]

    def allowed_variants(self, an, st, v, vs):
        o = st.facts.get(('content', v))
        if o is None:
            return vs
        rep, link = self.class_shape(an, v[2])
        g = self.uf_group(an, st, o[1])
        r = st.facts.get(('rep', g))
        if r is not None:
            return [x for x in vs if x == (rep if r == o else link)]
        if any(k[0] == 'lt' and k[1] == o for k in st.facts):
            return [x for x in vs if x == link]
        return vs

    def bound_variant(self, an, st, v, n):
        o = st.facts.get(('content', v))
        if o is None:
            return
        rep, link = self.class_shape(an, v[2])
        g = self.uf_group(an, st, o[1])
        if n[1] == rep:
            r = st.facts.get(('rep', g))
            if r is not None and r != o:
                raise Infeasible()
            st.facts[('rep', g)] = o
            self.uf_close(st)
        else:
            h = n[2][0]
            t = an.r.T[v[2]]['v'][link]['f'][0]['t']
            nx = self.materialise(an, st, h, after=o)
            self.uf_unify(st, self.uf_group(an, st, nx), g)
            self.uf_lt(st, o, ('O', nx))

    def handle_obj(self, an, st, v):
        """The object a shared-ownership handle refers to."""
        v = an.res(st, v)
        if v[0] == 'P':
            return v[1]
        if v[0] == 'A' and len(v[2]) == 1:
            return self.handle_obj(an, st, v[2][0])
        if v[0] == 'S':
            k = ('deref', v)
            if k in st.facts:
                return st.facts[k][1]
            return self.materialise(an, st, v)
        if v[0] == 'R':
            return self.handle_obj(an, st, an.load(st, v[1], v[2]))
        raise Undecided('handle %r' % (v,))

    def pointee(self, an, ty):
        return an.m.handle_pointee(ty)

    def leaf_handle(self, an, st, v):
        v = an.res(st, v)
        while v[0] == 'A' and len(v[2]) == 1:
            v = an.res(st, v[2][0])
        return v

    def materialise(self, an, st, h, after=None):
        """Which object does this so-far-unknown handle refer to: one already known, or another?"""
        h = self.leaf_handle(an, st, h)
        k = ('deref', h)
        if k in st.facts:
            return st.facts[k][1]
        if h[0] == 'P':
            return h[1]
        ct = self.cell_type(an, h[2])
        if ct is None:
            o = an.new_obj(st, ('X', 'pointee'), 'lazy')
            st.facts[k] = ('O', o)
            return o
        cand = [o for o in sorted(st.heap) if st.hkind.get(o) == 'cell' and st.facts.get(('ctype', ('O', o))) == ('K', ct)]
        if after is not None:
            cand = [o for o in cand if ('O', o) != after and ('lt', ('O', o), after) not in st.facts]
        i = an.choose(st, len(cand) + 1)
        if i > 0:
            o = cand[i - 1]
        else:
            c = an.fresh(st, ct)
            o = an.new_obj(st, ('A', 0, (c,)), 'cell')
            st.facts[('ctype', ('O', o))] = ('K', ct)
            st.facts[('content', c)] = ('O', o)
            st.facts[('orig', ('O', o))] = c
            self.uf_group(an, st, o)
        st.facts[k] = ('O', o)
        return o

    def cell_type(self, an, hty):
        """Type of the record that handles of type `hty` share."""
        for i, t in enumerate(an.r.T):
            if t['k'] == 'adt' and t['p'].startswith(GSC) and t['kind'] == 'enum' and self.class_shape(an, i):
                return i
        return None

    def checkpoint(self, an, st):
        """Forget the records that only other records refer to, after checking their changes."""
        cells = [o for o in st.heap if st.hkind.get(o) == 'cell']
        if not cells:
            return
        direct = set()

        def walk(v, depth):
            v = an.res(st, v)
            k = v[0]
            if k == 'A' or k == 'M':
                for x in (v[2] if k == 'A' else v[1:]):
                    walk(x, depth)
            elif k == 'S':
                d = st.facts.get(('deref', v))
                if d:
                    hit(d[1])
            elif k == 'P':
                hit(v[1])
            elif k == 'R' and v[1][0] == 'O':
                hit(v[1][1])
            elif k == 'O':
                hit(v[1])
            elif k == 'T':
                walk(v[1], depth)
            elif k == 'D':
                for x in v[1] + v[3]:
                    walk(x, depth)

        def hit(o):
            if o in direct:
                return
            direct.add(o)
            if st.hkind.get(o) != 'cell' and o in st.heap:
                walk(st.heap[o], 0)

        for f in st.frames:
            for v in f.loc.values():
                walk(v, 0)
        for v in st.mon.values():
            walk(v, 0)
        for k, v in st.facts.items():
            if k[0] in ('tab', 'rep', 'merged'):
                walk(v, 0)
        for o in cells:
            ok = self.uf_legal(an, st, o)
            if ok == 'link':
                # same class, further along the chain: becomes the known content
                st.facts[('orig', ('O', o))] = an.deep(st, st.heap[o])[2][0]
            if o not in direct and ok in ('same', 'link'):
                ct = st.facts[('ctype', ('O', o))][1]
                c = an.fresh(st, ct)
                st.heap[o] = ('A', 0, (c,))
                st.facts[('content', c)] = ('O', o)
                st.facts[('orig', ('O', o))] = c

    def uf_legal(self, an, st, o):
        """Compare the record with what it was: same / link (chain shortened) / weight / merge / bad."""
        O = ('O', o)
        ct = st.facts[('ctype', O)][1]
        rep, link = self.class_shape(an, ct)
        old = an.deep(st, st.facts[('orig', O)])
        new = an.deep(st, st.heap[o])[2][0]
        if old == new:
            return 'same'
        if old[0] == 'S' or new[0] != 'A' or old[0] != 'A':
            return 'bad'
        if old[1] == link and new[1] == link:
            a, b = self.handle_obj(an, st, old[2][0]), self.handle_obj(an, st, new[2][0])
            if a == b:
                return 'same'
            if self.uf_group(an, st, b) == self.uf_group(an, st, o) and ('lt', O, ('O', b)) in st.facts:
                return 'link'
            return 'bad'
        if old[1] == rep and new[1] == rep:
            return 'weight'
        if old[1] == rep and new[1] == link:
            b = self.handle_obj(an, st, new[2][0])
            return 'merge' if b != o else 'bad'
        return 'bad'


def model(*paths, abstract=False):
    def deco(f):
        f._paths = paths
        f._abstract = abstract
        return f
    return deco


def node(an, st, v):
    """The symbol of the value a reference refers to."""
    v = an.deep(st, an.deref(st, v))
    return v


class StdModels(Models):
    # ---------------------------------------------------------------- user traits
    @model(GSC + 'Node::id', abstract=True)
    def m_id(self, an, st, fn, args, dty, t):
        k = ('id', node(an, st, args[0]))
        if k not in st.facts:
            st.facts[k] = an.fresh(st, dty)
        an.m.event(st, 'id', (k[1],), st.facts[k], t)
        return st.facts[k]

    @model(GSC + 'Node::get_edge', abstract=True)
    def m_edge(self, an, st, fn, args, dty, t):
        n, i = node(an, st, args[0]), node(an, st, args[1])
        k = ('edge', n, i)
        if k not in st.facts:
            if an.choose(st, 2) == 0:
                e = an.fresh(st, an.r.field_ty(dty, 1, 0))
                st.facts[k] = SOME(e)
                st.facts[('from', e)] = ('M', n, i)
            else:
                st.facts[k] = NONE()
            an.note(st, 'get_edge(%s, %s) = %s' % (an.m.nm(st, n), an.m.nm(st, i), 'Some' if st.facts[k][1] else 'None'))
        c = ('cnt', n, i)
        st.facts[c] = ('K', min(st.facts.get(c, ('K', 0))[1] + 1, 9))
        an.m.event(st, 'get_edge', (n, i), st.facts[k], t)
        return st.facts[k]

    @model(GSC + 'Node::equiv_modulo_edges', abstract=True)
    def m_ema(self, an, st, fn, args, dty, t):
        k = ('ema', node(an, st, args[0]), node(an, st, args[1]))
        if k not in st.facts:
            st.facts[k] = an.fresh(st, dty)
        an.note(st, 'equiv_modulo_edges(%s, %s)' % (an.m.nm(st, k[1]), an.m.nm(st, k[2])))
        an.m.event(st, 'ema', k[1:], st.facts[k], t)
        return st.facts[k]

    @model(GSC + 'Cmp::new_equiv', abstract=True)
    def m_new_equiv(self, an, st, fn, args, dty, t):
        v = an.fresh(st, dty)
        st.facts[('iseq', v)] = ('B', True)
        return v

    @model(GSC + 'Cmp::from_ord', abstract=True)
    def m_from_ord(self, an, st, fn, args, dty, t):
        o = an.variant(st, args[0])
        k = ('from_ord', o[1])
        if k not in st.facts:
            v = st.facts[k] = an.fresh(st, dty)
            st.facts[('iseq', v)] = ('B', o[1] == EQUAL)   # what Cmp asks of its implementations
        return st.facts[k]

    @model(GSC + 'Cmp::is_equiv', abstract=True)
    def m_is_equiv(self, an, st, fn, args, dty, t):
        c = node(an, st, args[0])
        if c[0] != 'S':
            raise Undecided('is_equiv of %r' % (c,))
        k = ('iseq', c)
        if k not in st.facts:
            st.facts[k] = ('B', an.choose(st, 2) == 0)
            an.note(st, 'is_equiv(%s) = %s' % (an.m.nm(st, c), st.facts[k][1]))
        return st.facts[k]

    @model('core::cmp::PartialEq::eq', abstract=True)
    def m_eq(self, an, st, fn, args, dty, t):
        return self.eq(an, st, args)

    @model('core::cmp::PartialEq::ne', abstract=True)
    def m_ne(self, an, st, fn, args, dty, t):
        return ('B', not self.eq(an, st, args)[1])

    def eq(self, an, st, args):
        a, b = node(an, st, args[0]), node(an, st, args[1])
        r = self.eqv(an, st, a, b)
        return ('B', r)

    def eqv(self, an, st, a, b):
        """Equality of two abstract values (the user's `Eq` is assumed to be an equivalence)."""
        if a == b:
            return True
        if a[0] == 'R' and b[0] == 'R':
            return self.eqv(an, st, an.deep(st, an.load(st, a[1], a[2])), an.deep(st, an.load(st, b[1], b[2])))
        if a[0] != 'S' or b[0] != 'S':
            raise Undecided('equality of %r and %r' % (a[:1], b[:1]))
        x, y = sorted((a, b))
        k = ('eq', x, y)
        if k not in st.facts:
            st.facts[k] = ('B', an.choose(st, 2) == 0)
            an.note(st, 'eq(%s, %s) = %s' % (an.m.nm(st, x), an.m.nm(st, y), st.facts[k][1]))
        return st.facts[k][1]

    @model('core::clone::Clone::clone', abstract=True)
    def m_clone(self, an, st, fn, args, dty, t):
        # a clone is indistinguishable from the original (Id, Index, Node, Rc)
        if fn['how'] not in ('abstract', 'opaque'):
            return None
        v = an.deref(st, args[0])
        an.m.event(st, 'clone', (an.deep(st, v),), v, t)
        return v

    @model('core::default::Default::default', abstract=True)
    def m_default(self, an, st, fn, args, dty, t):
        if fn['how'] != 'abstract':
            return None
        s = an.r.ts(dty)
        if s.endswith('::Index'):
            k = ('zero', s)
            if k not in st.facts:
                st.facts[k] = an.fresh(st, dty)
            return st.facts[k]
        v = an.fresh(st, dty)
        st.facts[('clean', v)] = ('K', 1)
        an.m.event(st, 'default', (), v, t)
        return v

    @model(GSC + 'like_anticipated::step::Step::increment', abstract=True)
    def m_inc(self, an, st, fn, args, dty, t):
        return self.incremented(an, st, node(an, st, args[0]), dty)

    def incremented(self, an, st, i, dty):
        k = ('inc', i)
        if k not in st.facts:
            if an.choose(st, 2) == 0:
                st.facts[k] = SOME(an.fresh(st, an.r.field_ty(dty, 1, 0)))
            else:
                st.facts[k] = NONE()
        return st.facts[k]

    @model('core::iter::range::Step::forward_checked', abstract=True)
    def m_forward(self, an, st, fn, args, dty, t):
        n = an.deep(st, args[1])
        if n[:2] != ('I', 1):
            self.bad_step(an, st, 'the index is advanced by other than one (%s)' % (n,))
        return self.incremented(an, st, an.deep(st, args[0]), dty)

    def bad_step(self, an, st, msg):
        an.report(st, 'pairs', msg)
        an.report(st, 'step', msg)
        raise Stop()

    @model('core::iter::range::Step::forward', 'core::iter::range::Step::forward_unchecked', abstract=True)
    def m_forward_panics(self, an, st, fn, args, dty, t):
        n, i = an.deep(st, args[1]), an.deep(st, args[0])
        if n[:2] != ('I', 1):
            self.bad_step(an, st, 'the index is advanced by other than one (%s)' % (n,))
        k = ('inc', i)
        if k not in st.facts and an.choose(st, 2) == 0:
            st.facts[k] = SOME(an.fresh(st, dty))
        if k not in st.facts or st.facts[k] == NONE():
            an.report(st, 'panic', 'the last index is advanced')
            self.bad_step(an, st, 'the last index is advanced, rather than being the end')
        return st.facts[k][2][0]

    @model('core::convert::Into::into', 'core::convert::From::from', abstract=True)
    def m_into(self, an, st, fn, args, dty, t):
        if fn['how'] != 'abstract':
            return None
        a = an.deep(st, args[0])
        if a[0] == 'S' and not an.r.inhabited(a[2]):
            raise Infeasible()
        k = ('into', a, an.r.ts(dty))
        if k not in st.facts:
            st.facts[k] = an.fresh(st, dty)
        if ('clean', a) in st.facts:
            st.facts[('clean', st.facts[k])] = ('K', 1)
        return st.facts[k]

    @model('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut', abstract=True)
    def m_deref(self, an, st, fn, args, dty, t):
        if fn['how'] == 'body':
            return None
        root, path = an.pointer(st, args[0])
        v = an.load(st, root, path)
        if v[0] == 'D' or (v[0] == 'S' and self.seq_type(an, v[2])):
            return ('R', root, path)  # a vector seen as a slice
        if v[0] == 'S' and an.r.T[v[2]]['k'] in ('ref', 'ptr'):
            return ('R',) + an.pointer(st, v)
        if v[0] == 'S' and an.m.generic_deref(v[2]):
            k = ('deref', v)
            if k not in st.facts:
                o = an.new_obj(st, ('X', 'target'), 'lazy')
                st.facts[k] = ('O', o)
            return ('R', st.facts[k], ())
        o = self.handle_obj(an, st, v)
        return ('R', ('O', o), ())

    @model(GSC + 'generic::equiv_classes::Rc::new', 'alloc::rcs::rc::Rc::new', 'alloc::rc::Rc::new',
           'alloc::boxed::Box::new', 'alloc::sync::Arc::new', abstract=True)
    def m_rc_new(self, an, st, fn, args, dty, t):
        if fn['how'] == 'body':
            return None
        o = an.new_obj(st, args[0], 'fresh')
        an.m.event(st, 'rc_new', (args[0],), ('O', o), t)
        if fn['how'] == 'abstract':
            h = an.fresh(st, dty)
            st.facts[('deref', h)] = ('O', o)
            return h
        return ('P', o)

    @model('alloc::rcs::rc::Rc::ptr_eq', 'alloc::rc::Rc::ptr_eq')
    def m_ptr_eq(self, an, st, fn, args, dty, t):
        a = self.handle_obj(an, st, an.deref(st, args[0]))
        b = self.handle_obj(an, st, an.deref(st, args[1]))
        return ('B', a == b)

    @model(GSC + 'generic::equiv_classes::Table::get', abstract=True)
    def m_tget(self, an, st, fn, args, dty, t):
        tab, k = node(an, st, args[0]), node(an, st, args[1])
        return self.map_get(an, st, tab, k, dty, t, an.r.field_ty(dty, 1, 0))

    @model(GSC + 'generic::equiv_classes::Table::insert', abstract=True)
    def m_tinsert(self, an, st, fn, args, dty, t):
        tab, k = node(an, st, args[0]), an.deep(st, args[1])
        self.map_set(an, st, tab, k, args[2], t)
        return UNIT

    @model('std::collections::hash::map::HashMap::get')
    def m_hget(self, an, st, fn, args, dty, t):
        tab, k = node(an, st, args[0]), node(an, st, args[1])
        return self.map_get(an, st, tab, k, dty, t, an.r.field_ty(dty, 1, 0))

    @model('std::collections::hash::map::HashMap::contains_key')
    def m_hhas(self, an, st, fn, args, dty, t):
        tab, k = node(an, st, args[0]), node(an, st, args[1])
        r = self.map_get(an, st, tab, k, None, t, None)
        return ('B', r[1] == 1)

    @model('std::collections::hash::map::HashMap::insert')
    def m_hinsert(self, an, st, fn, args, dty, t):
        tab, k = node(an, st, args[0]), an.deep(st, args[1])
        self.map_set(an, st, tab, k, args[2], t)
        return ('S', an.new_id(st), dty)

    @model('std::collections::hash::map::HashMap::get_mut')
    def m_hget_mut(self, an, st, fn, args, dty, t):
        return self.m_hget(an, st, fn, args, dty, t)

    @model('std::collections::hash::map::HashMap::get_key_value')
    def m_hget_kv(self, an, st, fn, args, dty, t):
        tab, k = node(an, st, args[0]), node(an, st, args[1])
        pair = an.r.field_ty(dty, 1, 0)
        v = self.map_get(an, st, tab, k, dty, t, an.r.T[pair]['f'][1])
        return SOME(('A', 0, (args[1], v[2][0]))) if v[1] else NONE()

    @model('<std::collections::hash::map::HashMap as core::ops::index::Index>::index')
    def m_hindex(self, an, st, fn, args, dty, t):
        tab, k = node(an, st, args[0]), node(an, st, args[1])
        v = self.map_get(an, st, tab, k, dty, t, dty)
        if v[1] == 0:
            an.panic(st, 'no entry of the table for this key', t.get('at'))
        return v[2][0]

    @model('<std::collections::hash::map::HashMap as core::iter::traits::collect::Extend>::extend')
    def m_hextend(self, an, st, fn, args, dty, t):
        v = an.deep(st, args[1])
        ty = an.r.T[t['at_'][1]]
        if v[0] != 'A' or ty['k'] == 'adt' and ty['p'] != 'core::option::Option' or ty['k'] not in ('array', 'adt'):
            raise Undecided('extends a table by %s' % ty['s'])
        for e in v[2]:
            self.map_set(an, st, node(an, st, args[0]), e[2][0], e[2][1], t)
        return UNIT

    @model('std::collections::hash::map::HashMap::reserve', 'std::collections::hash::map::HashMap::len',
           'std::collections::hash::map::HashMap::is_empty', 'std::collections::hash::map::HashMap::capacity',
           'std::collections::hash::map::HashMap::shrink_to_fit', 'std::collections::hash::map::HashMap::shrink_to',
           'std::collections::hash::map::HashMap::try_reserve')
    def m_hother(self, an, st, fn, args, dty, t):
        if fn['path'].endswith('reserve'):
            an.m.event(st, 'room', (args[1],), UNIT, t)
        elif 'shrink' in fn['path']:
            an.m.event(st, 'no_room', (), UNIT, t)
        return an.fresh(st, dty)

    @model('std::collections::hash::map::HashMap::clear', 'std::collections::hash::map::HashMap::remove',
           'std::collections::hash::map::HashMap::remove_entry', 'std::collections::hash::map::HashMap::drain',
           'std::collections::hash::map::HashMap::retain', 'std::collections::hash::map::OccupiedEntry::remove')
    def m_hlose(self, an, st, fn, args, dty, t):
        key = tuple(an.deep(st, a) for a in args[1:]) if fn['path'].rsplit('::', 1)[1].startswith('remove') else ()
        an.m.event(st, 'table_lose', key, UNIT, t)
        raise Undecided('what is left in a table')

    # any of what is recorded may come, in any order
    @model('std::collections::hash::map::HashMap::keys', 'std::collections::hash::map::HashMap::values',
           'std::collections::hash::map::HashMap::iter',
           '<std::collections::hash::map::Keys as core::iter::traits::iterator::Iterator>::next',
           '<std::collections::hash::map::Values as core::iter::traits::iterator::Iterator>::next',
           '<std::collections::hash::map::Iter as core::iter::traits::iterator::Iterator>::next',
           '<std::collections::hash::map::Keys as core::iter::traits::exact_size::ExactSizeIterator>::len',
           'core::any::type_name', 'core::any::type_name_of_val', 'str::len', 'str::is_empty')
    def m_any(self, an, st, fn, args, dty, t):
        return an.fresh(st, dty)

    # an entry is: (table, key), as an occupied or a vacant one
    @model('std::collections::hash::map::HashMap::entry')
    def m_hentry(self, an, st, fn, args, dty, t):
        tab, k = node(an, st, args[0]), an.deep(st, args[1])
        te = an.r.T[dty]
        v = self.map_get(an, st, tab, k, None, t, None) if self.map_key(an, st, tab, k) is not None else None
        if v is None:
            ref = [i for i, x in enumerate(an.r.T) if x['k'] == 'ref' and x['t'] == te['a'][1]]
            v = self.map_get(an, st, tab, k, dty, t, ref[0] if ref else None)
        e = ('A', 0, (args[0], k, v[2][0])) if v[1] else ('A', 0, (args[0], k))
        return ('A', 0 if v[1] else 1, (e,))

    def entry_set(self, an, st, e, v, t):
        tab = node(an, st, e[2][0])
        self.map_set(an, st, tab, e[2][1], v, t)
        f = self.map_key(an, st, tab, e[2][1])
        return st.facts[f][1][2][0]

    @model('std::collections::hash::map::VacantEntry::insert')
    def m_ventry_insert(self, an, st, fn, args, dty, t):
        return self.entry_set(an, st, an.deep(st, args[0]), args[1], t)

    @model('std::collections::hash::map::OccupiedEntry::insert')
    def m_oentry_insert(self, an, st, fn, args, dty, t):
        e = an.deep(st, an.deref(st, args[0]))
        old = an.deref(st, e[2][2])
        self.entry_set(an, st, e, args[1], t)
        return old

    @model('std::collections::hash::map::OccupiedEntry::get')
    def m_oentry_get(self, an, st, fn, args, dty, t):
        return an.deep(st, an.deref(st, args[0]))[2][2]

    @model('std::collections::hash::map::OccupiedEntry::get_mut')
    def m_oentry_mut(self, an, st, fn, args, dty, t):
        # what is written through it is an insertion that goes unseen
        return an.deep(st, an.deref(st, args[0]))[2][2]

    @model('std::collections::hash::map::OccupiedEntry::into_mut')
    def m_oentry_into(self, an, st, fn, args, dty, t):
        return an.deep(st, args[0])[2][2]

    @model('std::collections::hash::map::Entry::or_insert')
    def m_entry_or(self, an, st, fn, args, dty, t):
        v = an.deep(st, args[0])
        e = v[2][0]
        return e[2][2] if v[1] == 0 else self.entry_set(an, st, e, args[1], t)

    @model('std::collections::hash::map::HashMap::with_capacity', 'std::collections::hash::map::HashMap::new',
           'std::collections::hash::map::HashMap::with_capacity_and_hasher')
    def m_hnew(self, an, st, fn, args, dty, t):
        if args and 'capacity' in fn['path']:
            an.m.event(st, 'room', (args[0],), UNIT, t)
        v = ('S', an.new_id(st), dty)
        st.facts[('emptymap', v)] = ('K', 1)
        return v

    @model('<std::collections::hash::map::HashMap as core::default::Default>::default')
    def m_hdefault(self, an, st, fn, args, dty, t):
        return self.m_hnew(an, st, fn, args, dty, t)

    def map_key(self, an, st, tab, k):
        """The key as which `k` is already known in the table, if the user's `Eq` says so."""
        for f in sorted((f for f in st.facts if f[0] == 'tab' and f[1] == tab), key=repr):
            if f[2] == k:
                return f
        for f in sorted((f for f in st.facts if f[0] == 'tab' and f[1] == tab), key=repr):
            if self.eqv(an, st, f[2], k):
                return f
        return None

    def map_get(self, an, st, tab, k, dty, t, refty):
        f = self.map_key(an, st, tab, k)
        if f is None:
            f = ('tab', tab, k)
            if ('emptymap', tab) in st.facts or an.choose(st, 2) == 0:
                st.facts[f] = ('M', NONE())
            else:
                rt = an.r.T[refty]['t'] if refty is not None else None
                h = an.fresh(st, rt) if rt is not None else ('X', 'v')
                if rt is not None and an.m.shared_classes:
                    self.materialise(an, st, h)
                o = an.new_obj(st, h, 'lazy')
                st.facts[f] = ('M', SOME(('R', ('O', o), ())))
            st.facts[('pre', tab, k)] = st.facts[f]
        v = st.facts[f][1]
        an.note(st, 'lookup(%s) = %s' % (an.m.nm(st, k), 'Some' if v[1] else 'None'))
        an.m.event(st, 'table_get', (tab, k), v, t)
        return v

    def map_set(self, an, st, tab, k, v, t):
        f = self.map_key(an, st, tab, k) or ('tab', tab, k)
        o = an.new_obj(st, v, 'lazy')
        st.facts[f] = ('M', SOME(('R', ('O', o), ())))
        an.note(st, 'insert(%s)' % an.m.nm(st, k))
        an.m.event(st, 'table_insert', (tab, k, v), UNIT, t)

    @model(GSC + 'cycle_safe::modes::interleave::random::NumberGenerator::rand_upto', abstract=True)
    def m_rand(self, an, st, fn, args, dty, t):
        end = an.intv(st, args[1])
        r = an.fresh(st, dty)
        an.assume(st, num.shift(num.sub(end, r[1:]), -1))
        root, path = an.pointer(st, args[0])
        an.m.event(st, 'rand', (('I',) + end, ('R', root, path)), r, t)
        an.store(st, root, path, an.fresh(st, an.r.T[t['at_'][0]]['t']))
        return r

    def result(self, an, st, dty, okv=None):
        """An unknown Result: Ok(fresh) or Err(fresh)."""
        vs = an.r.variants(dty)
        v = vs[an.choose(st, len(vs))]
        return ('A', v, (an.fresh(st, an.r.field_ty(dty, v, 0)),))

    @model(GSC + 'generic::modes::DescendMode::do_traverse', abstract=True)
    def m_do_traverse(self, an, st, fn, args, dty, t):
        r = self.result(an, st, dty)
        if r[1] == 0:
            r = OK(('B', an.boolean(st, r[2][0])))
        an.note(st, 'do_traverse() = %s' % an.m.show(st, r))
        self.havoc(an, st, args[0])
        an.m.event(st, 'do_traverse', (args[0],), r, t)
        return r

    @model(GSC + 'generic::modes::DescendMode::do_edges', abstract=True)
    def m_do_edges(self, an, st, fn, args, dty, t):
        r = self.result(an, st, dty)
        if r[1] == 0:
            r = OK(('B', an.boolean(st, r[2][0])))
        a, b = node(an, st, args[1]), node(an, st, args[2])
        an.note(st, 'do_edges(%s, %s) = %s' % (an.m.nm(st, a), an.m.nm(st, b), an.m.show(st, r)))
        self.havoc(an, st, args[0])
        an.m.event(st, 'do_edges', (args[0], a, b), r, t)
        return r

    @model(GSC + 'generic::recursion::RecurMode::recur', abstract=True)
    def m_recur(self, an, st, fn, args, dty, t):
        r = self.result(an, st, dty)
        an.note(st, 'recur() = %s' % an.m.show(st, r))
        it = an.pointer(st, args[0])
        an.m.event(st, 'recur', (args[0], an.deep(st, args[1])), r, t)
        an.store(st, it[0], it[1], an.fresh(st, an.r.T[t['at_'][0]]['t']))
        return r

    @model(GSC + 'generic::recursion::RecurMode::next', abstract=True)
    def m_next(self, an, st, fn, args, dty, t):
        c = an.choose(st, 3)
        if c == 0:
            r = NONE()
        else:
            rt = an.r.field_ty(dty, 1, 0)
            r = SOME(('A', c - 1, (an.fresh(st, an.r.field_ty(rt, c - 1, 0)),)))
        an.note(st, 'next() = %s' % an.m.show(st, r))
        self.havoc(an, st, args[0])
        an.m.event(st, 'next', (args[0],), r, t)
        return r

    @model(GSC + 'generic::recursion::RecurMode::reset', abstract=True)
    def m_reset(self, an, st, fn, args, dty, t):
        v = an.fresh(st, dty)
        st.facts[('clean', v)] = ('K', 1)
        an.m.event(st, 'reset', (an.deep(st, args[0]),), v, t)
        return v

    def havoc(self, an, st, ptr):
        root, path = an.pointer(st, ptr)
        v = an.load(st, root, path)
        if v[0] == 'S':
            an.store(st, root, path, ('S', an.new_id(st), v[2]))

    @model('gsc_client::Observer::more', abstract=True)
    def m_more(self, an, st, fn, args, dty, t):
        b = ('B', an.choose(st, 2) == 0)
        an.m.event(st, 'more', (), b, t)
        return b

    @model('gsc_client::Observer::yielded', abstract=True)
    def m_yielded(self, an, st, fn, args, dty, t):
        an.m.event(st, 'yielded', (an.deep(st, args[0]),), UNIT, t)
        return UNIT

    @model('gsc_client::Observer::ended', abstract=True)
    def m_ended(self, an, st, fn, args, dty, t):
        an.m.event(st, 'ended', (), UNIT, t)
        return UNIT

    @model('core::ptr::hash')
    def m_ptr_hash(self, an, st, fn, args, dty, t):
        an.m.event(st, 'hash', (an.ptr_norm(st, args[0]),), UNIT, t)
        return UNIT

    @model('<*T as core::hash::Hash>::hash')
    def m_ptr_hash2(self, an, st, fn, args, dty, t):
        an.m.event(st, 'hash', (an.ptr_norm(st, an.deref(st, args[0])),), UNIT, t)
        return UNIT

    @model('core::hash::Hash::hash', abstract=True)
    def m_hash(self, an, st, fn, args, dty, t):
        v = node(an, st, args[0])
        an.m.event(st, 'hash', (v,), UNIT, t)
        return UNIT

    @model('core::hash::Hasher::write')
    def m_hash_bytes(self, an, st, fn, args, dty, t):
        an.m.event(st, 'hash', (an.deep(st, an.deref(st, args[1])),), UNIT, t)
        return UNIT

    @model(*['core::hash::Hasher::write_' + x for x in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128',
                                                       'isize')], abstract=True)
    def m_hash_int(self, an, st, fn, args, dty, t):
        v = ('I',) + an.intv(st, args[1])
        for f, r in st.facts.items():
            if f[0] == 'addr' and ('I',) + an.intv(st, r) == v:
                v = f[1]
                break
        an.m.event(st, 'hash', (v,), UNIT, t)
        return UNIT

    @model('core::mem::size_of_val', 'core::mem::align_of_val', 'core::intrinsics::size_of_val', 'core::intrinsics::align_of_val')
    def m_layout(self, an, st, fn, args, dty, t):
        return an.fresh(st, dty)

    # ---------------------------------------------------------------- cells and memory
    @model('core::cell::Cell::new', 'core::cell::Cell::from')
    def m_cell_new(self, an, st, fn, args, dty, t):
        return ('A', 0, (args[0],))

    def cell(self, an, st, p):
        root, path = an.pointer(st, p)
        v = an.load(st, root, path)
        if v[0] != 'A' or len(v[2]) != 1:
            raise Undecided('cell %r' % (v[:1],))
        return root, path, v[2][0]

    def cell_put(self, an, st, root, path, v):
        an.m.event(st, 'cell_set', (('R', root, path), an.deep(st, v)), UNIT, None)
        an.store(st, root, path, ('A', 0, (v,)))

    @model('core::cell::Cell::set')
    def m_cell_set(self, an, st, fn, args, dty, t):
        root, path, _ = self.cell(an, st, args[0])
        self.cell_put(an, st, root, path, args[1])
        return UNIT

    @model('core::cell::Cell::replace')
    def m_cell_replace(self, an, st, fn, args, dty, t):
        root, path, old = self.cell(an, st, args[0])
        self.cell_put(an, st, root, path, args[1])
        return old

    @model('core::cell::Cell::get')
    def m_cell_get(self, an, st, fn, args, dty, t):
        return self.cell(an, st, args[0])[2]

    @model('core::cell::Cell::swap')
    def m_cell_swap(self, an, st, fn, args, dty, t):
        r1, p1, v1 = self.cell(an, st, args[0])
        r2, p2, v2 = self.cell(an, st, args[1])
        self.cell_put(an, st, r1, p1, v2)
        self.cell_put(an, st, r2, p2, v1)
        return UNIT

    @model('core::cell::Cell::into_inner')
    def m_cell_into(self, an, st, fn, args, dty, t):
        v = an.res(st, args[0])
        return v[2][0]

    @model('core::cell::Cell::get_mut', 'core::cell::Cell::as_ptr')
    def m_cell_mut(self, an, st, fn, args, dty, t):
        root, path = an.pointer(st, args[0])
        return ('R', root, path + (0,))

    @model('core::mem::replace', 'core::ptr::replace')
    def m_replace(self, an, st, fn, args, dty, t):
        root, path = an.pointer(st, args[0])
        old = an.load(st, root, path)
        an.store(st, root, path, args[1])
        return old

    @model('core::mem::swap')
    def m_swap(self, an, st, fn, args, dty, t):
        r1, p1 = an.pointer(st, args[0])
        r2, p2 = an.pointer(st, args[1])
        a, b = an.load(st, r1, p1), an.load(st, r2, p2)
        an.store(st, r1, p1, b)
        an.store(st, r2, p2, a)
        return UNIT

    @model('core::ptr::read', 'core::ptr::const_ptr::read', '*T::read', 'core::intrinsics::read_via_copy')
    def m_read(self, an, st, fn, args, dty, t):
        return an.deref(st, args[0])

    @model('core::ptr::write', 'core::intrinsics::write_via_move', '*T::write')
    def m_write(self, an, st, fn, args, dty, t):
        root, path = an.pointer(st, args[0])
        an.store(st, root, path, args[1])
        return UNIT

    @model('core::mem::forget', 'core::mem::drop_nothing')
    def m_forget(self, an, st, fn, args, dty, t):
        an.m.event(st, 'forget', (an.deep(st, args[0]),), UNIT, t)
        return UNIT

    @model('core::any::type_name', 'core::mem::size_of', 'core::mem::align_of', 'core::mem::needs_drop',
           'core::intrinsics::size_of', 'core::intrinsics::needs_drop')
    def m_reflect(self, an, st, fn, args, dty, t):
        return an.fresh(st, dty)

    # ---------------------------------------------------------------- integers
    def range_of(self, an, fn, args, dty, t):
        return an.int_range(t['at_'][0])

    def sat(self, an, st, m, ty):
        lo, hi = an.int_range(ty)
        if not an.test(st, num.shift(m, -lo)):
            return ('I', lo, ())
        if not an.test(st, num.shift(num.scale(m, -1), hi)):
            return ('I', hi, ())
        return ('I',) + m

    @model('core::intrinsics::saturating_add')
    def m_sat_add(self, an, st, fn, args, dty, t):
        return self.sat(an, st, num.add(an.intv(st, args[0]), an.intv(st, args[1])), dty)

    @model('core::intrinsics::saturating_sub')
    def m_sat_sub(self, an, st, fn, args, dty, t):
        return self.sat(an, st, num.sub(an.intv(st, args[0]), an.intv(st, args[1])), dty)

    @model('core::intrinsics::integer_max', 'core::intrinsics::integer_min')
    def m_max(self, an, st, fn, args, dty, t):
        x, y = an.intv(st, args[0]), an.intv(st, args[1])
        return ('I',) + (x if an.compare(st, 'Ge', x, y) == fn['path'].endswith('max') else y)

    @model('core::intrinsics::unchecked_add', 'core::intrinsics::unchecked_sub', 'core::intrinsics::unchecked_mul')
    def m_unchecked(self, an, st, fn, args, dty, t):
        x, y = an.intv(st, args[0]), an.intv(st, args[1])
        m = an.arith(st, fn['path'].rsplit('_', 1)[1].capitalize(), x, y, dty)
        return an.fresh(st, dty) if m is None else ('I',) + m

    @model('core::intrinsics::unchecked_shl', 'core::intrinsics::unchecked_shr', 'core::intrinsics::disjoint_bitor')
    def m_bits(self, an, st, fn, args, dty, t):
        op = {'shl': 'Shl', 'shr': 'Shr', 'bitor': 'BitOr'}[fn['path'].rsplit('_', 1)[1]]
        return an.binop(st, op, args[0], args[1], t['at_'][0])

    @model('core::intrinsics::ctpop', 'core::intrinsics::ctlz', 'core::intrinsics::cttz', 'core::intrinsics::ctlz_nonzero',
           'core::intrinsics::cttz_nonzero')
    def m_count_bits(self, an, st, fn, args, dty, t):
        an.intv(st, args[0])
        return an.fresh_int(st, 0, an.r.T[t['at_'][0]]['bits'])

    @model('core::intrinsics::rotate_left', 'core::intrinsics::rotate_right', 'core::intrinsics::bswap',
           'core::intrinsics::bitreverse', 'core::intrinsics::unchecked_funnel_shl', 'core::intrinsics::unchecked_funnel_shr')
    def m_any_int(self, an, st, fn, args, dty, t):
        return an.fresh(st, dty)

    @model('core::intrinsics::select_unpredictable')
    def m_select(self, an, st, fn, args, dty, t):
        return args[1] if an.boolean(st, args[0]) else args[2]

    @model('core::intrinsics::black_box', 'core::hint::black_box')
    def m_black_box(self, an, st, fn, args, dty, t):
        return args[0]

    @model('core::intrinsics::three_way_compare')
    def m_three_way(self, an, st, fn, args, dty, t):
        x, y = an.intv(st, args[0]), an.intv(st, args[1])
        if an.compare(st, 'Lt', x, y):
            return ('A', LESS, ())
        return ('A', EQUAL if an.compare(st, 'Eq', x, y) else GREATER, ())

    def wrapping(self, an, st, op, args, dty):
        x, y = an.intv(st, args[0]), an.intv(st, args[1])
        m = an.arith(st, op, x, y, dty)
        if m is None:
            return an.fresh(st, dty)
        return ('I',) + an.wrap(st, m, dty)[0]

    @model('core::intrinsics::wrapping_add')
    def m_wadd(self, an, st, fn, args, dty, t):
        return self.wrapping(an, st, 'Add', args, dty)

    @model('core::intrinsics::wrapping_sub')
    def m_wsub(self, an, st, fn, args, dty, t):
        return self.wrapping(an, st, 'Sub', args, dty)

    @model('core::intrinsics::wrapping_mul')
    def m_wmul(self, an, st, fn, args, dty, t):
        return self.wrapping(an, st, 'Mul', args, dty)

    @model('core::intrinsics::unchecked_rem')
    def m_urem(self, an, st, fn, args, dty, t):
        return ('I',) + an.divrem(st, 'Rem', an.intv(st, args[0]), an.intv(st, args[1]), dty)

    @model('core::intrinsics::unchecked_div', 'core::intrinsics::exact_div')
    def m_udiv(self, an, st, fn, args, dty, t):
        return ('I',) + an.divrem(st, 'Div', an.intv(st, args[0]), an.intv(st, args[1]), dty)

    @model('core::intrinsics::unlikely', 'core::intrinsics::likely', 'core::hint::unlikely', 'core::hint::likely')
    def m_likely(self, an, st, fn, args, dty, t):
        return args[0]

    @model('core::hint::assert_unchecked', 'core::intrinsics::assume')
    def m_assume(self, an, st, fn, args, dty, t):
        if not an.boolean(st, args[0]):
            raise Infeasible()
        return UNIT

    @model('core::hint::unreachable_unchecked', 'core::intrinsics::unreachable')
    def m_unreachable(self, an, st, fn, args, dty, t):
        raise Infeasible()

    @model('core::num::nonzero::NonZero::get')
    def m_nz_get(self, an, st, fn, args, dty, t):
        return ('I',) + an.intv(st, args[0])

    @model('core::num::nonzero::NonZero::new')
    def m_nz_new(self, an, st, fn, args, dty, t):
        x = an.intv(st, args[0])
        if an.compare(st, 'Eq', x, num.const(0)):
            return NONE()
        return SOME(('I',) + x)

    @model('core::num::nonzero::NonZero::new_unchecked')
    def m_nz_newu(self, an, st, fn, args, dty, t):
        return ('I',) + an.intv(st, args[0])

    @model('<u16 as core::ops::arith::Rem>::rem', '<u32 as core::ops::arith::Rem>::rem',
           '<u64 as core::ops::arith::Rem>::rem', '<usize as core::ops::arith::Rem>::rem')
    def m_rem(self, an, st, fn, args, dty, t):
        b = an.intv(st, args[1])
        if not num.entails(st.num, num.shift(b, -1)):
            if an.compare(st, 'Eq', b, num.const(0)):
                an.panic(st, 'remainder by zero', t.get('at'))
        return ('I',) + an.divrem(st, 'Rem', an.intv(st, args[0]), b, dty)

    # ---------------------------------------------------------------- random-number crates
    @model('wyhash::functions::wyrng')
    def m_wyrng(self, an, st, fn, args, dty, t):
        root, path = an.pointer(st, args[0])
        an.store(st, root, path, an.fresh(st, an.r.T[t['at_'][0]]['t']))
        an.m.event(st, 'rng_advance', (), UNIT, t)
        return an.fresh(st, dty)

    def ranged(self, an, st, rng, dty, t, ty=None):
        """A number of a range; the crates panic on an empty range."""
        r = an.deep(st, rng)
        kind = an.r.T[ty].get('p', '').rsplit('::', 1)[-1] if ty is not None else 'Range'
        full = an.int_range(dty)
        if kind in ('Range', 'RangeInclusive', 'RangeFrom'):
            lo = an.intv(st, r[2][0])
        else:
            lo = num.const(full[0])
        if kind in ('Range', 'RangeInclusive'):
            hi = an.intv(st, r[2][1])
        elif kind in ('RangeTo', 'RangeToInclusive'):
            hi = an.intv(st, r[2][0])
        elif kind in ('RangeFull', 'RangeFrom'):
            hi, kind = num.const(full[1]), 'RangeInclusive'
        else:
            raise Undecided('a range of type %s' % kind)
        if kind.endswith('Inclusive'):
            hi = num.shift(hi, 1)
        if not an.test(st, num.shift(num.sub(hi, lo), -1)):
            an.panic(st, 'empty range of random numbers', t.get('at'))
        v = an.fresh(st, dty)
        an.assume(st, num.sub(v[1:], lo))
        an.assume(st, num.shift(num.sub(hi, v[1:]), -1))
        return v

    def advance(self, an, st, args, t):
        """The generator, if it is an argument, goes on to another state."""
        if args and an.r.T[t['at_'][0]]['k'] == 'ref':
            root, path = an.pointer(st, args[0])
            an.store(st, root, path, an.fresh(st, an.r.T[t['at_'][0]]['t']))
        an.m.event(st, 'rng_advance', (), UNIT, t)

    @model('oorandom::Rand32::rand_range')
    def m_oo(self, an, st, fn, args, dty, t):
        self.advance(an, st, args, t)
        return self.ranged(an, st, args[1], dty, t)

    @model('oorandom::Rand32::rand_float', 'oorandom::Rand64::rand_float', 'fastrand::f32', 'fastrand::f64')
    def m_rand_float(self, an, st, fn, args, dty, t):
        self.advance(an, st, args, t)
        return ('X', 'float')

    @model('oorandom::Rand32::rand_u32', 'oorandom::Rand32::rand_i32', 'oorandom::Rand64::rand_u64', 'oorandom::Rand64::rand_i64')
    def m_rand_any(self, an, st, fn, args, dty, t):
        self.advance(an, st, args, t)
        return an.fresh(st, dty)

    @model('oorandom::Rand32::state', 'oorandom::Rand32::new', 'oorandom::Rand64::new')
    def m_rand_state(self, an, st, fn, args, dty, t):
        return an.fresh(st, dty)

    @model('std::hash::random::DefaultHasher::new', '<std::hash::random::DefaultHasher as core::hash::Hasher>::finish')
    def m_hasher(self, an, st, fn, args, dty, t):
        return an.fresh(st, dty)

    @model('oorandom::Rand32::from_state')
    def m_oo_new(self, an, st, fn, args, dty, t):
        return an.fresh(st, dty)

    @model('fastrand::u16', 'fastrand::u32', 'fastrand::u64', 'fastrand::usize')
    def m_fast(self, an, st, fn, args, dty, t):
        an.m.event(st, 'rng_advance', (), UNIT, t)
        return self.ranged(an, st, args[0], dty, t, t['at_'][0])

    @model('fastrand::Rng::u16', 'fastrand::Rng::u32', 'fastrand::Rng::u64', 'fastrand::Rng::usize')
    def m_fast_rng(self, an, st, fn, args, dty, t):
        self.advance(an, st, args, t)
        return self.ranged(an, st, args[1], dty, t, t['at_'][1])

    @model('fastrand::Rng::new')
    def m_fast_new(self, an, st, fn, args, dty, t):
        an.m.event(st, 'rng_advance', (), UNIT, t)
        return an.fresh(st, dty)

    @model('fastrand::Rng::with_seed', 'fastrand::seed', 'fastrand::Rng::seed')
    def m_fast_seed(self, an, st, fn, args, dty, t):
        an.m.event(st, 'rng_seeded', (), UNIT, t)
        if len(args) == 2:
            self.advance(an, st, args, t)
        return an.fresh(st, dty)

    # ---------------------------------------------------------------- sequences
    def seq_type(self, an, ty):
        t = an.r.T[ty]
        return t['k'] == 'adt' and t['p'] in ('alloc::collections::vec_deque::VecDeque', 'alloc::vec::Vec')

    def seq(self, an, st, p):
        root, path = an.pointer(st, p)
        v = an.load(st, root, path)
        if v[0] == 'S' and self.seq_type(an, v[2]):
            et = an.r.T[v[2]]['a'][0]
            r = an.new_id(st)
            st.facts[('elt', ('S', r, -2))] = ('K', et)
            v = ('D', (), r, ())
            an.store(st, root, path, v)
        if v[0] != 'D':
            raise Undecided('sequence %r' % (v[:1],))
        return root, path, v

    def split_seq(self, an, st, v, front):
        """Make an element visible at an end.  Returns the sequence, or None when it is empty."""
        _, fr, rest, bk = v
        if front and fr or (not front and bk):
            return v
        if rest:
            rs = ('S', rest, -2)
            n = st.facts.get(('len', rs))
            if an.choose(st, 2) == 0:
                et = st.facts[('elt', rs)][1]
                e = an.m.element(st, et)
                r2 = an.new_id(st)
                st.facts[('elt', ('S', r2, -2))] = ('K', et)
                if n is not None:
                    an.assume(st, num.shift(n[1:], -1))
                    # no relation to the previous length: the lengths would not converge in loops
                    lo, hi = num.bounds(st.num, n[1:])
                    st.facts[('len', ('S', r2, -2))] = ('I', 0, ()) if hi == 1 else an.fresh_int(st, 0, (1 << 64) - 1)
                an.m.event(st, 'uncons', (rs, e, ('S', r2, -2), ('B', front)), UNIT, None)
                return ('D', fr + (e,), r2, bk) if front else ('D', fr, r2, (e,) + bk)
            if n is not None:
                an.assume(st, num.scale(n[1:], -1))
            an.m.event(st, 'empty', (rs,), UNIT, None)
            rest = 0
        if front and bk:
            return ('D', bk[:1], 0, bk[1:]) if len(bk) > 1 else ('D', bk, 0, ())
        if not front and fr:
            return ('D', fr[:-1], 0, fr[-1:])
        return None

    def end_mut(self, an, st, args, front):
        root, path, v = self.seq(an, st, args[0])
        n = self.split_seq(an, st, v, front)
        if n is None:
            an.store(st, root, path, ('D', (), 0, ()))
            return NONE()
        an.store(st, root, path, n)
        return SOME(('R', root, path + (('ef', 0) if front else ('eb', 0),)))

    def pop(self, an, st, args, front, t):
        root, path, v = self.seq(an, st, args[0])
        n = self.split_seq(an, st, v, front)
        if n is None:
            an.store(st, root, path, ('D', (), 0, ()))
            return NONE()
        if front:
            e, n = n[1][0], ('D', n[1][1:], n[2], n[3])
        else:
            e, n = n[3][-1], ('D', n[1], n[2], n[3][:-1])
        an.store(st, root, path, n)
        an.m.event(st, 'pop', (e, ('B', front)), UNIT, t)
        return SOME(e)

    @model('alloc::collections::vec_deque::VecDeque::front_mut', 'alloc::collections::vec_deque::VecDeque::front',
           '[T]::first_mut', '[T]::first')
    def m_front(self, an, st, fn, args, dty, t):
        v = an.deref(st, args[0])
        if v[0] == 'A':
            return SOME(('R',) + self.sub(an, st, args[0], 0)) if v[2] else NONE()
        return self.end_mut(an, st, args, True)

    @model('alloc::collections::vec_deque::VecDeque::back_mut', 'alloc::collections::vec_deque::VecDeque::back',
           '[T]::last_mut', '[T]::last')
    def m_back(self, an, st, fn, args, dty, t):
        v = an.deref(st, args[0])
        if v[0] == 'A':
            return SOME(('R',) + self.sub(an, st, args[0], len(v[2]) - 1)) if v[2] else NONE()
        return self.end_mut(an, st, args, False)

    def sub(self, an, st, p, i):
        root, path = an.pointer(st, p)
        return root, path + (i,)

    def which_end(self, an, st, fn, args, t):
        """Does an index mean the first (True) or the last (False) element?"""
        x = an.intv(st, args[1])
        if x == num.const(0):
            return True
        n = self.m_len(an, st, fn, args, an.r.named_int('usize'), t)
        d = num.shift(num.sub(n[1:], x), -1)
        if num.entails(st.num, d) and num.entails(st.num, num.scale(d, -1)):
            return False
        raise Undecided('an element in the midst of a sequence')

    @model('alloc::collections::vec_deque::VecDeque::get_mut', 'alloc::collections::vec_deque::VecDeque::get',
           '[T]::get_mut', '[T]::get')
    def m_at(self, an, st, fn, args, dty, t):
        v = an.deref(st, args[0])
        if v[0] == 'A':
            x = an.intv(st, args[1])
            if x[1]:
                raise Undecided('an unknown index')
            return SOME(('R',) + self.sub(an, st, args[0], x[0])) if x[0] < len(v[2]) else NONE()
        return self.end_mut(an, st, args, self.which_end(an, st, fn, args, t))

    @model('alloc::collections::vec_deque::VecDeque::remove')
    def m_remove(self, an, st, fn, args, dty, t):
        return self.pop(an, st, args, self.which_end(an, st, fn, args, t), t)

    @model('alloc::vec::Vec::remove', 'alloc::vec::Vec::swap_remove')
    def m_vremove(self, an, st, fn, args, dty, t):
        r = self.pop(an, st, args, self.which_end(an, st, fn, args, t), t)
        if r[1] == 0:
            an.panic(st, 'removes from an empty vector', t.get('at'))
        return r[2][0]

    @model('<alloc::collections::vec_deque::VecDeque as core::ops::index::IndexMut>::index_mut',
           '<alloc::collections::vec_deque::VecDeque as core::ops::index::Index>::index',
           '<alloc::vec::Vec as core::ops::index::IndexMut>::index_mut',
           '<alloc::vec::Vec as core::ops::index::Index>::index')
    def m_index(self, an, st, fn, args, dty, t):
        v = an.res(st, args[1])
        if v[0] != 'I':
            raise Undecided('an index that is not a number')
        r = self.m_at(an, st, fn, args, dty, t)
        if r[1] == 0:
            an.panic(st, 'index out of bounds', t.get('at'))
        return r[2][0]

    @model('<alloc::collections::vec_deque::VecDeque as core::iter::traits::collect::Extend>::extend',
           '<alloc::vec::Vec as core::iter::traits::collect::Extend>::extend')
    def m_extend(self, an, st, fn, args, dty, t):
        v = an.deep(st, args[1])
        it = an.r.T[t['at_'][1]] if len(t.get('at_') or ()) > 1 else None
        if v[0] != 'A' or it is None:
            raise Undecided('extending by an unknown sequence')
        if it['k'] == 'array':
            es = v[2]
        elif it['k'] == 'adt' and it['p'] == 'core::option::Option':
            es = v[2]
        else:
            raise Undecided('extending by an unknown sequence')
        for e in es:
            self.m_push_back(an, st, fn, [args[0], e], dty, t)
        return UNIT

    @model('alloc::collections::vec_deque::VecDeque::insert', 'alloc::vec::Vec::insert')
    def m_vinsert(self, an, st, fn, args, dty, t):
        x = an.intv(st, args[1])
        if x == num.const(0):
            return self.m_push_front(an, st, fn, [args[0], args[2]], dty, t)
        n = self.m_len(an, st, fn, args, an.r.named_int('usize'), t)
        d = num.sub(n[1:], x)
        if num.entails(st.num, d) and num.entails(st.num, num.scale(d, -1)):
            return self.m_push_back(an, st, fn, [args[0], args[2]], dty, t)
        raise Undecided('an insertion in the midst of a sequence')

    @model('alloc::collections::vec_deque::VecDeque::append', 'alloc::vec::Vec::append')
    def m_append(self, an, st, fn, args, dty, t):
        root, path, v = self.seq(an, st, args[1])
        if v[2]:
            raise Undecided('appending an unknown sequence')
        an.store(st, root, path, ('D', (), 0, ()))
        for e in v[1] + v[3]:
            self.m_push_back(an, st, fn, [args[0], e], dty, t)
        return UNIT

    @model('alloc::collections::vec_deque::VecDeque::pop_front')
    def m_pop_front(self, an, st, fn, args, dty, t):
        return self.pop(an, st, args, True, t)

    @model('alloc::collections::vec_deque::VecDeque::pop_back', 'alloc::vec::Vec::pop')
    def m_pop_back(self, an, st, fn, args, dty, t):
        return self.pop(an, st, args, False, t)

    @model('alloc::collections::vec_deque::VecDeque::push_back', 'alloc::vec::Vec::push')
    def m_push_back(self, an, st, fn, args, dty, t):
        root, path, v = self.seq(an, st, args[0])
        an.store(st, root, path, ('D', v[1], v[2], v[3] + (args[1],)) if v[2] or v[1] or v[3] else ('D', (args[1],), 0, ()))
        an.m.event(st, 'push', (an.deep(st, args[1]), ('B', False)), UNIT, t)
        return UNIT

    @model('alloc::collections::vec_deque::VecDeque::push_front')
    def m_push_front(self, an, st, fn, args, dty, t):
        root, path, v = self.seq(an, st, args[0])
        an.store(st, root, path, ('D', (args[1],) + v[1], v[2], v[3]))
        an.m.event(st, 'push', (an.deep(st, args[1]), ('B', True)), UNIT, t)
        return UNIT

    @model('alloc::collections::vec_deque::VecDeque::clear', 'alloc::vec::Vec::clear')
    def m_clear(self, an, st, fn, args, dty, t):
        root, path, v = self.seq(an, st, args[0])
        an.store(st, root, path, ('D', (), 0, ()))
        an.m.event(st, 'clear', (), UNIT, t)
        return UNIT

    @model('alloc::collections::vec_deque::VecDeque::truncate', 'alloc::vec::Vec::truncate')
    def m_truncate(self, an, st, fn, args, dty, t):
        root, path, v = self.seq(an, st, args[0])
        k = an.intv(st, args[1])
        if k == num.const(0):
            an.store(st, root, path, ('D', (), 0, ()))
            return UNIT
        n = self.m_len(an, st, fn, args, an.r.named_int('usize'), t)
        if an.test(st, num.sub(k, n[1:])):
            return UNIT
        an.m.event(st, 'lost', (), UNIT, t)
        raise Undecided('what is left of a sequence')

    @model('alloc::collections::vec_deque::VecDeque::retain', 'alloc::vec::Vec::retain',
           'alloc::collections::vec_deque::VecDeque::retain_mut', 'alloc::vec::Vec::retain_mut',
           'alloc::collections::vec_deque::VecDeque::split_off', 'alloc::vec::Vec::split_off',
           'alloc::collections::vec_deque::VecDeque::drain', 'alloc::vec::Vec::drain',
           'alloc::vec::Vec::dedup_by', 'alloc::vec::Vec::dedup_by_key', 'alloc::vec::Vec::dedup')
    def m_lose(self, an, st, fn, args, dty, t):
        an.m.event(st, 'lost', (), UNIT, t)
        raise Undecided('what is left of a sequence')

    @model('alloc::collections::vec_deque::VecDeque::rotate_left', 'alloc::collections::vec_deque::VecDeque::rotate_right',
           '[T]::rotate_left', '[T]::rotate_right')
    def m_rotate(self, an, st, fn, args, dty, t):
        root, path, v = self.seq(an, st, args[0])
        k = an.intv(st, args[1])
        if k == num.const(0):
            return UNIT
        n = self.m_len(an, st, fn, args, an.r.named_int('usize'), t)
        if not an.test(st, num.sub(n[1:], k)):
            an.panic(st, 'rotates by more than there is', t.get('at'))
        if k != num.const(1):
            raise Undecided('a rotation of a sequence')
        left = fn['path'].endswith('left')
        v = self.split_seq(an, st, an.load(st, root, path), left)
        if v is None:
            an.panic(st, 'rotates by more than there is', t.get('at'))
        if left:
            v = ('D', v[1][1:], v[2], v[3] + v[1][:1])
        else:
            v = ('D', v[3][-1:] + v[1], v[2], v[3][:-1])
        an.store(st, root, path, v)
        return UNIT

    @model('alloc::collections::vec_deque::VecDeque::swap', '[T]::swap')
    def m_seq_swap(self, an, st, fn, args, dty, t):
        v = an.deref(st, args[0])
        i, j = an.intv(st, args[1]), an.intv(st, args[2])
        if i == j:
            return UNIT
        root, path = an.pointer(st, args[0])
        if v[0] == 'A':
            if i[1] or j[1] or max(i[0], j[0]) >= len(v[2]):
                raise Undecided('an unknown index')
            es = list(v[2])
            es[i[0]], es[j[0]] = es[j[0]], es[i[0]]
            an.store(st, root, path, v[:2] + (tuple(es),))
            return UNIT
        ends = [self.which_end(an, st, fn, [args[0], x], t) for x in args[1:3]]
        if ends[0] == ends[1]:
            return UNIT
        root, path, v = self.seq(an, st, args[0])
        v = self.split_seq(an, st, v, True)
        if v is None:
            an.panic(st, 'index out of bounds', t.get('at'))
        fst, v = v[1][0], ('D', v[1][1:], v[2], v[3])
        v = self.split_seq(an, st, v, False)
        if v is None:
            an.store(st, root, path, ('D', (fst,), 0, ()))
            return UNIT
        an.store(st, root, path, ('D', (v[3][-1],) + v[1], v[2], v[3][:-1] + (fst,)))
        return UNIT

    @model('[T]::reverse')
    def m_reverse(self, an, st, fn, args, dty, t):
        root, path = an.pointer(st, args[0])
        v = an.load(st, root, path)
        if v[0] == 'A':
            an.store(st, root, path, v[:2] + (v[2][::-1],))
            return UNIT
        root, path, v = self.seq(an, st, args[0])
        if v[2]:
            raise Undecided('the reverse of an unknown sequence')
        an.store(st, root, path, ('D', v[3][::-1] + v[1][::-1], 0, ()))
        return UNIT

    @model('<[T] as core::ops::index::Index>::index')
    def m_slice_index(self, an, st, fn, args, dty, t):
        v = an.deref(st, args[0])
        k = an.res(st, args[1])
        if k[0] == 'I':
            return self.m_index(an, st, fn, args, dty, t)
        it = an.r.T[t['at_'][1]]
        name = it.get('p', '').rsplit('::', 1)[-1]
        if v[0] != 'A' or name not in ('Range', 'RangeTo', 'RangeFrom', 'RangeFull') or k[0] != 'A':
            raise Undecided('a part of a sequence')
        ends = [an.intv(st, x) for x in k[2]]
        if any(x[1] for x in ends):
            raise Undecided('an unknown part of a sequence')
        ends = [x[0] for x in ends]
        lo = ends[0] if name in ('Range', 'RangeFrom') else 0
        hi = ends[-1] if name in ('Range', 'RangeTo') else len(v[2])
        if not lo <= hi <= len(v[2]):
            an.panic(st, 'index out of bounds', t.get('at'))
        # only looked at, so a copy does
        return ('R', ('O', an.new_obj(st, ('A', 0, v[2][lo:hi]), 'fresh')), ())

    @model('alloc::collections::vec_deque::VecDeque::make_contiguous', 'alloc::vec::Vec::as_mut_slice', 'alloc::vec::Vec::as_slice')
    def m_contiguous(self, an, st, fn, args, dty, t):
        return ('R',) + self.seq(an, st, args[0])[:2]

    @model('alloc::collections::vec_deque::VecDeque::is_empty', 'alloc::vec::Vec::is_empty', '[T]::is_empty')
    def m_is_empty(self, an, st, fn, args, dty, t):
        root, path, v = self.seq(an, st, args[0])
        if v[1] or v[3]:
            return ('B', False)
        n = self.split_seq(an, st, v, 'VecDeque' in (fn.get('rpath') or fn['path']))
        an.store(st, root, path, n if n is not None else ('D', (), 0, ()))
        return ('B', n is None)

    @model('alloc::collections::vec_deque::VecDeque::len', 'alloc::vec::Vec::len', '[T]::len')
    def m_len(self, an, st, fn, args, dty, t):
        root, path = an.pointer(st, args[0])
        v = an.load(st, root, path)
        if v[0] == 'A':
            return ('I', len(v[2]), ())
        root, path, v = self.seq(an, st, args[0])
        k = len(v[1]) + len(v[3])
        if not v[2]:
            return ('I', k, ())
        fk = ('len', ('S', v[2], -2))
        if fk not in st.facts:
            st.facts[fk] = an.fresh(st, dty)
        return ('I',) + num.shift(st.facts[fk][1:], k)

    @model('alloc::collections::vec_deque::VecDeque::with_capacity', 'alloc::vec::Vec::with_capacity',
           'alloc::collections::vec_deque::VecDeque::new', 'alloc::vec::Vec::new',
           '<alloc::vec::Vec as core::default::Default>::default',
           '<alloc::collections::vec_deque::VecDeque as core::default::Default>::default')
    def m_seq_new(self, an, st, fn, args, dty, t):
        if args:
            an.m.event(st, 'room', (args[0],), UNIT, t)
        return ('D', (), 0, ())

    @model('alloc::collections::vec_deque::VecDeque::reserve', 'alloc::vec::Vec::reserve',
           'alloc::collections::vec_deque::VecDeque::shrink_to_fit', 'alloc::vec::Vec::shrink_to_fit',
           'alloc::collections::vec_deque::VecDeque::capacity', 'alloc::vec::Vec::capacity',
           'alloc::collections::vec_deque::VecDeque::reserve_exact', 'alloc::vec::Vec::reserve_exact',
           'alloc::collections::vec_deque::VecDeque::try_reserve', 'alloc::vec::Vec::try_reserve',
           'alloc::collections::vec_deque::VecDeque::try_reserve_exact', 'alloc::vec::Vec::try_reserve_exact',
           'alloc::collections::vec_deque::VecDeque::shrink_to', 'alloc::vec::Vec::shrink_to')
    def m_reserve(self, an, st, fn, args, dty, t):
        if fn['path'].rsplit('::', 1)[1] in ('reserve', 'reserve_exact', 'try_reserve', 'try_reserve_exact'):
            an.m.event(st, 'room', (args[1],), UNIT, t)
        elif 'shrink' in fn['path']:
            an.m.event(st, 'no_room', (), UNIT, t)
        return an.fresh(st, dty)

    # ---------------------------------------------------------------- iteration over sequences, by value
    @model('<alloc::vec::Vec as core::iter::traits::collect::IntoIterator>::into_iter',
           '<alloc::collections::vec_deque::VecDeque as core::iter::traits::collect::IntoIterator>::into_iter')
    def m_seq_into_iter(self, an, st, fn, args, dty, t):
        v = an.res(st, args[0])
        if v[0] != 'D':
            raise Undecided('iteration over an unknown sequence')
        return v

    @model('<alloc::vec::into_iter::IntoIter as core::iter::traits::iterator::Iterator>::next',
           '<alloc::collections::vec_deque::into_iter::IntoIter as core::iter::traits::iterator::Iterator>::next')
    def m_seq_iter_next(self, an, st, fn, args, dty, t):
        return self.pop(an, st, args, True, t)

    @model('<alloc::vec::into_iter::IntoIter as core::iter::traits::double_ended::DoubleEndedIterator>::next_back',
           '<alloc::collections::vec_deque::into_iter::IntoIter as core::iter::traits::double_ended::DoubleEndedIterator>::next_back')
    def m_seq_iter_next_back(self, an, st, fn, args, dty, t):
        return self.pop(an, st, args, False, t)

    # ---------------------------------------------------------------- iteration over arrays
    @model('core::slice::iter::Iter::new', 'core::slice::iter::IterMut::new')
    def m_slice_iter(self, an, st, fn, args, dty, t):
        v = an.deref(st, args[0])
        if v[0] == 'D' and not v[2]:
            n = len(v[1]) + len(v[3])
        elif v[0] == 'A':
            n = len(v[2])
        else:
            raise Undecided('iteration over an unknown sequence')
        return ('A', 0, (an.res(st, args[0]), ('I', 0, ()), ('I', n, ())))

    @model('<[T;_] as core::iter::traits::collect::IntoIterator>::into_iter')
    def m_array_into_iter(self, an, st, fn, args, dty, t):
        v = an.res(st, args[0])
        if v[0] != 'A':
            raise Undecided('iteration over an unknown array')
        o = an.new_obj(st, v, 'fresh')
        return ('A', 0, (('R', ('O', o), ()), ('I', 0, ()), ('I', len(v[2]), ())))

    def iter_step(self, an, st, args, byval, back):
        root, path = an.pointer(st, args[0])
        v = an.load(st, root, path)
        if v[0] != 'A' or len(v[2]) != 3 or v[2][1][0] != 'I' or v[2][2][0] != 'I':
            raise Undecided('iterator %r' % (v[:1],))
        p, i, n = v[2][0], v[2][1][1], v[2][2][1]
        if i >= n:
            return NONE()
        k = n - 1 if back else i
        an.store(st, root, path, ('A', 0, (p, ('I', i if back else i + 1, ()), ('I', n - 1 if back else n, ()))))
        r, q = an.pointer(st, p)
        s = an.load(st, r, q)
        if s[0] == 'D':
            q = q + (('ef', k) if k < len(s[1]) else ('eb', len(s[1]) + len(s[3]) - 1 - k),)
        else:
            q = q + (k,)
        return SOME(an.load(st, r, q) if byval else ('R', r, q))

    @model('<core::slice::iter::Iter as core::iter::traits::iterator::Iterator>::next',
           '<core::slice::iter::IterMut as core::iter::traits::iterator::Iterator>::next')
    def m_iter_next(self, an, st, fn, args, dty, t):
        return self.iter_step(an, st, args, False, False)

    @model('<core::slice::iter::Iter as core::iter::traits::double_ended::DoubleEndedIterator>::next_back',
           '<core::slice::iter::IterMut as core::iter::traits::double_ended::DoubleEndedIterator>::next_back')
    def m_iter_next_back(self, an, st, fn, args, dty, t):
        return self.iter_step(an, st, args, False, True)

    @model('<core::array::iter::IntoIter as core::iter::traits::iterator::Iterator>::next')
    def m_into_iter_next(self, an, st, fn, args, dty, t):
        return self.iter_step(an, st, args, True, False)

    @model('<core::array::iter::IntoIter as core::iter::traits::double_ended::DoubleEndedIterator>::next_back')
    def m_into_iter_next_back(self, an, st, fn, args, dty, t):
        return self.iter_step(an, st, args, True, True)
