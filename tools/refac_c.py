#!/usr/bin/env python3
"""A third set of edits that keep the behaviour.   refac_c.py OUTDIR [id ...] writes the patches."""
import refac
from refac import GEN, CS, BAS, UT, EC, LIKE, LIB, ROB, WS, DS, RND
R = {}
SPAN = {}      # id: [(file, first text, last text, new)]
ITER = (GEN, "    /// An iterator", None)

MACRO0, MACRO1 = "    macro_rules! provided_impls {\n", "        LazyVecQueue<I> { VecDeque::with_capacity, push_back, front_mut, pop_front },\n    }\n"
def coll(stack, queue):
    t = ''
    for ty, inner, d in (('LazyVecStack<I>', 'Vec', stack), ('LazyVecQueue<I>', 'VecDeque', queue)):
        t += '''    impl<I> %s
    {
        pub(crate) fn with_capacity(capacity: usize) -> Self
        {
            Self(%s::with_capacity(capacity))
        }

        pub(crate) fn clear(&mut self)
        {
            %s
        }
    }

    impl<I: NonAdvancingIterator> LazierIterator for %s
    {
        type SubIter = I;

        fn extend(
            &mut self,
            subiter: Self::SubIter,
        )
        {
            %s
        }

        fn next_subiter_as_mut(&mut self) -> Option<&mut Self::SubIter>
        {
            %s
        }

        fn next_subiter(&mut self) -> Option<Self::SubIter>
        {
            %s
        }
    }

''' % (ty, inner, d[0], ty, d[1], d[2], d[3])
    return t
SPAN['coll_plain'] = [(UT, MACRO0, MACRO1, coll(
    ('self.0.truncate(0);', 'self.0.push(subiter);', 'let last = self.0.len().checked_sub(1)?;\n            self.0.get_mut(last)', 'self.0.pop()'),
    ('while self.0.pop_front().is_some() {}', 'self.0.push_back(subiter);', 'self.0.get_mut(0)', 'self.0.pop_front()')))]
SPAN['coll_split'] = [(UT, MACRO0, MACRO1, coll(
    ('drop(self.0.drain(..));', 'self.0.extend([subiter]);', 'self.0.split_last_mut().map(|(last, _)| last)', 'let last = self.0.pop();\n            last'),
    ('let capacity = self.0.capacity();\n            self.0 = VecDeque::with_capacity(capacity);', 'self.0.extend(Some(subiter));', 'self.0.iter_mut().next()', 'if self.0.is_empty() { None } else { self.0.pop_front() }')))]
SPAN['coll_last'] = [(UT, MACRO0, MACRO1, coll(
    ('self.0.clear();', 'let Self(pending) = self;\n            pending.push(subiter);', 'self.0.iter_mut().next_back()', 'let at = self.0.len();\n            if at == 0 { None } else { Some(self.0.remove(at - 1)) }'),
    ('self.0.clear();', 'let at = self.0.len();\n            self.0.insert(at, subiter);', 'match self.0.is_empty() {\n                true => None,\n                false => Some(&mut self.0[0]),\n            }', 'self.0.remove(0)')))]

FIELDS = (GEN, """        pub(super) counterparts: Counterparts<N>,
        /// Index of next edge to use.
        next_index:              Option<N::Index>,
""")
NEW = (GEN, "Self { counterparts, next_index: Some(zero()) }")
def edges(fields, new, body):
    return [(GEN, "        next_index:              Option<N::Index>,\n", fields), (GEN, NEW[1], new), (GEN, refac.NEXT_OLD, body)]
R['edges_ended'] = edges("        index:                   N::Index,\n        ended:                   bool,\n",
    "Self { counterparts, index: zero(), ended: false }", """            if self.ended {
                return None;
            }
            let [a, b] = &self.counterparts;
            match (a.get_edge(&self.index), b.get_edge(&self.index)) {
                (Some(ae), Some(be)) => {
                    if advance {
                        match increment_index(&self.index) {
                            Some(next) => self.index = next,
                            None => self.ended = true,
                        }
                    }
                    Some(Ok([ae, be]))
                },
                (None, None) => {
                    self.ended |= advance;
                    None
                },
                (ae, _) => {
                    let ord = if ae.is_none() { Ordering::Less } else { Ordering::Greater };
                    Some(Err(N::Cmp::from_ord(ord)))
                },
            }""")
R['edges_state'] = edges("        state:                   State<N::Index>,\n",
    "Self { counterparts, state: State::At(zero()) }", """            let i = match &self.state {
                State::At(i) => i,
                State::Ended => return None,
            };
            let [ae, be] = {
                let [a, b] = &self.counterparts;
                [a, b].map(|n| n.get_edge(i))
            };
            let (item, state) = match (ae, be) {
                (Some(ae), Some(be)) => (Some(Ok([ae, be])), increment_index(i).map_or(State::Ended, State::At)),
                (None, None) => (None, State::Ended),
                (ae, be) => return Some(Err(N::Cmp::from_ord(ae.is_some().cmp(&be.is_some())))),
            };
            if advance {
                self.state = state;
            }
            item""") + [(GEN, "    fn zero<T: Default>() -> T\n", """    enum State<I>
    {
        At(I),
        Ended,
    }

    fn zero<T: Default>() -> T
""")]
R['edges_twofns'] = [(GEN, refac.NEXT_OLD, """            let item = self.peek();
            if advance {
                match item {
                    Some(Ok(_)) => {
                        if let Some(i) = self.next_index.take() {
                            self.next_index = increment_index(&i);
                        }
                    },
                    Some(Err(_)) => (),
                    None => self.next_index = None,
                }
            }
            item
        }

        fn peek(&self) -> Option<CounterpartsResult<N>>
        {
            let i = self.next_index.as_ref()?;
            let [a, b] = &self.counterparts;
            let (ae, be) = (a.get_edge(i), b.get_edge(i));
            let less = ae.is_none();
            if less && be.is_none() {
                return None;
            }
            Some(ae.zip(be).map(|(ae, be)| [ae, be]).ok_or_else(|| {
                N::Cmp::from_ord(if less { Ordering::Less } else { Ordering::Greater })
            }))""")]
R['edges_peek_cached'] = edges("        next_index:              Option<N::Index>,\n        peeked:                  Option<Counterparts<N>>,\n",
    "Self { counterparts, next_index: Some(zero()), peeked: None }", """            let i = self.next_index.as_ref()?;
            let found = match self.peeked.take() {
                Some([ae, be]) => [Some(ae), Some(be)],
                None => {
                    let [a, b] = &self.counterparts;
                    [a.get_edge(i), b.get_edge(i)]
                },
            };
            match found {
                [Some(ae), Some(be)] => {
                    if advance {
                        self.next_index = increment_index(i);
                    }
                    Some(Ok([ae, be]))
                },
                [None, None] => {
                    self.next_index = None;
                    None
                },
                [None, Some(_)] => Some(Err(N::Cmp::from_ord(Ordering::Less))),
                [Some(_), None] => Some(Err(N::Cmp::from_ord(Ordering::Greater))),
            }""")

R['int_helpers'] = [(CS, """                self.ticker = self.ticker.saturating_sub(1);
""" + '\n' + refac.INT_OLD, """                if self.tick() {
                    return Ok(true);
                }
                let same = self.equiv_classes.same_class(&a.id(), &b.id());
                self.ticker = if same { 0 } else { self.ticker };
                Ok(!same)""")] if False else []
TICK = """                self.ticker = self.ticker.saturating_sub(1);
"""
R['int_helpers'] = [(CS, TICK, ""), (CS, refac.INT_OLD, """                if self.tick() {
                    return Ok(true);
                }
                let same = self.equiv_classes.same_class(&a.id(), &b.id());
                self.ticker = if same { 0 } else { self.ticker };
                Ok(!same)"""), (CS, "        impl<P: Params> Default for Interleave<P>\n", """        impl<P: Params> Interleave<P>
        {
            /// Whether this pair is in a fast phase.
            fn tick(&mut self) -> bool
            {
                self.ticker -= 1;
                let renew = self.ticker < Self::SLOW_LIMIT_NEG;
                if renew {
                    self.ticker = self.rng.rand_upto(Self::FAST_LIMIT_MAX_RANGE_END).into();
                }
                self.ticker >= 0
            }
        }

        impl<P: Params> Default for Interleave<P>
""")]
R['int_local'] = [(CS, TICK, ""), (CS, refac.INT_OLD, """                let mut ticker = self.ticker.saturating_sub(1);
                let mut descend = true;
                if ticker < 0 {
                    if ticker >= Self::SLOW_LIMIT_NEG {
                        descend = !self.equiv_classes.same_class(&a.id(), &b.id());
                        ticker = if descend { ticker } else { 0 };
                    }
                    else {
                        ticker = self.rng.rand_upto(Self::FAST_LIMIT_MAX_RANGE_END).into();
                    }
                }
                self.ticker = ticker;
                Ok(descend)""")]
R['int_i64'] = [(CS, "            ticker:        i32,\n", "            ticker:        i64,\n"), (CS, TICK, "                self.ticker -= 1;\n"),
    (CS, "self.ticker < Self::SLOW_LIMIT_NEG {", "self.ticker < i64::from(Self::SLOW_LIMIT_NEG) {"),
    (CS, """                        (self.ticker, false),
                        Self::SLOW_LIMIT_NEG.overflowing_sub(1),
""", """                        self.ticker,
                        i64::from(Self::SLOW_LIMIT_NEG) - 1,
""")]
R['int_enum'] = [(CS, "            ticker:        i32,\n", "            phase:         Phase,\n"), (CS, "                    ticker:        0,\n", "                    phase:         Phase::Fast(0),\n"),
    (CS, TICK, ""), (CS, refac.INT_OLD, """                self.phase = match core::mem::replace(&mut self.phase, Phase::Fast(0)) {
                    Phase::Fast(left) if left > 0 => {
                        self.phase = Phase::Fast(left - 1);
                        return Ok(true);
                    },
                    Phase::Fast(_) => Phase::Slow(1),
                    Phase::Slow(done) => Phase::Slow(done + 1),
                };
                if let Phase::Slow(n) = self.phase {
                    if n > u32::from(I::SLOW_LIMIT) {
                        self.phase = Phase::Fast(self.rng.rand_upto(Self::FAST_LIMIT_MAX_RANGE_END).into());
                    }
                    else if self.equiv_classes.same_class(&a.id(), &b.id()) {
                        self.phase = Phase::Fast(0);
                        return Ok(false);
                    }
                }
                Ok(true)"""), (CS, "        impl<P: Params> Default for Interleave<P>\n", """        enum Phase
        {
            Fast(u32),
            Slow(u32),
        }

        impl<P: Params> Default for Interleave<P>
""")]
R['all_swap'] = [(EC, refac.ALL_OLD, """        if Class::eq_rep(&ar, &br) {
            return true;
        }
        let (mut larger, mut smaller) = (ar, br);
        if aw < bw {
            core::mem::swap(&mut larger, &mut smaller);
        }
        Class::set_rep(&larger, usize::saturating_add(aw, bw));
        Class::set_link(&smaller, larger);
        false""")]
R['all_array'] = [(EC, refac.ALL_OLD, """        if Class::eq_rep(&ar, &br) {
            return true;
        }
        let reps = [&ar, &br];
        let larger = usize::from(aw < bw);
        Class::set_rep(reps[larger], aw.saturating_add(bw));
        Class::set_link(reps[1 - larger], R::clone(reps[larger]));
        false""".replace('R::clone', 'T::Rc::clone'))]
R['clone_match'] = [(EC, refac.CLONE_OLD, """        let inner = it.replace(Self::default());
        let result = match &inner {
            Self::Representative { weight } => Self::Representative { weight: *weight },
            Self::Link { next } => Self::Link { next: next.clone() },
        };
        drop(it.replace(inner));
        result""")]
SPAN['rep_loop'] = [(EC, "        let it_inner = Self::clone_inner(it);\n        match it_inner {", "    fn get_rep(it: &R) -> R", """        // The representative, and then the links shortened.
        let mut rep = R::clone(it);
        let weight = loop {
            match Self::clone_inner(&rep) {
                Self::Representative { weight } => break weight,
                Self::Link { next } => rep = next,
            }
        };
        let mut cur = R::clone(it);
        while let Self::Link { next } = Self::clone_inner(&cur) {
            Self::set_link(&cur, R::clone(&rep));
            cur = next;
        }
        (rep, weight)
    }

""")]
SPAN['rep_noshorten'] = [(EC, "        let it_inner = Self::clone_inner(it);\n        match it_inner {", "    fn get_rep(it: &R) -> R", """        let mut cur = it.clone();
        loop {
            cur = match Self::clone_inner(&cur) {
                Self::Link { next } => next,
                Self::Representative { weight } => return (cur, weight),
            }
        }
    }

""")]
R['rep_peek'] = [(EC, """    fn clone_inner(it: &R) -> Self
""", """    /// What the record is now, read without its being replaced for long.
    fn clone_inner(it: &R) -> Self
"""), (EC, refac.CLONE_OLD, """        Self::with(it, Self::clone)
    }

    fn with<X>(
        it: &R,
        f: impl FnOnce(&Self) -> X,
    ) -> X
    {
        let inner = it.replace(Self::default());
        let x = f(&inner);
        it.set(inner);
        x""")]
R['same_map_or'] = [(EC, refac.SAME_OLD, """        let ac = self.table.get(ak).cloned();
        let bc = self.table.get(bk).cloned();
        let both = ac.as_ref().zip(bc.as_ref()).map(|(ac, bc)| Self::all_seen(ac, bc));
        both.unwrap_or_else(|| {
            match ac.or_else(|| None) {
                Some(c) => self.some_seen(&c, bk),
                None => match bc {
                    Some(c) => self.some_seen(&c, ak),
                    None => self.none_seen(ak, bk),
                },
            }
            false
        })""")]
R['same_rep_first'] = [(EC, refac.SAME_OLD, """        let ar = self.table.get(ak).map(Class::get_rep);
        let br = self.table.get(bk).map(Class::get_rep);
        match [ar, br] {
            [Some(ar), Some(br)] => Self::all_seen(&ar, &br),
            [Some(r), None] => {
                self.table.insert(bk.clone(), r);
                false
            },
            [None, Some(r)] => {
                self.table.insert(ak.clone(), r);
                false
            },
            [None, None] => {
                self.none_seen(ak, bk);
                false
            },
        }""")]
R['wyrng_lemire'] = [(RND + 'wyrng.rs', "        wyrng(&mut self.0) as u16 % exclusive_end\n", """        let random = u32::from(wyrng(&mut self.0) as u16);
        let scaled = random * u32::from(exclusive_end.get());
        (scaled >> 16) as u16
""")]
R['wyrng_u64'] = [(RND + 'wyrng.rs', "        wyrng(&mut self.0) as u16 % exclusive_end\n", """        let end = u64::from(exclusive_end.get());
        u16::try_from(wyrng(&mut self.0) % end).unwrap_or_default()
""")]
R['oorandom_rem'] = [(RND + 'oorandom.rs', """        let exclusive_end: u32 = exclusive_end.get().into();

        self.0.rand_range(0 .. exclusive_end) as u16""", """        let end: u32 = exclusive_end.get().into();
        let n = self.0.rand_u32() % end;
        n.try_into().unwrap_or(0)""")]
R['fastrand_usize'] = [(RND + 'fastrand.rs', "        fastrand::u16(0 .. exclusive_end.get())\n", """        fastrand::u16(..=(exclusive_end.get() - 1))
""")]
R['from_ord_match'] = [(LIB, "        ord.is_eq()\n", "        match ord {\n            Ordering::Equal => true,\n            Ordering::Less | Ordering::Greater => false,\n        }\n"),
    (LIB, "        self.is_eq()\n", "        *self == Ordering::Equal\n")]
R['main_closure2'] = [(GEN, refac.MAIN_OLD, """            let traverse = try_into!(self.descend_mode.do_traverse());
            if !traverse || a.id() == b.id() {
                return Ok(cmp);
            }
            cmp = a.equiv_modulo_edges(&b);
            if !cmp.is_equiv() {
                return Ok(cmp);
            }
            let mut edges_iter = EdgesIter::new([a, b]);
            let first = match edges_iter.next_no_adv() {
                None => return Ok(cmp),
                Some(first) => first,
            };
            if let Err(different) = first {
                return Ok(different);
            }
            let descend = match &edges_iter.counterparts {
                [a, b] => self.descend_mode.do_edges(a, b),
            };
            match descend {
                Ok(true) => return P::RecurMode::recur(self, edges_iter).map_err(Into::into),
                Ok(false) => (),
                Err(e) => return Err(e.into()),
            }

            Ok(cmp)""")]
R['main_has_next'] = [(GEN, refac.MAIN_OLD, """            if try_into!(self.descend_mode.do_traverse()) && a.id() != b.id() {
                cmp = a.equiv_modulo_edges(&b);
                if cmp.is_equiv() {
                    let mut edges_iter = EdgesIter::new([a, b]);
                    cmp = match edges_iter.next_no_adv().transpose() {
                        Ok(Some([_, _])) => {
                            let [a, b] = &edges_iter.counterparts;
                            let descend = self.descend_mode.do_edges(a, b).map_err(Into::into)?;
                            if descend { P::RecurMode::recur(self, edges_iter).map_err(Into::into)? } else { cmp }
                        },
                        Ok(None) => cmp,
                        Err(cmp_amount_edges) => cmp_amount_edges,
                    };
                }
            }

            Ok(cmp)""")]
R['loop_state'] = [(GEN, refac.LOOP_OLD, """            let mut pair: Counterparts<P::Node> = [a, b];
            loop {
                let [x, y] = pair;
                let cmp = self.equiv_main(x, y)?;
                if !cmp.is_equiv() {
                    break Ok(cmp);
                }
                let next = match self.recur_mode.next() {
                    Some(next) => next,
                    None => break Ok(cmp),
                };
                match next {
                    Ok(p) => pair = p,
                    Err(different) => break Ok(different),
                }
            }"""), (GEN, """            mut a: P::Node,
            mut b: P::Node,
""", """            a: P::Node,
            b: P::Node,
""")]
R['premade_shared'] = [(BAS, """        let mut e = Equiv::<Args<N>>::default();
        #[allow(unstable_name_collisions)]
        e.equiv(a, b).into_ok()
""", """        crate::generic::sure::<Args<N>>(a, b)
"""), (BAS, """    #[cfg(not(feature = "anticipate"))]
    use crate::like_anticipated::IntoOk as _;
""", ""), (GEN, """pub mod equiv_classes;
""", """pub mod equiv_classes;

/// The result of a comparison that cannot fail.
pub(crate) fn sure<P>(a: P::Node, b: P::Node) -> <P::Node as crate::Node>::Cmp
where
    P: equiv::Params<Error = crate::anticipated_or_like::Infallible>,
    P::DescendMode: Default,
{
    match equiv::Equiv::<P>::default().equiv(a, b) {
        Ok(cmp) => cmp,
        Err(never) => match never {},
    }
}
""")]
R['pre_and_then'] = [(GEN, """            match e.equiv(a.clone(), b.clone()) {
                Ok(cmp) => Ok(cmp),
                Err(PrecheckError::RecurError(e)) => Err(e),
                Err(PrecheckError::LimitReached) => {
                    let mut e: Equiv<InterleaveArgs<N, P>> = e.into();
                    e.equiv(a, b).map_err(|InterleaveError(error)| error)
                },
            }""", """            let (x, y) = (N::clone(&a), N::clone(&b));
            e.equiv(x, y).or_else(move |error| match error {
                PrecheckError::RecurError(error) => Err(error),
                PrecheckError::LimitReached => Equiv::<InterleaveArgs<N, P>>::from(e).equiv(a, b).map_err(|e| e.0),
            })""")]
R['lim_replace'] = [(BAS, """                if self.0 > 0.into() {
                    self.0 -= 1.into(); // Overflow impossible, by conditional.
                    Ok(true)
                }
                else {
                    Err(LimitReached)
                }""", """                let zero = T::from(0);
                let left = self.0.cmp(&zero).is_gt();
                let result = left.then_some(true).ok_or(LimitReached);
                if result.is_ok() {
                    self.0 -= T::from(1);
                }
                result""")]
R['call_try_fold'] = [(BAS, refac.CALL_OLD if refac.CALL_OLD.rstrip().endswith('}') else '', '')] if False else []
R['lazier_helper'] = [(UT, refac.LAZIER_OLD, """            loop {
                let next = match self.next_subiter_as_mut() {
                    Some(subiter) => {
                        let next = subiter.next();
                        let more = subiter.next_no_adv();
                        (next, more.is_some())
                    },
                    None => return None,
                };
                let (next, more) = next;
                if !more {
                    self.remove_first();
                }
                match next {
                    Some(item) => return Some(item),
                    None => continue,
                }
            }
        }

        /// Removes empty iterators.
        fn remove_first(&mut self)
        {
            let _empty = self.next_subiter();""")]
R['recur_take'] = [(WS, """                it.recur_mode.0.extend(edges_iter);
                Ok(Cmp::new_equiv())""", """                let mut pending = core::mem::take(&mut it.recur_mode);
                pending.0.extend(edges_iter);
                it.recur_mode = pending;
                Ok(Cmp::new_equiv())""")]
R = {k: v for k, v in R.items() if v}


def spans(work):
    import os, functools
    def do(edits):
        for file, a, b, new in edits:
            p = os.path.join(work, file)
            s = open(p).read()
            if s.count(a) != 1 or b not in s[s.index(a):]:
                raise ValueError('%r occurs %d times' % (a[:50], s.count(a)))
            i = s.index(a)
            j = s.index(b, i)
            if b.startswith("    fn get_rep"):
                s = s[:i] + new + s[j:]
            else:
                s = s[:i] + new + s[j + len(b):]
            open(p, 'w').write(s)
    return {k: functools.partial(do, e) for k, e in SPAN.items()}


if __name__ == '__main__':
    refac.R = dict(R, **{k: 'file' for k in SPAN})
    refac.special = spans
    refac.main()
