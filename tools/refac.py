#!/usr/bin/env python3
"""Edits that keep the behaviour: every check has to stay quiet.   refac.py OUTDIR [id ...] writes the patches."""
import os, re, shutil, subprocess, sys

GEN, CS, BAS, UT, EC, LIKE, LIB, ROB, WS, DS = ('src/generic.rs', 'src/cycle_safe.rs', 'src/basic.rs', 'src/utils.rs',
    'src/generic/equiv_classes.rs', 'src/like_anticipated.rs', 'src/lib.rs', 'src/robust.rs', 'src/wide_safe.rs', 'src/deep_safe.rs')
RND = 'src/cycle_safe/modes/interleave/random/'
R = {}

NEXT_OLD = '''            if let Some(i) = &self.next_index {
                let [a, b] = &self.counterparts;

                match [a.get_edge(i), b.get_edge(i)] {
                    [Some(ae), Some(be)] => {
                        if advance {
                            self.next_index = increment_index(i);
                        }
                        Some(Ok([ae, be]))
                    },
                    [None, None] => {
                        if advance {
                            self.next_index = None;
                        }
                        None
                    },
                    [None, Some(_)] => Some(Err(N::Cmp::from_ord(Ordering::Less))),
                    [Some(_), None] => Some(Err(N::Cmp::from_ord(Ordering::Greater))),
                }
            }
            else {
                None
            }'''
R['getnext_question'] = [(GEN, NEXT_OLD, '''            let i = self.next_index.as_ref()?;
            let [a, b] = &self.counterparts;
            let (ae, be) = (a.get_edge(i), b.get_edge(i));
            let ord = match (ae, be) {
                (Some(ae), Some(be)) => {
                    if advance {
                        self.next_index = increment_index(i);
                    }
                    return Some(Ok([ae, be]));
                },
                (None, None) => {
                    if advance {
                        self.next_index = None;
                    }
                    return None;
                },
                (None, Some(_)) => Ordering::Less,
                (Some(_), None) => Ordering::Greater,
            };
            Some(Err(N::Cmp::from_ord(ord)))''')]
R['getnext_helper'] = [(GEN, NEXT_OLD, '''            let (item, next_index) = match &self.next_index {
                Some(i) => match self.at(i) {
                    Some(Ok(pair)) => (Some(Ok(pair)), increment_index(i)),
                    None => (None, None),
                    different => return different,
                },
                None => return None,
            };
            if advance {
                self.next_index = next_index;
            }
            item'''), (GEN, '        fn get_next(\n', '''        fn at(
            &self,
            i: &N::Index,
        ) -> Option<CounterpartsResult<N>>
        {
            let [a, b] = &self.counterparts;
            match a.get_edge(i) {
                Some(ae) => match b.get_edge(i) {
                    Some(be) => Some(Ok([ae, be])),
                    None => Some(Err(N::Cmp::from_ord(Ordering::Greater))),
                },
                None => b.get_edge(i).map(|_| Err(N::Cmp::from_ord(Ordering::Less))),
            }
        }

        fn get_next(
''')]
R['getnext_take'] = [(GEN, NEXT_OLD, '''            let i = self.next_index.take()?;
            let [a, b] = &self.counterparts;
            let edges = (a.get_edge(&i), b.get_edge(&i));
            let result = match edges {
                (Some(ae), Some(be)) => Some(Ok([ae, be])),
                (None, None) => None,
                (x, _) => Some(Err(N::Cmp::from_ord(if x.is_some() { Ordering::Greater } else { Ordering::Less }))),
            };
            self.next_index = if advance && !matches!(result, Some(Err(_))) {
                if result.is_some() { increment_index(&i) } else { None }
            }
            else {
                Some(i)
            };
            result''')]
R['getnext_cmp'] = [(GEN, NEXT_OLD, '''            let Some(i) = &self.next_index else { return None };
            let [ae, be] = [&self.counterparts[0], &self.counterparts[1]].map(|n| n.get_edge(i));
            if ae.is_some() != be.is_some() {
                return Some(Err(N::Cmp::from_ord(ae.is_some().cmp(&be.is_some()))));
            }
            let item = ae.zip(be).map(|(ae, be)| Ok([ae, be]));
            if advance {
                self.next_index = item.as_ref().and_then(|_| increment_index(i));
            }
            item''')]
LOOP_OLD = '''                match self.equiv_main(a, b) {
                    Ok(cmp) if cmp.is_equiv() => match self.recur_mode.next() {
                        Some(Ok([an, bn])) => {
                            a = an;
                            b = bn;
                        },
                        Some(Err(cmp_amount_edges)) => return Ok(cmp_amount_edges),
                        None => return Ok(cmp),
                    },
                    result => return result,
                }'''
R['loop_question'] = [(GEN, LOOP_OLD, '''                let cmp = self.equiv_main(a, b)?;
                if !cmp.is_equiv() {
                    return Ok(cmp);
                }
                [a, b] = match self.recur_mode.next() {
                    Some(Ok(pair)) => pair,
                    Some(Err(cmp_amount_edges)) => return Ok(cmp_amount_edges),
                    None => return Ok(cmp),
                };''')]
R['loop_transpose'] = [(GEN, LOOP_OLD, '''                let result = self.equiv_main(a, b);
                match &result {
                    Ok(cmp) if cmp.is_equiv() => (),
                    _ => return result,
                }
                if let Some(next) = self.recur_mode.next() {
                    match next {
                        Ok(pair) => {
                            let [an, bn] = pair;
                            (a, b) = (an, bn);
                        },
                        Err(cmp) => break Ok(cmp),
                    }
                }
                else {
                    break result;
                }''')]
MAIN_OLD = '''            let mut cmp = Cmp::new_equiv();

            // For trait method implementations that always return the same constant, dead
            // branches should be eliminated by the optimizer.  For the other methods, inlining
            // should be doable by the optimizer.

            if try_into!(self.descend_mode.do_traverse()) && a.id() != b.id() {
                cmp = a.equiv_modulo_edges(&b);
                if cmp.is_equiv() {
                    let mut edges_iter = EdgesIter::new([a, b]);
                    match edges_iter.next_no_adv() {
                        Some(Ok(_)) => {
                            #[allow(clippy::shadow_unrelated)]
                            let [a, b] = &edges_iter.counterparts;
                            if try_into!(self.descend_mode.do_edges(a, b)) {
                                cmp = try_into!(P::RecurMode::recur(self, edges_iter));
                            }
                        },
                        Some(Err(cmp_amount_edges)) => cmp = cmp_amount_edges,
                        None => (),
                    }
                }
            }
            Ok(cmp)'''
R['main_early'] = [(GEN, MAIN_OLD, '''            if !try_into!(self.descend_mode.do_traverse()) {
                return Ok(Cmp::new_equiv());
            }
            if a.id() == b.id() {
                return Ok(Cmp::new_equiv());
            }
            let cmp = a.equiv_modulo_edges(&b);
            if !cmp.is_equiv() {
                return Ok(cmp);
            }
            let mut edges_iter = EdgesIter::new([a, b]);
            match edges_iter.next_no_adv() {
                None => Ok(cmp),
                Some(Err(different)) => Ok(different),
                Some(Ok(_)) => {
                    let descend = try_into!(self.descend_mode.do_edges(&edges_iter.counterparts[0], &edges_iter.counterparts[1]));
                    if descend { P::RecurMode::recur(self, edges_iter).map_err(Into::into) } else { Ok(cmp) }
                },
            }''')]
R['main_helper'] = [(GEN, MAIN_OLD, '''            if try_into!(self.descend_mode.do_traverse()) && a.id() != b.id() {
                let cmp = a.equiv_modulo_edges(&b);
                if cmp.is_equiv() { self.equiv_edges(EdgesIter::new([a, b])) } else { Ok(cmp) }
            }
            else {
                Ok(Cmp::new_equiv())
            }
        }

        #[inline]
        fn equiv_edges(
            &mut self,
            mut edges_iter: EdgesIter<P::Node>,
        ) -> Result<<P::Node as Node>::Cmp, P::Error>
        {
            if let Some(first) = edges_iter.next_no_adv() {
                if let Err(cmp_amount_edges) = first {
                    return Ok(cmp_amount_edges);
                }
                let [a, b] = &edges_iter.counterparts;
                match self.descend_mode.do_edges(a, b) {
                    Ok(true) => return P::RecurMode::recur(self, edges_iter).map_err(Into::into),
                    Ok(false) => (),
                    Err(error) => return Err(error.into()),
                }
            }
            Ok(Cmp::new_equiv())''')]
R['main_ids_first'] = [(GEN, 'if try_into!(self.descend_mode.do_traverse()) && a.id() != b.id() {', '''let traverse = try_into!(self.descend_mode.do_traverse());
            let same = traverse && {
                let (a_id, b_id) = (a.id(), b.id());
                a_id == b_id
            };
            if traverse && !same {''')]
R['iter_new'] = [(GEN, 'Self { counterparts, next_index: Some(zero()) }', '''let first = N::Index::default();
            let next_index = Some(first);
            Self { next_index, counterparts }'''), (GEN, '''    fn zero<T: Default>() -> T
    {
        T::default()
    }
''', '')]
R['iter_rename'] = [(GEN, 'pub(super) counterparts: Counterparts<N>,\n        next_index:              Option<N::Index>,', 'pub(super) a: N,\n        pub(super) b: N,\n        index: Option<N::Index>,'),
    (GEN, 'Self { counterparts, next_index: Some(zero()) }', 'let [a, b] = counterparts;\n            Self { a, b, index: Some(zero()) }'),
    (GEN, NEXT_OLD, NEXT_OLD.replace('self.next_index', 'self.index').replace('let [a, b] = &self.counterparts;', 'let (a, b) = (&self.a, &self.b);')),
    (GEN, 'let [a, b] = &edges_iter.counterparts;', 'let EdgesIter { a, b, .. } = &edges_iter;')]
PRE_OLD = '''                Ok(cmp) => Ok(cmp),
                Err(PrecheckError::RecurError(e)) => Err(e),
                Err(PrecheckError::LimitReached) => {
                    let mut e: Equiv<InterleaveArgs<N, P>> = e.into();
                    e.equiv(a, b).map_err(|InterleaveError(error)| error)
                },
            }'''
R['pre_return'] = [(GEN, PRE_OLD, '''                Ok(cmp) => return Ok(cmp),
                Err(PrecheckError::RecurError(e)) => return Err(e),
                Err(PrecheckError::LimitReached) => (),
            }
            let mut full = Equiv::<InterleaveArgs<N, P>>::from(e);
            match full.equiv(a, b) {
                Ok(cmp) => Ok(cmp),
                Err(InterleaveError(error)) => Err(error),
            }''')]
R['pre_split'] = [(GEN, PRE_OLD, '''                Err(PrecheckError::LimitReached) => again::<N, P>(e, a, b),
                Err(PrecheckError::RecurError(e)) => Err(e),
                Ok(cmp) => Ok(cmp),
            }
        }

        #[inline]
        fn again<N, P>(
            prechecked: Equiv<PrecheckArgs<N, P>>,
            a: N,
            b: N,
        ) -> Result<N::Cmp, P::Error>
        where
            N: Node + Clone,
            P: Params<N>,
        {
            prechecked.into::<InterleaveArgs<N, P>>().equiv(a, b).map_err(|e| e.0)''')]
R['equiv_from'] = [(GEN, '''            Self {
                descend_mode: PT::DescendMode::default(),
                recur_mode:   e.recur_mode.reset().into(),
            }''', '''            let Equiv { recur_mode, .. } = e;
            let mut it = Self::new(Default::default());
            it.recur_mode = recur_mode.reset().into();
            it''')]
R['equiv_default'] = [(GEN, '''            Self {
                descend_mode: P::DescendMode::default(),
                recur_mode:   P::RecurMode::default(),
            }''', 'Self::new(P::DescendMode::default())')]
R['increment_inline'] = [(GEN, 'i.increment()\n', 'T::increment(i)\n')]
CALL_OLD = '''                for next in edges_iter {
                    match next {
                        Ok([a, b]) => match it.equiv_main(a, b) {
                            Ok(cmp) if cmp.is_equiv() => (),
                            result => return result,
                        },
                        Err(cmp_amount_edges) => return Ok(cmp_amount_edges),
                    }
                }
                Ok(Cmp::new_equiv())'''
R['call_while'] = [(BAS, CALL_OLD, '''                let mut edges_iter = edges_iter;
                while let Some(next) = edges_iter.next() {
                    let [a, b] = match next {
                        Ok(pair) => pair,
                        Err(cmp) => return Ok(cmp),
                    };
                    let cmp = it.equiv_main(a, b)?;
                    if !cmp.is_equiv() {
                        return Ok(cmp);
                    }
                }
                Ok(Cmp::new_equiv())''')]
R['call_fold'] = [(BAS, CALL_OLD, '''                let mut edges_iter = edges_iter;
                let stopped = edges_iter.find_map(|next| {
                    let result = match next {
                        Ok([a, b]) => it.equiv_main(a, b),
                        Err(cmp) => return Some(Ok(cmp)),
                    };
                    if matches!(&result, Ok(cmp) if cmp.is_equiv()) { None } else { Some(result) }
                });
                stopped.unwrap_or_else(|| Ok(Cmp::new_equiv()))''')]
R['call_helper'] = [(BAS, CALL_OLD, '''                let mut cmp = <P::Node as Node>::Cmp::new_equiv();
                for next in edges_iter {
                    cmp = Self::one(it, next)?;
                    if !cmp.is_equiv() {
                        break;
                    }
                }
                Ok(cmp)'''), (BAS, '''        impl<P> RecurMode<P> for CallStack
        where P:''', '''        impl CallStack
        {
            fn one<P: equiv::Params<RecurMode = Self>>(
                it: &mut Equiv<P>,
                next: CounterpartsResult<P::Node>,
            ) -> Result<<P::Node as Node>::Cmp, P::Error>
            {
                next.map_or_else(Ok, |[a, b]| it.equiv_main(a, b))
            }
        }

        impl<P> RecurMode<P> for CallStack
        where P:''')]
LIM_OLD = '''                if self.0 > 0.into() {
                    self.0 -= 1.into(); // Overflow impossible, by conditional.
                    Ok(true)
                }
                else {
                    Err(LimitReached)
                }'''
R['lim_eq'] = [(BAS, LIM_OLD, '''                let Self(left) = self;
                if *left == T::from(0) {
                    return Err(LimitReached);
                }
                *left -= T::from(1);
                Ok(true)''')]
R['lim_cmp'] = [(BAS, LIM_OLD, '''                match self.0.cmp(&0_u8.into()) {
                    core::cmp::Ordering::Greater => {
                        self.0.sub_assign(1_u8.into());
                        Ok(true)
                    },
                    _ => Err(LimitReached),
                }'''), (BAS, '''        impl<T, P> DescendMode<P> for Limited<T>''', '''        #[allow(unused_imports)]
        use core::ops::SubAssign as _;

        impl<T, P> DescendMode<P> for Limited<T>''')]
R['lim_ok_or'] = [(BAS, LIM_OLD, '''                let some_left = self.0 >= 1.into();
                if some_left {
                    self.0 -= 1.into();
                }
                some_left.then_some(true).ok_or(LimitReached)''')]
INT_OLD = '''                self.ticker = self.ticker.saturating_sub(1);

                // "fast" phase
                let r = if self.ticker >= 0 {'''
R['int_checked'] = [(CS, 'self.ticker = self.ticker.saturating_sub(1);', 'self.ticker = self.ticker.checked_sub(1).unwrap_or(i32::MIN);')]
R['int_minus'] = [(CS, 'self.ticker = self.ticker.saturating_sub(1);', 'self.ticker -= 1;')]
R['int_wrapping'] = [(CS, 'self.ticker = self.ticker.saturating_sub(1);', 'let (ticker, _) = self.ticker.overflowing_sub(1);\n                self.ticker = ticker;')]
R['int_nodebug'] = [(CS, '''                    debug_assert_eq!(
                        (self.ticker, false),
                        Self::SLOW_LIMIT_NEG.overflowing_sub(1),
                        "overflow is supposed to be impossible here"
                    );
''', '')]
R['int_helper'] = [(CS, 'self.ticker = self.rng.rand_upto(Self::FAST_LIMIT_MAX_RANGE_END).into();', 'self.start_fast();'),
    (CS, '''        impl<P: Params> Default for Interleave<P>''', '''        impl<P: Params> Interleave<P>
        {
            fn start_fast(&mut self)
            {
                use random::NumberGenerator as _;
                let limit: u16 = self.rng.rand_upto(Self::FAST_LIMIT_MAX_RANGE_END);
                self.ticker = i32::from(limit);
            }
        }

        impl<P: Params> Default for Interleave<P>'''), (CS, '            random::NumberGenerator as _,\n', '')]
DO_OLD = None
R['int_early'] = 'file'
R['class_tuple'] = [(EC, '''            let (larger_rep, smaller_rep);
            if aw >= bw {
                larger_rep = ar;
                smaller_rep = br;
            }
            else {
                larger_rep = br;
                smaller_rep = ar;
            }
''', '''            let (larger_rep, smaller_rep) = if bw > aw { (br, ar) } else { (ar, br) };
''')]
R['class_swap'] = [(EC, '''            let (larger_rep, smaller_rep);
            if aw >= bw {
                larger_rep = ar;
                smaller_rep = br;
            }
            else {
                larger_rep = br;
                smaller_rep = ar;
            }
''', '''            let (mut larger_rep, mut smaller_rep) = (ar, br);
            if aw < bw {
                core::mem::swap(&mut larger_rep, &mut smaller_rep);
            }
'''), ]
R['class_set_order'] = [(EC, '''            Class::set_rep(&larger_rep, aw.saturating_add(bw));
            Class::set_link(&smaller_rep, larger_rep);''', '''            let weight = aw.checked_add(bw).unwrap_or(usize::MAX);
            smaller_rep.set(Class::Link { next: T::Rc::clone(&larger_rep) });
            larger_rep.set(Class::Representative { weight });''')]
R['class_inner'] = [(EC, '''        let dummy = Self::default();
        let inner = it.replace(dummy);
        let result = inner.clone();
        it.set(inner);
        result''', '''        let inner = it.take();
        it.set(inner.clone());
        inner''')]
GET_OLD = '''        let it_inner = Self::clone_inner(it);

        match it_inner {'''
R['class_twopass'] = 'file'
R['same_class_if'] = [(EC, '''            (Some(ac), Some(bc)) => Self::all_seen(ac, bc),
''', '''            (Some(ac), Some(bc)) => {
                let (ac, bc) = (T::Rc::clone(ac), T::Rc::clone(bc));
                Self::all_seen(&ac, &bc)
            },
''')]
R['same_class_chain'] = 'file'
R['none_seen_order'] = [(EC, '''        let ac = Class::new();
        let bc = T::Rc::clone(&ac);
        self.table.insert(ak.clone(), ac);
        self.table.insert(bk.clone(), bc);''', '''        let class = <Class<T::Rc>>::new();
        for k in [bk, ak] {
            self.table.insert(k.clone(), class.clone());
        }''')]
R['next_loop'] = [(UT, '''            while let Some(subiter) = self.next_subiter_as_mut() {
                let next = subiter.next();

                if !subiter.has_next() {
                    drop(self.next_subiter()); // Remove empty iterators, before returning `Some`.
                }

                if next.is_some() {
                    return next;
                }
            }

            None''', '''            loop {
                let subiter = self.next_subiter_as_mut()?;
                let next = subiter.next();
                let exhausted = !subiter.has_next();
                if exhausted {
                    let _: Option<Self::SubIter> = self.next_subiter();
                }
                if let Some(next) = next {
                    break Some(next);
                }
            }''')]
R['has_next'] = [(UT, 'self.next_no_adv().is_some()', '!matches!(self.next_no_adv(), None)')]
R['has_next_any'] = [(GEN, '''        fn next_no_adv(&mut self) -> Option<Self::Item>
        {
            self.get_next(false)
        }''', '''        fn next_no_adv(&mut self) -> Option<Self::Item>
        {
            self.get_next(false)
        }

        fn has_next(&mut self) -> bool
        {
            match &self.next_index {
                Some(i) => self.counterparts.iter().any(|n| n.get_edge(i).is_some()),
                None => false,
            }
        }''')]
R['clear_new'] = [(UT, 'self.0.clear()', 'while self.0.pop().is_some() {}'), ] if False else [(UT, '                        self.0.clear()', '                        self.0.truncate(0)')]
R['coll_structs'] = 'file'
R['reset_let'] = [(DS, '''            fn reset(mut self) -> Self
            {
                self.0.clear();
                self''', '''            fn reset(self) -> Self
            {
                let Self(mut pending) = self;
                pending.clear();
                Self(pending)''')]
R['reset_default'] = [(WS, '''            fn reset(mut self) -> Self
            {
                self.0.clear();
                self''', '''            fn reset(self) -> Self
            {
                drop(self);
                Self::default()''')]
R['recur_let'] = [(DS, '''                it.recur_mode.0.extend(edges_iter);
                Ok(Cmp::new_equiv())''', '''                let Self(pending) = &mut it.recur_mode;
                pending.extend(edges_iter);
                let cmp = <E::Node as Node>::Cmp::new_equiv();
                Ok(cmp)''')]
R['refid_ops'] = [(UT, 'self.as_ptr() < other.as_ptr()', 'self.cmp(other).is_lt()'), (UT, 'self.as_ptr() <= other.as_ptr()', 'self.cmp(other) != Ordering::Greater'),
    (UT, 'self.as_ptr() > other.as_ptr()', 'other < self'), (UT, 'self.as_ptr() >= other.as_ptr()', '!(self < other)'), (UT, 'Some(Ord::cmp(self, other))', 'Some(self.cmp(other))')]
R['refid_ptr'] = [(UT, '''            let p: *const T::Target = {
                let r: &T::Target = &*self.0;
                r
            };
            p''', '''            let Self(it) = self;
            it.deref() as *const T::Target'''), (UT, 'ptr::eq(self.as_ptr(), other.as_ptr())', 'self.as_ptr() == other.as_ptr()'),
    (UT, 'ptr::hash(self.as_ptr(), state);', 'self.as_ptr().hash(state);'), (UT, 'Ord::cmp(&self.as_ptr(), &other.as_ptr())', 'self.as_ptr().cmp(&other.as_ptr())')]
R['step_max'] = [(LIKE, 'self.checked_add(1)', 'if *self < Self::MAX { Some(*self + 1) } else { None }')]
R['step_overflowing'] = [(LIKE, 'self.checked_add(1)', '''match self.overflowing_add(1) {
                            (next, false) => Some(next),
                            (_, true) => None,
                        }''')]
R['step_eq'] = [(LIKE, 'self.checked_add(1)', '(*self != <$t>::MAX).then(|| self.wrapping_add(1))')]
R['cmp_match'] = [(LIB, 'ord.is_eq()\n    }', 'matches!(ord, Ordering::Equal)\n    }'), (LIB, 'self.is_eq()\n    }', '*self == Ordering::Equal\n    }')]
R['cmp_ne'] = [(LIB, 'ord.is_eq()\n    }', '!ord.is_ne()\n    }'), (LIB, 'self.is_eq()\n    }', 'match self {\n            Ordering::Equal => true,\n            Ordering::Less | Ordering::Greater => false,\n        }\n    }')]
R['rng_lets'] = [(RND + 'wyrng.rs', 'wyrng(&mut self.0) as u16 % exclusive_end', 'let r = wyrng(&mut self.0) as u16;\n        r % exclusive_end.get()'),
    (RND + 'fastrand.rs', 'fastrand::u16(0 .. exclusive_end.get())', 'let end = exclusive_end.get();\n        fastrand::u16(.. end)'),
    (RND + 'oorandom.rs', 'let exclusive_end: u32 = exclusive_end.get().into();', 'let exclusive_end = u32::from(exclusive_end.get());')]
R['premade_chain'] = [(DS, '''        let mut e = Equiv::<Args<N>>::default();
        #[allow(unstable_name_collisions)]
        e.equiv(a, b).into_ok()''', '''        match Equiv::<Args<N>>::new(Unlimited).equiv(a, b) {
            Ok(cmp) => cmp,
            #[allow(clippy::uninhabited_references)]
            Err(e) => match e {},
        }'''), (DS, '''        let mut e = Equiv::<Args<N, L>>::new(Limited(limit));
        e.equiv(a, b)''', '''        let mode = Limited(limit);
        Equiv::<Args<N, L>>::new(mode).equiv(a, b)''')]
R['table_method'] = [(EC, 'HashMap::get(&self.0, k)', 'let Self(map) = self;\n                    map.get(k)'), (EC, 'drop(HashMap::insert(&mut self.0, k, v));', 'let _: Option<Rc> = self.0.insert(k, v);')]
R['table_entry'] = [(EC, 'drop(HashMap::insert(&mut self.0, k, v));', '''match self.0.entry(k) {
                        std::collections::hash_map::Entry::Occupied(mut entry) => drop(entry.insert(v)),
                        std::collections::hash_map::Entry::Vacant(entry) => drop(entry.insert(v).clone()),
                    }''')]
R['table_extend'] = [(EC, 'drop(HashMap::insert(&mut self.0, k, v));', 'self.0.extend([(k, v)]);')]
R['rc_deref'] = [(EC, '&*self.0', 'self.0.deref()')]
R['class_default'] = [(EC, 'R::new(Cell::new(Self::default()))', 'R::new(Cell::new(Self::Representative { weight: 1 }))')]
R['get_rep_tuple'] = [(EC, 'Self::get_rep_and_weight(it).0', 'let (rep, _weight) = Self::get_rep_and_weight(it);\n        rep')]
R['const_min'] = [(CS, 'pub const SLOW_LIMIT_NEG: i32 = -(P::SLOW_LIMIT as i32);', 'pub const SLOW_LIMIT_NEG: i32 = 0 - P::SLOW_LIMIT as i32;'),
    (CS, 'match NonZeroU16::new(P::FAST_LIMIT_MAX + 1) {', 'match NonZeroU16::new(1 + P::FAST_LIMIT_MAX) {')]
R['ids_vars'] = [(CS, 'else if self.equiv_classes.same_class(&a.id(), &b.id()) {', 'else if {\n                    let (ak, bk) = (a.id(), b.id());\n                    self.equiv_classes.same_class(&ak, &bk)\n                } {')]

# ---- second batch
MAIN_OLD = """            if try_into!(self.descend_mode.do_traverse()) && a.id() != b.id() {
                cmp = a.equiv_modulo_edges(&b);
                if cmp.is_equiv() {
                    let mut edges_iter = EdgesIter::new([a, b]);
                    match edges_iter.next_no_adv() {
                        Some(Ok(_)) => {
                            #[allow(clippy::shadow_unrelated)]
                            let [a, b] = &edges_iter.counterparts;
                            if try_into!(self.descend_mode.do_edges(a, b)) {
                                cmp = try_into!(P::RecurMode::recur(self, edges_iter));
                            }
                        },
                        Some(Err(cmp_amount_edges)) => cmp = cmp_amount_edges,
                        None => (),
                    }
                }
            }

            Ok(cmp)"""
R['main_split'] = [(GEN, MAIN_OLD, """            if !try_into!(self.descend_mode.do_traverse()) {
                return Ok(cmp);
            }
            let same_node = a.id() == b.id();
            if same_node {
                return Ok(cmp);
            }
            cmp = a.equiv_modulo_edges(&b);
            if !cmp.is_equiv() {
                return Ok(cmp);
            }
            self.edges_main(cmp, EdgesIter::new([a, b]))"""), (GEN, """        /// The main logic of the algorithm.
""", """        fn edges_main(
            &mut self,
            cmp: <P::Node as Node>::Cmp,
            mut edges: EdgesIter<P::Node>,
        ) -> Result<<P::Node as Node>::Cmp, P::Error>
        {
            match edges.next_no_adv() {
                None => return Ok(cmp),
                Some(Err(different)) => return Ok(different),
                Some(Ok([_, _])) => {},
            }
            let descend = {
                let [ref a, ref b] = edges.counterparts;
                self.descend_mode.do_edges(a, b).map_err(Into::into)?
            };
            if descend { P::RecurMode::recur(self, edges).map_err(Into::into) } else { Ok(cmp) }
        }

        /// The main logic of the algorithm.
""")]
R['main_closure'] = [(GEN, MAIN_OLD, """            let traverse = match self.descend_mode.do_traverse() {
                Ok(t) => t,
                Err(e) => return Err(e.into()),
            };
            if !(traverse && a.id().ne(&b.id())) {
                return Ok(cmp);
            }
            cmp = a.equiv_modulo_edges(&b);
            if cmp.is_equiv() {
                let mut edges_iter = EdgesIter::new([a, b]);
                let first = edges_iter.next_no_adv();
                if let Some(first) = first {
                    if let Err(c) = first {
                        cmp = c;
                    }
                    else {
                        drop(first);
                        let [ref x, ref y] = edges_iter.counterparts;
                        let go = self.descend_mode.do_edges(x, y);
                        cmp = match go {
                            Ok(true) => P::RecurMode::recur(self, edges_iter).map_err(|e| e.into())?,
                            Ok(false) => cmp,
                            Err(e) => return Err(e.into()),
                        };
                    }
                }
            }
            Ok(cmp)""")]
LOOP_OLD = """            loop {
                match self.equiv_main(a, b) {
                    Ok(cmp) if cmp.is_equiv() => match self.recur_mode.next() {
                        Some(Ok([an, bn])) => {
                            a = an;
                            b = bn;
                        },
                        Some(Err(cmp_amount_edges)) => return Ok(cmp_amount_edges),
                        None => return Ok(cmp),
                    },
                    result => return result,
                }
            }"""
R['loop_while2'] = [(GEN, LOOP_OLD, """            let mut cmp = self.equiv_main(a, b)?;
            while cmp.is_equiv() {
                match self.recur_mode.next() {
                    None => break,
                    Some(Err(c)) => return Ok(c),
                    Some(Ok([an, bn])) => cmp = self.equiv_main(an, bn)?,
                }
            }
            Ok(cmp)"""), (GEN, """            mut a: P::Node,
            mut b: P::Node,
""", """            a: P::Node,
            b: P::Node,
""")]
R['loop_pair'] = [(GEN, LOOP_OLD, """            let mut pair = Some(Ok([a, b]));
            let mut last = Cmp::new_equiv();
            while let Some(next) = pair {
                last = match next {
                    Ok([a, b]) => self.equiv_main(a, b)?,
                    Err(c) => return Ok(c),
                };
                if !last.is_equiv() {
                    break;
                }
                pair = self.recur_mode.next();
            }
            Ok(last)"""), (GEN, """            mut a: P::Node,
            mut b: P::Node,
""", """            a: P::Node,
            b: P::Node,
""")]
R['loop_result'] = [(GEN, LOOP_OLD, """            loop {
                let result = self.equiv_main(a, b);
                let go_on = matches!(&result, Ok(cmp) if cmp.is_equiv());
                if !go_on {
                    return result;
                }
                let Some(next) = self.recur_mode.next() else { return result };
                [a, b] = match next {
                    Ok(pair) => pair,
                    Err(cmp) => break Ok(cmp),
                };
            }""")]
R['getnext_split'] = [(GEN, NEXT_OLD, """            let item = self.peek();
            if advance {
                match item {
                    Some(Ok(_)) => self.advance(),
                    None => self.next_index = None,
                    Some(Err(_)) => {},
                }
            }
            item"""), (GEN, "        fn get_next(\n", """        fn peek(&self) -> Option<CounterpartsResult<N>>
        {
            let i = self.next_index.as_ref()?;
            let [ae, be] = self.counterparts.each_ref().map(|n| n.get_edge(i));
            match (ae, be) {
                (Some(ae), Some(be)) => Some(Ok([ae, be])),
                (Some(_), None) => Some(Err(N::Cmp::from_ord(Ordering::Greater))),
                (None, Some(_)) => Some(Err(N::Cmp::from_ord(Ordering::Less))),
                (None, None) => None,
            }
        }

        fn advance(&mut self)
        {
            if let Some(i) = self.next_index.take() {
                self.next_index = increment_index(&i);
            }
        }

        fn get_next(
""")]
R['getnext_combin'] = [(GEN, NEXT_OLD, """            let i = match &self.next_index {
                None => return None,
                Some(i) => i,
            };
            let (a, b) = (&self.counterparts[0], &self.counterparts[1]);
            let edges = a.get_edge(i).map_or_else(
                || b.get_edge(i).map(|_| Err(Ordering::Less)),
                |ae| Some(b.get_edge(i).map(|be| [ae, be]).ok_or(Ordering::Greater)),
            );
            if advance && !matches!(edges, Some(Err(_))) {
                self.next_index = if edges.is_some() { increment_index(i) } else { None };
            }
            edges.map(|e| e.map_err(N::Cmp::from_ord))""")]
R['getnext_index'] = [(GEN, NEXT_OLD, """            let i = self.next_index.take()?;
            let ae = self.counterparts[0].get_edge(&i);
            let be = self.counterparts[1].get_edge(&i);
            let item = match (ae, be) {
                (None, None) => None,
                (Some(ae), Some(be)) => Some([ae, be]),
                (ae, _) => {
                    let less = ae.is_none();
                    self.next_index = Some(i);
                    return Some(Err(N::Cmp::from_ord(if less { Ordering::Less } else { Ordering::Greater })));
                },
            };
            self.next_index = if advance { item.is_some().then(|| increment_index(&i)).flatten() } else { Some(i) };
            item.map(Ok)""")]
LAZIER_OLD = """            while let Some(subiter) = self.next_subiter_as_mut() {
                let next = subiter.next();
                if !subiter.has_next() {
                    drop(self.next_subiter()); // Remove empty iterators, before returning `Some`.
                }
                if next.is_some() {
                    return next;
                }
            }
            None"""
R['lazier_loop'] = [(UT, LAZIER_OLD, """            loop {
                let subiter = self.next_subiter_as_mut()?;
                let item = subiter.next();
                let exhausted = !subiter.has_next();
                if exhausted {
                    let _ended = self.next_subiter();
                }
                if let Some(item) = item {
                    break Some(item);
                }
            }""")]
R['lazier_match'] = [(UT, LAZIER_OLD, """            let mut found = None;
            while found.is_none() {
                match self.next_subiter_as_mut() {
                    None => break,
                    Some(subiter) => {
                        found = subiter.next();
                        if subiter.next_no_adv().is_none() {
                            self.next_subiter();
                        }
                    },
                }
            }
            found""")]
CLONE_OLD = """        let dummy = Self::default();
        let inner = it.replace(dummy);
        let result = inner.clone();
        it.set(inner);
        result"""
R['cell_take'] = [(EC, CLONE_OLD, """        let inner = it.take();
        let copy = inner.clone();
        it.set(inner);
        copy""")]
R['cell_swap'] = [(EC, CLONE_OLD, """        let other = Cell::new(Self::default());
        it.swap(&other);
        let inner = other.into_inner();
        it.set(inner.clone());
        inner""")]
R['eq_asptr'] = [(EC, "        ptr::eq(&**it, &**other)\n", """        let (x, y): (&Cell<Self>, &Cell<Self>) = (it, other);
        ptr::eq(x, y)
""")]
SAME_OLD = """        match (self.table.get(ak), self.table.get(bk)) {
            (None, None) => {
                self.none_seen(ak, bk);
                false
            },
            (Some(ac), None) => {
                let ac = &T::Rc::clone(ac); // To end borrow of `self`.
                self.some_seen(ac, bk);
                false
            },
            (None, Some(bc)) => {
                let bc = &T::Rc::clone(bc); // To end borrow of `self`.
                self.some_seen(bc, ak);
                false
            },
            (Some(ac), Some(bc)) => Self::all_seen(ac, bc),
        }"""
R['same_array'] = [(EC, SAME_OLD, """        let classes = [ak, bk].map(|k| self.table.get(k).cloned());
        match classes {
            [Some(ac), Some(bc)] => return Self::all_seen(&ac, &bc),
            [None, None] => self.none_seen(ak, bk),
            [Some(c), None] => self.some_seen(&c, bk),
            [None, Some(c)] => self.some_seen(&c, ak),
        }
        false""")]
R['same_enum'] = [(EC, SAME_OLD, """        enum Seen<R>
        {
            Neither,
            First(R),
            Second(R),
            Both(R, R),
        }
        let seen = match (self.table.get(ak), self.table.get(bk)) {
            (None, None) => Seen::Neither,
            (Some(c), None) => Seen::First(c.clone()),
            (None, Some(c)) => Seen::Second(c.clone()),
            (Some(x), Some(y)) => Seen::Both(x.clone(), y.clone()),
        };
        if let Seen::Both(x, y) = &seen {
            return Self::all_seen(x, y);
        }
        match seen {
            Seen::First(c) => self.some_seen(&c, bk),
            Seen::Second(c) => self.some_seen(&c, ak),
            _ => self.none_seen(ak, bk),
        }
        false""")]
ALL_OLD = """        if Class::eq_rep(&ar, &br) {
            true
        }
        // Merge classes, according to the "weighted union rule" as prescribed by the paper.
        else {
            let (larger_rep, smaller_rep);

            if aw >= bw {
                larger_rep = ar;
                smaller_rep = br;
            }
            else {
                larger_rep = br;
                smaller_rep = ar;
            }
            Class::set_rep(&larger_rep, aw.saturating_add(bw));
            Class::set_link(&smaller_rep, larger_rep);

            false
        }"""
R['all_early'] = [(EC, ALL_OLD, """        let same = Class::eq_rep(&ar, &br);
        if same {
            return same;
        }
        let ((larger, lw), (smaller, sw)) = if bw > aw { ((br, bw), (ar, aw)) } else { ((ar, aw), (br, bw)) };
        let weight = match lw.checked_add(sw) {
            Some(w) => w,
            None => usize::MAX,
        };
        larger.set(Class::Representative { weight });
        smaller.set(Class::Link { next: larger });
        same""")]
R['all_union_fn'] = [(EC, ALL_OLD, """        if !Class::eq_rep(&ar, &br) {
            let union = |into: T::Rc, from: &T::Rc| {
                Class::set_rep(&into, aw.saturating_add(bw));
                Class::set_link(from, into);
            };
            if aw < bw { union(br, &ar) } else { union(ar, &br) }
            return false;
        }
        true""")]
INT_OLD = """                let r = if self.ticker >= 0 {
                    true
                }
                // "slow" limit reached, change to "fast" phase
                else if self.ticker < Self::SLOW_LIMIT_NEG {
                    debug_assert_eq!(
                        (self.ticker, false),
                        Self::SLOW_LIMIT_NEG.overflowing_sub(1),
                        "overflow is supposed to be impossible here"
                    );
                    self.ticker = self.rng.rand_upto(Self::FAST_LIMIT_MAX_RANGE_END).into();
                    true
                }
                // "slow" phase
                else if self.equiv_classes.same_class(&a.id(), &b.id()) {
                    self.ticker = 0;
                    false
                }
                else {
                    true
                };
                Ok(r)"""
R['int_match'] = [(CS, INT_OLD, """                Ok(match self.ticker {
                    0 ..= i32::MAX => true,
                    t if t < Self::SLOW_LIMIT_NEG => {
                        self.ticker = i32::from(self.rng.rand_upto(Self::FAST_LIMIT_MAX_RANGE_END));
                        true
                    },
                    _ => {
                        let same = self.equiv_classes.same_class(&a.id(), &b.id());
                        if same {
                            self.ticker = 0;
                        }
                        !same
                    },
                })""")]
R['int_phase'] = [(CS, INT_OLD, """                enum Phase
                {
                    Fast,
                    Renew,
                    Slow,
                }
                let phase = if self.ticker.is_negative() {
                    if self.ticker >= Self::SLOW_LIMIT_NEG { Phase::Slow } else { Phase::Renew }
                }
                else {
                    Phase::Fast
                };
                if let Phase::Renew = phase {
                    let limit: u16 = self.rng.rand_upto(Self::FAST_LIMIT_MAX_RANGE_END);
                    self.ticker = limit.into();
                }
                let skip = matches!(phase, Phase::Slow) && {
                    let ids = (a.id(), b.id());
                    self.equiv_classes.same_class(&ids.0, &ids.1)
                };
                if skip {
                    self.ticker = 0;
                }
                Ok(!skip)""")]
R['int_cmp'] = [(CS, INT_OLD, """                use core::cmp::Ordering;
                let fast = match self.ticker.cmp(&0) {
                    Ordering::Less => false,
                    Ordering::Equal | Ordering::Greater => true,
                };
                if fast {
                    return Ok(true);
                }
                if !(Self::SLOW_LIMIT_NEG ..= -1).contains(&self.ticker) {
                    self.ticker = self.rng.rand_upto(Self::FAST_LIMIT_MAX_RANGE_END).into();
                    return Ok(true);
                }
                match self.equiv_classes.same_class(&a.id(), &b.id()) {
                    true => {
                        self.ticker = Default::default();
                        Ok(false)
                    },
                    false => Ok(true),
                }""")]
R['from_destructure'] = [(GEN, "                recur_mode:   e.recur_mode.reset().into(),\n", """                recur_mode:   {
                    let Equiv { recur_mode, .. } = e;
                    Into::<PT::RecurMode>::into(RecurMode::<PF>::reset(recur_mode))
                },
""")]
R['pre_if'] = [(GEN, """            match e.equiv(a.clone(), b.clone()) {
                Ok(cmp) => Ok(cmp),
                Err(PrecheckError::RecurError(e)) => Err(e),
                Err(PrecheckError::LimitReached) => {
                    let mut e: Equiv<InterleaveArgs<N, P>> = e.into();
                    e.equiv(a, b).map_err(|InterleaveError(error)| error)
                },
            }""", """            let precheck = e.equiv(a.clone(), b.clone());
            if let Err(error) = precheck {
                if let PrecheckError::RecurError(error) = error {
                    return Err(error);
                }
                let mut interleave = Equiv::<InterleaveArgs<N, P>>::from(e);
                return match interleave.equiv(a, b) {
                    Ok(cmp) => Ok(cmp),
                    Err(error) => Err(error.0),
                };
            }
            precheck.map_err(|_| unreachable!())""")]
R['recur_order'] = [('src/deep_safe.rs', """                it.recur_mode.0.extend(edges_iter);
                Ok(Cmp::new_equiv())""", """                let Self(queue) = &mut it.recur_mode;
                let for_now = Cmp::new_equiv();
                queue.extend(edges_iter);
                Ok(for_now)""")]
R['refid_cmp'] = [(UT, "            self.as_ptr() < other.as_ptr()\n", "            self.cmp(other) == Ordering::Less\n"),
    (UT, "            self.as_ptr() > other.as_ptr()\n", "            other.lt(self)\n"),
    (UT, "            self.as_ptr() >= other.as_ptr()\n", "            !self.lt(other)\n"),
    (UT, "            self.as_ptr() <= other.as_ptr()\n", "            self.cmp(other).is_le()\n")]
R['wyrng_mod'] = [(RND + 'wyrng.rs', "        wyrng(&mut self.0) as u16 % exclusive_end\n", """        let random = wyrng(&mut self.0);
        let low = (random & 0xFFFF) as u16;
        low % exclusive_end.get()
""")]
R['oorandom_try'] = [(RND + 'oorandom.rs', """        let exclusive_end: u32 = exclusive_end.get().into();
        self.0.rand_range(0 .. exclusive_end) as u16""", """        let end = u32::from(exclusive_end.get());
        let range = core::ops::Range { start: 0, end };
        let Self(rng) = self;
        rng.rand_range(range) as u16""")]
R['lim_mut'] = [(BAS, """                if self.0 > 0.into() {
                    self.0 -= 1.into(); // Overflow impossible, by conditional.
                    Ok(true)
                }
                else {
                    Err(LimitReached)
                }""", """                let Self(left) = self;
                let one = T::from(1);
                if *left < one {
                    return Err(LimitReached);
                }
                *left -= one;
                Ok(true)""")]
R['map_index'] = [(EC, "                    HashMap::get(&self.0, k)\n", "                    self.0.get_key_value(k).map(|(_, class)| class)\n")]
R['map_insert'] = [(EC, "                    drop(HashMap::insert(&mut self.0, k, v));\n", """                    if let Some(previous) = self.0.insert(k, v) {
                        drop(previous);
                    }
""")]
R['callstack_while'] = [(BAS, """                for next in edges_iter {
                    match next {
                        Ok([a, b]) => match it.equiv_main(a, b) {
                            Ok(cmp) if cmp.is_equiv() => (),
                            result => return result,
                        },
                        Err(cmp_amount_edges) => return Ok(cmp_amount_edges),
                    }
                }
                Ok(Cmp::new_equiv())""", """                let mut edges_iter = edges_iter;
                while let Some(next) = edges_iter.next() {
                    let cmp = match next {
                        Ok([a, b]) => it.equiv_main(a, b)?,
                        Err(different) => return Ok(different),
                    };
                    if !cmp.is_equiv() {
                        return Ok(cmp);
                    }
                }
                Ok(Cmp::new_equiv())""")]
R['callstack_find'] = [(BAS, """                for next in edges_iter {
                    match next {
                        Ok([a, b]) => match it.equiv_main(a, b) {
                            Ok(cmp) if cmp.is_equiv() => (),
                            result => return result,
                        },
                        Err(cmp_amount_edges) => return Ok(cmp_amount_edges),
                    }
                }
                Ok(Cmp::new_equiv())""", """                let mut edges_iter = edges_iter;
                edges_iter
                    .find_map(|next| match next {
                        Ok([a, b]) => match it.equiv_main(a, b) {
                            Ok(cmp) => (!cmp.is_equiv()).then(|| Ok(cmp)),
                            error => Some(error),
                        },
                        Err(cmp) => Some(Ok(cmp)),
                    })
                    .unwrap_or_else(|| Ok(Cmp::new_equiv()))""")]


def special(work):
    """Edits that replace whole stretches of a file."""
    def between(file, start, end, new):
        p = os.path.join(work, file)
        s = open(p).read()
        i = s.index(start)
        j = s.index(end, i)
        open(p, 'w').write(s[:i] + new + s[j:])
    return {
        'int_early': lambda: between(CS, '                // Only decrement the ticker for branch nodes.', '            /// Always traverse nodes, without', '''                self.ticker = self.ticker.saturating_sub(1);
                if self.ticker < Self::SLOW_LIMIT_NEG {
                    let limit = self.rng.rand_upto(Self::FAST_LIMIT_MAX_RANGE_END);
                    self.ticker = limit.into();
                    return Ok(true);
                }
                if self.ticker < 0 && self.equiv_classes.same_class(&a.id(), &b.id()) {
                    self.ticker = 0;
                    return Ok(false);
                }
                Ok(true)
            }

'''),
        'class_twopass': lambda: between(EC, '        let it_inner = Self::clone_inner(it);', '    fn get_rep(', '''        // Find the representative.
        let mut rep = R::clone(it);
        let weight = loop {
            match Self::clone_inner(&rep) {
                Self::Representative { weight } => break weight,
                Self::Link { next } => rep = next,
            }
        };
        // Link all on the way to it directly.
        let mut cur = R::clone(it);
        while let Self::Link { next } = Self::clone_inner(&cur) {
            cur.set(Self::Link { next: R::clone(&rep) });
            cur = next;
        }
        (rep, weight)
    }

    /// Get the representative of the class.
'''),
        'same_class_chain': lambda: between(EC, '        match (self.table.get(ak), self.table.get(bk)) {', '    }\n}\n', '''        let ac = self.table.get(ak).map(T::Rc::clone);
        let bc = self.table.get(bk).cloned();
        if let Some(ac) = ac {
            if let Some(bc) = bc {
                return Self::all_seen(&ac, &bc);
            }
            self.some_seen(&ac, bk);
        }
        else if let Some(bc) = bc {
            self.some_seen(&bc, ak);
        }
        else {
            self.none_seen(ak, bk);
        }
        false
'''),
        'coll_structs': lambda: between(UT, '    macro_rules! provided_impls {', '}\n\n\nmod non_advancing_iterator', '''    impl<I> LazyVecStack<I>
    {
        pub(crate) fn with_capacity(capacity: usize) -> Self
        {
            let mut v = Vec::new();
            v.reserve(capacity);
            Self(v)
        }

        pub(crate) fn clear(&mut self)
        {
            self.0 = Vec::new();
        }
    }

    impl<I> LazyVecQueue<I>
    {
        pub(crate) fn with_capacity(capacity: usize) -> Self
        {
            Self(VecDeque::with_capacity(capacity))
        }

        pub(crate) fn clear(&mut self)
        {
            drop(core::mem::take(&mut self.0));
        }
    }

    impl<I: NonAdvancingIterator> LazierIterator for LazyVecStack<I>
    {
        type SubIter = I;

        fn extend(
            &mut self,
            subiter: Self::SubIter,
        )
        {
            self.0.push(subiter);
        }

        fn next_subiter_as_mut(&mut self) -> Option<&mut Self::SubIter>
        {
            self.0.iter_mut().last()
        }

        fn next_subiter(&mut self) -> Option<Self::SubIter>
        {
            self.0.pop()
        }
    }

    impl<I: NonAdvancingIterator> LazierIterator for LazyVecQueue<I>
    {
        type SubIter = I;

        fn extend(
            &mut self,
            subiter: Self::SubIter,
        )
        {
            self.0.push_back(subiter);
        }

        fn next_subiter_as_mut(&mut self) -> Option<&mut Self::SubIter>
        {
            self.0.get_mut(0)
        }

        fn next_subiter(&mut self) -> Option<Self::SubIter>
        {
            self.0.pop_front()
        }
    }
'''.replace('self.0.iter_mut().last()', 'self.0.last_mut()')),
    }


def main():
    out = sys.argv[1]
    want = set(sys.argv[2:])
    work = '/tmp/w/genr'
    shutil.rmtree(work, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', work], check=True)
    sp = special(work)
    for k, edits in R.items():
        if want and k not in want:
            continue
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=work, check=True)
        try:
            if edits == 'file':
                sp[k]()
            else:
                for file, old, new in edits:
                    p = os.path.join(work, file)
                    s = open(p).read()
                    # Blank and comment lines do not matter for finding it.
                    if s.count(old) == 1:
                        s = s.replace(old, new)
                    else:
                        lines = [l for l in old.split('\n') if l.strip() and not l.strip().startswith('//')]
                        pat = r'\n(?:[ \t]*(?://.*)?\n)*'.join(re.escape(l) for l in lines)
                        if old.endswith('\n'):
                            pat += r'\n'
                        if len(re.findall(pat, s)) != 1:
                            raise ValueError('%r occurs %d times' % (old[:70], len(re.findall(pat, s))))
                        s = re.sub(pat, lambda m: new, s)
                    open(p, 'w').write(s)
        except ValueError as e:
            print('%s: %s' % (k, e))
            continue
        os.makedirs('%s/%s' % (out, k), exist_ok=True)
        open('%s/%s/patch.diff' % (out, k), 'w').write(subprocess.run(['git', 'diff'], cwd=work, capture_output=True, text=True).stdout)
    shutil.rmtree(work)


if __name__ == '__main__':
    main()
