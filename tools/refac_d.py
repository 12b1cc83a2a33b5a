#!/usr/bin/env python3
"""A fourth set of edits that keep the behaviour.   refac_d.py OUTDIR [id ...] writes the patches."""
import refac
from refac import GEN, CS, BAS, UT, EC, LIKE, LIB, ROB, WS, DS, RND
R = {}

LOOP_OLD = """            loop {
                match self.equiv_main(a, b) {
                    Ok(cmp) if cmp.is_equiv() => match self.recur_mode.next() {
                        Some(Ok([an, bn])) => {
                            a = an;
                            b = bn;
                        },
                        Some(Err(cmp_amount_edges)) => return Ok(cmp_amount_edges),
                        None => return Ok(cmp),
                    },
                    result => return result,
                }
            }"""
R['loop_pairs'] = [(GEN, "            mut a: P::Node,\n            mut b: P::Node,", "            a: P::Node,\n            b: P::Node,"), (GEN, LOOP_OLD, """            let mut pair = [a, b];
            loop {
                let [x, y] = pair;
                let cmp = self.equiv_main(x, y)?;
                if !cmp.is_equiv() {
                    return Ok(cmp);
                }
                let Some(next) = self.recur_mode.next() else { return Ok(cmp) };
                pair = match next {
                    Ok(p) => p,
                    Err(c) => return Ok(c),
                };
            }""")]
R['loop_todo'] = [(GEN, "            mut a: P::Node,\n            mut b: P::Node,", "            a: P::Node,\n            b: P::Node,"), (GEN, LOOP_OLD, """            let mut todo = Some([a, b]);
            let mut res = Cmp::new_equiv();
            while let Some([x, y]) = todo.take() {
                res = self.equiv_main(x, y)?;
                if res.is_equiv() {
                    match self.recur_mode.next().transpose() {
                        Ok(p) => todo = p,
                        Err(c) => res = c,
                    }
                }
            }
            Ok(res)""")]
R['loop_flow'] = [(GEN, LOOP_OLD, """            loop {
                match self.equiv_once(a, b) {
                    core::ops::ControlFlow::Continue([an, bn]) => (a, b) = (an, bn),
                    core::ops::ControlFlow::Break(result) => return result,
                }
            }"""), (GEN, """    impl<P: Params> Equiv<P>
    {
        /// Do the algorithm""" if False else """        #[inline]
        pub fn equiv_main(""", """        #[inline]
        pub fn equiv_main(""")]
MAIN_OLD = """            let mut cmp = Cmp::new_equiv();
            if try_into!(self.descend_mode.do_traverse()) && a.id() != b.id() {
                cmp = a.equiv_modulo_edges(&b);

                if cmp.is_equiv() {
                    let mut edges_iter = EdgesIter::new([a, b]);

                    match edges_iter.next_no_adv() {
                        Some(Ok(_)) => {
                            #[allow(clippy::shadow_unrelated)]
                            let [a, b] = &edges_iter.counterparts;

                            if try_into!(self.descend_mode.do_edges(a, b)) {
                                cmp = try_into!(P::RecurMode::recur(self, edges_iter));
                            }
                        },
                        Some(Err(cmp_amount_edges)) => cmp = cmp_amount_edges,
                        None => (),
                    }
                }
            }

            Ok(cmp)"""
R['main_guards'] = [(GEN, MAIN_OLD, """            if !try_into!(self.descend_mode.do_traverse()) {
                return Ok(Cmp::new_equiv());
            }
            if a.id() == b.id() {
                return Ok(Cmp::new_equiv());
            }
            let own = a.equiv_modulo_edges(&b);
            if !own.is_equiv() {
                return Ok(own);
            }
            let mut edges_iter = EdgesIter::new([a, b]);
            let Some(first) = edges_iter.next_no_adv() else { return Ok(own) };
            if let Err(cmp_amount_edges) = first {
                return Ok(cmp_amount_edges);
            }
            let [x, y] = &edges_iter.counterparts;
            let descend = try_into!(self.descend_mode.do_edges(x, y));
            if descend { Ok(try_into!(P::RecurMode::recur(self, edges_iter))) } else { Ok(own) }""")]
R['main_fns'] = [(GEN, MAIN_OLD, """            fn differ<N: Node>(
                a: &N,
                b: &N,
            ) -> bool
            {
                let (x, y) = (a.id(), b.id());
                x != y
            }

            let traverse = try_into!(self.descend_mode.do_traverse());
            if !(traverse && differ(&a, &b)) {
                return Ok(Cmp::new_equiv());
            }
            match a.equiv_modulo_edges(&b) {
                cmp if cmp.is_equiv() => self.equiv_edges(cmp, EdgesIter::new([a, b])),
                cmp => Ok(cmp),
            }
        }

        /// Compare the edges.
        fn equiv_edges(
            &mut self,
            cmp: <P::Node as Node>::Cmp,
            mut edges_iter: EdgesIter<P::Node>,
        ) -> Result<<P::Node as Node>::Cmp, P::Error>
        {
            match edges_iter.next_no_adv() {
                None => Ok(cmp),
                Some(Err(different)) => Ok(different),
                Some(Ok(_)) => {
                    let descends = {
                        let [x, y] = &edges_iter.counterparts;
                        self.descend_mode.do_edges(x, y)
                    };
                    match descends {
                        Err(e) => Err(e.into()),
                        Ok(false) => Ok(cmp),
                        Ok(true) => P::RecurMode::recur(self, edges_iter).map_err(Into::into),
                    }
                },
            }""")]
R['main_label'] = [(GEN, MAIN_OLD, """            let cmp = 'decide: {
                if !try_into!(self.descend_mode.do_traverse()) || a.id() == b.id() {
                    break 'decide Cmp::new_equiv();
                }
                let own = a.equiv_modulo_edges(&b);
                if !own.is_equiv() {
                    break 'decide own;
                }
                let mut edges_iter = EdgesIter::new([a, b]);
                match edges_iter.next_no_adv() {
                    None => own,
                    Some(Err(c)) => c,
                    Some(Ok(_)) => {
                        let [x, y] = &edges_iter.counterparts;
                        if !try_into!(self.descend_mode.do_edges(x, y)) {
                            break 'decide own;
                        }
                        try_into!(P::RecurMode::recur(self, edges_iter))
                    },
                }
            };
            Ok(cmp)""")]
R['iter_sides'] = [(GEN, """        pub(super) counterparts: Counterparts<N>,
        next_index:              Option<N::Index>,""", """        pub(super) a: N,
        pub(super) b: N,
        next_index:   Option<N::Index>,"""),
    (GEN, "Self { counterparts, next_index: Some(zero()) }", "let [a, b] = counterparts;\n            Self { a, b, next_index: Some(zero()) }"),
    (GEN, "let [a, b] = &self.counterparts;", "let (a, b) = (&self.a, &self.b);"),
    (GEN, "let [a, b] = &edges_iter.counterparts;", "let (a, b) = (&edges_iter.a, &edges_iter.b);")]
R['iter_flag'] = [(GEN, "        next_index:              Option<N::Index>,", "        index:                   N::Index,\n        ended:                   bool,"),
    (GEN, "Self { counterparts, next_index: Some(zero()) }", "Self { counterparts, index: zero(), ended: false }"),
    (GEN, refac.NEXT_OLD, """            if self.ended {
                return None;
            }
            let [a, b] = &self.counterparts;
            match [a.get_edge(&self.index), b.get_edge(&self.index)] {
                [Some(ae), Some(be)] => {
                    if advance {
                        match increment_index(&self.index) {
                            Some(i) => self.index = i,
                            None => self.ended = true,
                        }
                    }
                    Some(Ok([ae, be]))
                },
                [None, None] => {
                    self.ended = self.ended || advance;
                    None
                },
                [None, Some(_)] => Some(Err(N::Cmp::from_ord(Ordering::Less))),
                [Some(_), None] => Some(Err(N::Cmp::from_ord(Ordering::Greater))),
            }""")]
R['iter_map'] = [(GEN, refac.NEXT_OLD, """            let i = self.next_index.as_ref()?;
            let [a, b] = &self.counterparts;
            let item = match (a.get_edge(i), b.get_edge(i)) {
                (None, None) => None,
                (Some(x), Some(y)) => Some(Ok([x, y])),
                (x, y) => Some(Err(N::Cmp::from_ord(x.is_some().cmp(&y.is_some())))),
            };
            if advance && !matches!(item, Some(Err(_))) {
                self.next_index = item.is_some().then(|| increment_index(i)).flatten();
            }
            item""")]
R['iter_array_map'] = [(GEN, "match [a.get_edge(i), b.get_edge(i)] {", "match [a, b].map(|n| n.get_edge(i)) {")]
R['lazier_question'] = [(UT, """            while let Some(subiter) = self.next_subiter_as_mut() {
                let next = subiter.next();
                if !subiter.has_next() {
                    drop(self.next_subiter()); // Remove empty iterators, before returning `Some`.
                }
                if next.is_some() {
                    return next;
                }
            }
            None""", """            loop {
                let subiter = self.next_subiter_as_mut()?;
                let next = subiter.next();
                let used_up = !subiter.has_next();
                if used_up {
                    let _ = self.next_subiter();
                }
                match next {
                    some @ Some(_) => break some,
                    None => continue,
                }
            }""")]
R['lim_trait'] = [(BAS, "            pub trait Ticker: Ord + From<u8> + SubAssign {}\n", """            pub trait Ticker: Ord + From<u8> + SubAssign
            {
                /// One less, if any.
                fn less_one(&self) -> Option<Self>;
            }
            macro_rules! impls {
                ($($t:ty)*) => {
                    $(
                        impl Ticker for $t
                        {
                            #[inline]
                            fn less_one(&self) -> Option<Self>
                            {
                                self.checked_sub(1)
                            }
                        }
                    )*
                };
            }
            impls! { u8 u16 u32 u64 u128 usize }
""")] + [(BAS, "            impl Ticker for %s {}\n" % t, '') for t in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize')] + [(BAS, """                #[allow(clippy::arithmetic_side_effects)]
                if self.0 > 0.into() {
                    self.0 -= 1.into(); // Overflow impossible, by conditional.
                    Ok(true)
                }
                else {
                    Err(LimitReached)
                }""", """                self.0 = self.0.less_one().ok_or(LimitReached)?;
                Ok(true)""")]
R['lim_mutref'] = [(BAS, """                #[allow(clippy::arithmetic_side_effects)]
                if self.0 > 0.into() {
                    self.0 -= 1.into(); // Overflow impossible, by conditional.
                    Ok(true)
                }
                else {
                    Err(LimitReached)
                }""", """                let Self(left) = self;
                let none = T::from(0);
                if *left <= none {
                    return Err(LimitReached);
                }
                *left -= T::from(1);
                Ok(true)""")]
INT_OLD = """                self.ticker = self.ticker.saturating_sub(1);

                let r = if self.ticker >= 0 {
                    // "fast" phase
                    true
                }
                else if self.ticker < Self::SLOW_LIMIT_NEG {
                    // "slow" phase ended, start "fast" phase
                    debug_assert_eq!(
                        (self.ticker, false),
                        Self::SLOW_LIMIT_NEG.overflowing_sub(1),
                        "overflow is supposed to be impossible here"
                    );
                    self.ticker = self.rng.rand_upto(Self::FAST_LIMIT_MAX_RANGE_END).into();
                    true
                }
                else if self.equiv_classes.same_class(&a.id(), &b.id()) {
                    // "slow" phase, equivalence already found
                    // This node is already known to be equivalent, so skip its descendents.
                    // Restart the ticker to remain in the "slow" phase.
                    self.ticker = 0;
                    false
                }
                else {
                    // "slow" phase, equivalence not found yet
                    true
                };
                Ok(r)"""
R['int_lets'] = [(CS, INT_OLD, """                let ticker = self.ticker - 1;
                self.ticker = ticker;
                let fast = ticker >= 0;
                let renew = ticker < Self::SLOW_LIMIT_NEG;
                if renew {
                    let fresh = self.rng.rand_upto(Self::FAST_LIMIT_MAX_RANGE_END);
                    self.ticker = i32::from(fresh);
                }
                if fast || renew {
                    return Ok(true);
                }
                let (ai, bi) = (a.id(), b.id());
                let known = self.equiv_classes.same_class(&ai, &bi);
                if known {
                    self.ticker = 0;
                }
                Ok(!known)""")]
R['int_contains'] = [(CS, INT_OLD, """                self.ticker -= 1;
                if (Self::SLOW_LIMIT_NEG .. 0).contains(&self.ticker) {
                    let skip = self.equiv_classes.same_class(&a.id(), &b.id());
                    if skip {
                        self.ticker = 0;
                    }
                    return Ok(!skip);
                }
                if self.ticker.is_negative() {
                    self.ticker = i32::from(self.rng.rand_upto(Self::FAST_LIMIT_MAX_RANGE_END));
                }
                Ok(true)""")]
R['int_ticker'] = [(CS, "            ticker:        i32,", "            ticker:        Ticker,"), (CS, "                    ticker:        0,", "                    ticker:        Ticker::default(),"),
    (CS, "        /// Generic parameters of [`Interleave`]" if False else "        impl<P: Params> Default for Interleave<P>", """        /// Counts down.
        #[derive(Default)]
        struct Ticker(i32);

        /// What is to be done.
        enum Phase
        {
            /// Don't look.
            Fast,
            /// Look.
            Slow,
            /// Don't look, and begin again.
            Over,
        }

        impl Ticker
        {
            /// Counts.
            fn tick(
                &mut self,
                end: i32,
            ) -> Phase
            {
                self.0 = self.0.saturating_sub(1);
                match self.0 {
                    t if t >= 0 => Phase::Fast,
                    t if t >= end => Phase::Slow,
                    _ => Phase::Over,
                }
            }

            /// Sets.
            fn restart(
                &mut self,
                at: u16,
            )
            {
                self.0 = at.into();
            }
        }

        impl<P: Params> Default for Interleave<P>"""),
    (CS, INT_OLD, """                Ok(match self.ticker.tick(Self::SLOW_LIMIT_NEG) {
                    Phase::Fast => true,
                    Phase::Slow => {
                        let skip = self.equiv_classes.same_class(&a.id(), &b.id());
                        if skip {
                            self.ticker.restart(0);
                        }
                        !skip
                    },
                    Phase::Over => {
                        self.ticker.restart(self.rng.rand_upto(Self::FAST_LIMIT_MAX_RANGE_END));
                        true
                    },
                })""")]
NONE_OLD = """        let ac = Class::new();
        let bc = T::Rc::clone(&ac);
        self.table.insert(ak.clone(), ac);
        self.table.insert(bk.clone(), bc);"""
R['none_loop'] = [(EC, NONE_OLD, """        let class: T::Rc = Class::new();
        for k in [ak, bk] {
            self.table.insert(k.clone(), class.clone());
        }""")]
R['none_rev'] = [(EC, NONE_OLD, """        let class: T::Rc = Class::new();
        self.table.insert(bk.clone(), T::Rc::clone(&class));
        self.table.insert(ak.clone(), class);""")]
SAME_OLD = """        match (self.table.get(ak), self.table.get(bk)) {
            (None, None) => {
                self.none_seen(ak, bk);
                false
            },
            (Some(ac), None) => {
                let ac = &T::Rc::clone(ac); // To end borrow of `self`.
                self.some_seen(ac, bk);
                false
            },
            (None, Some(bc)) => {
                let bc = &T::Rc::clone(bc); // To end borrow of `self`.
                self.some_seen(bc, ak);
                false
            },
            (Some(ac), Some(bc)) => Self::all_seen(ac, bc),
        }"""
R['same_cloned'] = [(EC, SAME_OLD, """        let ac = self.table.get(ak).cloned();
        let bc = self.table.get(bk).cloned();
        match (ac, bc) {
            (Some(ac), Some(bc)) => return Self::all_seen(&ac, &bc),
            (Some(c), None) => self.some_seen(&c, bk),
            (None, Some(c)) => self.some_seen(&c, ak),
            (None, None) => self.none_seen(ak, bk),
        }
        false""")]
R['same_unseen'] = [(EC, SAME_OLD, """        let (seen, unseen) = match [self.table.get(ak), self.table.get(bk)] {
            [Some(ac), Some(bc)] => return Self::all_seen(ac, bc),
            [Some(c), None] => (Some(T::Rc::clone(c)), bk),
            [None, Some(c)] => (Some(T::Rc::clone(c)), ak),
            [None, None] => (None, ak),
        };
        match seen {
            Some(c) => self.some_seen(&c, unseen),
            None => self.none_seen(ak, bk),
        }
        false""")]
R['same_inline'] = [(EC, SAME_OLD, """        if let Some(ac) = self.table.get(ak) {
            if let Some(bc) = self.table.get(bk) {
                return Self::all_seen(ac, bc);
            }
            let rep = Class::get_rep(ac);
            self.table.insert(bk.clone(), rep);
        }
        else if let Some(bc) = self.table.get(bk) {
            let rep = Class::get_rep(bc);
            self.table.insert(ak.clone(), rep);
        }
        else {
            self.none_seen(ak, bk);
        }
        false"""), (EC, """    fn some_seen(
        &mut self,
        oc: &T::Rc,
        k: &<T::Node as Node>::Id,
    )
    {
        let r = Class::get_rep(oc);
        self.table.insert(k.clone(), r);
    }
""", '')]
ALL_OLD = """        if Class::eq_rep(&ar, &br) {
            true
        }
        else {
            let (larger_rep, smaller_rep);

            if aw >= bw {
                larger_rep = ar;
                smaller_rep = br;
            }
            else {
                larger_rep = br;
                smaller_rep = ar;
            }
            Class::set_rep(&larger_rep, aw.saturating_add(bw));
            Class::set_link(&smaller_rep, larger_rep);

            false
        }"""
R['all_link_first'] = [(EC, ALL_OLD, """        let same = Class::eq_rep(&ar, &br);
        if !same {
            let [from, to] = if bw > aw { [ar, br] } else { [br, ar] };
            Class::set_link(&from, T::Rc::clone(&to));
            Class::set_rep(&to, aw.saturating_add(bw));
        }
        same""")]
R['all_weight_fn'] = [(EC, ALL_OLD, """        if Class::eq_rep(&ar, &br) {
            return true;
        }
        let total = match aw.checked_add(bw) {
            Some(w) => w,
            None => usize::MAX,
        };
        let swap = aw < bw;
        let (top, below) = if swap { (br, ar) } else { (ar, br) };
        top.set(Class::Representative { weight: total });
        below.set(Class::Link { next: top });
        false""")]
R['rep_tail'] = [(EC, """                            cur.set(Self::Link { next: R::clone(&next_next) });
                            cur = next;
                            next = next_next;""", """                            let skipped = core::mem::replace(&mut next, next_next);
                            Self::set_link(&cur, R::clone(&next));
                            cur = skipped;""")]
R['class_fn'] = [(EC, """        R::new(Cell::new(Self::default()))""", """        let class = Self::Representative { weight: 1 };
        let cell = Cell::new(class);
        R::new(cell)""")]
R['rc_clone'] = [(EC, """            #[derive(Clone)]
            pub struct Rc(alloc::rc::Rc<Cell<Class<Self>>>);
""", """            pub struct Rc(alloc::rc::Rc<Cell<Class<Self>>>);

            impl Clone for Rc
            {
                #[inline]
                fn clone(&self) -> Self
                {
                    let Self(inner) = self;
                    Self(alloc::rc::Rc::clone(inner))
                }
            }
""")]
R['classes_default'] = [(EC, """#[derive(Default)]
pub(crate) struct EquivClasses<T>
{
    /// Each node's equivalence class""" if False else """impl<T: Table> EquivClasses<T>
{""", """impl<T: Table> EquivClasses<T>
{""")]
R['table_named'] = [(EC, "            pub struct Table<P: Params>(HashMap<<P::Node as Node>::Id, Rc>);", "            pub struct Table<P: Params>\n            {\n                map: HashMap<<P::Node as Node>::Id, Rc>,\n            }"),
    (EC, "                    Self(HashMap::with_capacity(P::INITIAL_CAPACITY))", "                    let mut map = HashMap::new();\n                    map.reserve(P::INITIAL_CAPACITY);\n                    Self { map }"),
    (EC, "                    HashMap::get(&self.0, k)", "                    self.map.get(k)"),
    (EC, "                    drop(HashMap::insert(&mut self.0, k, v));", "                    let _before: Option<Rc> = self.map.insert(k, v);")]
R['room_direct'] = [(DS, """            fn from(_: CallStack) -> Self
            {
                Self::default()""", """            fn from(_: CallStack) -> Self
            {
                Self(LazyVecQueue::with_capacity(P::INITIAL_CAPACITY))"""), (WS, """                Self(LazyVecStack::with_capacity(P::INITIAL_CAPACITY))""", """                let room = P::INITIAL_CAPACITY;
                let pending = LazyVecStack::with_capacity(room);
                Self(pending)""")]
R['room_reserve'] = [(UT, "                        Self($with_capacity(capacity))", "                        let mut it = $with_capacity(0);\n                        it.reserve(capacity);\n                        Self(it)")]
PRE_OLD = """            match e.equiv(a.clone(), b.clone()) {
                Ok(cmp) => Ok(cmp),
                Err(PrecheckError::RecurError(e)) => Err(e),
                Err(PrecheckError::LimitReached) => {
                    let mut e: Equiv<InterleaveArgs<N, P>> = e.into();
                    e.equiv(a, b).map_err(|InterleaveError(error)| error)
                },
            }"""
R['pre_let_else'] = [(GEN, PRE_OLD, """            let error = match e.equiv(N::clone(&a), N::clone(&b)) {
                Err(error) => error,
                Ok(cmp) => return Ok(cmp),
            };
            if let PrecheckError::RecurError(error) = error {
                return Err(error);
            }
            let mut again = Equiv::<InterleaveArgs<N, P>>::from(e);
            match again.equiv(a, b) {
                Ok(cmp) => Ok(cmp),
                Err(InterleaveError(error)) => Err(error),
            }""")]
R['pre_two_fns'] = [(GEN, PRE_OLD, """            let first = e.equiv(a.clone(), b.clone());
            return match first {
                Ok(cmp) => Ok(cmp),
                Err(PrecheckError::RecurError(e)) => Err(e),
                Err(PrecheckError::LimitReached) => again::<N, P>(e, a, b),
            };

            /// The second time.
            fn again<N: Node + Clone, P: Params<N>>(
                e: Equiv<PrecheckArgs<N, P>>,
                a: N,
                b: N,
            ) -> Result<N::Cmp, P::Error>
            {
                let mut e = e.into::<InterleaveArgs<N, P>>();
                let result = e.equiv(a, b);
                result.map_err(|InterleaveError(e)| e)
            }""")]
R['error_match'] = [(BAS, """            fn from(_: Infallible) -> Self
            {
                #![allow(clippy::unreachable)] // Truly unreachable.
                unreachable!()""", """            fn from(never: Infallible) -> Self
            {
                match never {}""")]
R['into_ok_match'] = [(LIKE, '            #![allow(clippy::expect_used)] // Truly infallible.\n            self.expect("infallible")', "            match self {\n                Ok(v) => v,\n                Err(never) => match never {},\n            }")]
STEP = "                        self.checked_add(1)"
R['step_pattern'] = [(LIKE, STEP, "                        match *self {\n                            <$t>::MAX => None,\n                            i => Some(i + 1),\n                        }")]
R['step_then'] = [(LIKE, STEP, "                        (*self < <$t>::MAX).then(|| *self + 1)")]
R['step_wrapping'] = [(LIKE, STEP, "                        let next = self.wrapping_add(1);\n                        if next > *self { Some(next) } else { None }")]
R['step_saturating'] = [(LIKE, STEP, "                        Some(self.saturating_add(1)).filter(|next| next != self)")]
W = RND + 'wyrng.rs'
R['wyrng_bytes'] = [(W, "        wyrng(&mut self.0) as u16 % exclusive_end", "        let drawn = wyrng(&mut self.0).to_le_bytes();\n        u16::from_le_bytes([drawn[0], drawn[1]]) % exclusive_end.get()")]
R['wyrng_mask'] = [(W, "        wyrng(&mut self.0) as u16 % exclusive_end", "        let Self(seed) = self;\n        let low = wyrng(seed) & 0xFFFF;\n        (low % u64::from(exclusive_end.get())) as u16")]
O = RND + 'oorandom.rs'
R['oorandom_lets'] = [(O, "        let exclusive_end: u32 = exclusive_end.get().into();\n\n        self.0.rand_range(0 .. exclusive_end) as u16", "        let end = u32::from(exclusive_end.get());\n        let range = core::ops::Range { start: 0, end };\n        let drawn = Rand32::rand_range(&mut self.0, range);\n        drawn as u16")]
R['fastrand_upto'] = [(RND + 'fastrand.rs', "fastrand::u16(0 .. exclusive_end.get())", "fastrand::u16(.. exclusive_end.get())")]
R['fastrand_incl'] = [(RND + 'fastrand.rs', "fastrand::u16(0 .. exclusive_end.get())", "fastrand::u16(0 ..= exclusive_end.get() - 1)")]
R['refid_from_ref'] = [(UT, """            let p: *const T::Target = {
                let r: &T::Target = &*self.0;
                r
            };
            p""", """            let Self(reference) = self;
            ptr::from_ref(Deref::deref(reference))"""), (UT, "            ptr::hash(self.as_ptr(), state);", "            Hash::hash(&self.as_ptr(), state);")]
R['refid_pcmp'] = [(UT, "            Ord::cmp(&self.as_ptr(), &other.as_ptr())", """            let (p, q) = (self.as_ptr(), other.as_ptr());
            if p < q {
                Ordering::Less
            }
            else if p == q {
                Ordering::Equal
            }
            else {
                Ordering::Greater
            }""")]
R['const_checked'] = [(CS, "                match NonZeroU16::new(P::FAST_LIMIT_MAX + 1) {\n", "                match NonZeroU16::MIN.checked_add(P::FAST_LIMIT_MAX) {\n"),
    (CS, "-(P::SLOW_LIMIT as i32)", "0 - P::SLOW_LIMIT as i32")]
R['const_shift'] = [(DS, "2_usize.pow(4)", "1 << 4"), (WS, "2_usize.pow(4)", "16"), (EC, "2_usize.pow(12)", "4096")]
R['cmp_from_match'] = [(LIB, "        ord.is_eq()", "        match ord {\n            Ordering::Equal => true,\n            Ordering::Less | Ordering::Greater => false,\n        }"),
    (LIB, "        self.is_eq()", "        !self.is_ne()"), (LIB, "        *self\n", "        *self == Self::new_equiv()\n")]
R['equiv_fields'] = [(GEN, "Self { descend_mode, recur_mode: P::RecurMode::default() }", "let recur_mode = Default::default();\n            Self { recur_mode, descend_mode }"),
    (GEN, """                descend_mode: PT::DescendMode::default(),
                recur_mode:   e.recur_mode.reset().into(),""", """                recur_mode:   RecurMode::reset(e.recur_mode).into(),
                descend_mode: Default::default(),""")]
R['recur_queue_bind'] = [(DS, """                it.recur_mode.0.extend(edges_iter);
                Ok(Cmp::new_equiv())""", """                let Self(pending) = &mut it.recur_mode;
                pending.extend(edges_iter);
                let so_far = <E::Node as Node>::Cmp::new_equiv();
                Ok(so_far)""")]
CALL_OLD = """                for next in edges_iter {
                    match next {
                        Ok([a, b]) => match it.equiv_main(a, b) {
                            Ok(cmp) if cmp.is_equiv() => (),
                            result => return result,
                        },
                        Err(cmp_amount_edges) => return Ok(cmp_amount_edges),
                    }
                }
                Ok(Cmp::new_equiv())"""
R['call_result'] = [(BAS, CALL_OLD, """                let mut edges = edges_iter;
                let mut result = Cmp::new_equiv();
                while let Some(next) = edges.next() {
                    result = match next {
                        Ok([a, b]) => it.equiv_main(a, b)?,
                        Err(different) => different,
                    };
                    if !result.is_equiv() {
                        break;
                    }
                }
                Ok(result)""")]
R['call_try'] = [(BAS, CALL_OLD, """                use core::ops::ControlFlow;
                let flow = { edges_iter }.try_for_each(|next| {
                    let one = match next {
                        Ok([a, b]) => it.equiv_main(a, b),
                        Err(different) => Ok(different),
                    };
                    match one {
                        Ok(cmp) if cmp.is_equiv() => ControlFlow::Continue(()),
                        other => ControlFlow::Break(other),
                    }
                });
                match flow {
                    ControlFlow::Break(result) => result,
                    ControlFlow::Continue(()) => Ok(Cmp::new_equiv()),
                }""")]
R['call_visit'] = [(BAS, CALL_OLD, """                for next in edges_iter {
                    let cmp = next.map_or_else(Ok, |[a, b]| it.equiv_main(a, b))?;
                    if !cmp.is_equiv() {
                        return Ok(cmp);
                    }
                }
                Ok(Cmp::new_equiv())""")]
del R['loop_flow'], R['classes_default']
R = {k: [e for e in v if e[1] != e[2]] for k, v in R.items()}

if __name__ == '__main__':
    refac.R = R
    refac.special = lambda work: {}
    refac.main()
