GEN, CS, BAS, UT, EC, LIKE, LIB, ROB, WS, DS = ('src/generic.rs', 'src/cycle_safe.rs', 'src/basic.rs', 'src/utils.rs',
    'src/generic/equiv_classes.rs', 'src/like_anticipated.rs', 'src/lib.rs', 'src/robust.rs', 'src/wide_safe.rs', 'src/deep_safe.rs')
RND = 'src/cycle_safe/modes/interleave/random/'

SEEDS = []
def seed(id, prop, needs, breaks, edits, demo=None, **kw):
    d = dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, **kw)
    if demo is not None:
        d['demo'] = demo
    SEEDS.append(d)

def seed_(*a, **k):   # caught by the existing tests
    pass

COND = 'if try_into!(self.descend_mode.do_traverse()) && a.id() != b.id() {'

seed('c01_no_traverse', 'C01', 'A descend mode of the user whose do_traverse says false.',
     'A pair that the mode does not let traverse is compared by value all the same.',
     [(GEN, COND, 'let _: bool = try_into!(self.descend_mode.do_traverse());\n            if a.id() != b.id() {')], '''
struct First(bool);
impl<P: equiv::Params<DescendMode = Self>> DescendMode<P> for First where Infallible: Into<P::Error> {
    type Error = Infallible;
    fn do_edges(&mut self, _: &P::Node, _: &P::Node) -> Result<bool, Infallible> { Ok(true) }
    fn do_traverse(&mut self) -> Result<bool, Infallible> { Ok(std::mem::replace(&mut self.0, false)) }
}
args!(A, First, CallStack, Infallible);
fn main() {
    let g = G::new();
    let (x, y) = (g.node(1, &[]), g.node(2, &[]));
    let (a, b) = (g.node(0, &[x]), g.node(0, &[y]));
    assert_eq!(Equiv::<A>::new(First(true)).equiv(g.n(a), g.n(b)).unwrap(), Ordering::Equal);
}
''')

seed('c01_identity_late', 'C01', 'A node whose own comparison is not reflexive (like one holding a NaN), compared with itself.',
     'A pair of nodes with equal ids is asked for its values first, and so may be different from itself.',
     [(GEN, COND + '\n                cmp = a.equiv_modulo_edges(&b);\n                if cmp.is_equiv() {',
       'if try_into!(self.descend_mode.do_traverse()) {\n                cmp = a.equiv_modulo_edges(&b);\n                if cmp.is_equiv() && a.id() != b.id() {')], '''
#[derive(Clone)]
struct F(f64, Vec<F>, u32);
impl Node for &F {
    type Cmp = bool; type Id = u32; type Index = usize;
    fn id(&self) -> u32 { self.2 }
    fn get_edge(&self, i: &usize) -> Option<Self> { self.1.get(*i) }
    fn equiv_modulo_edges(&self, o: &Self) -> bool { self.0 == o.0 }
}
fn main() {
    let nan = F(f64::NAN, vec![], 1);
    assert!(gsc::basic::equiv(&nan, &nan));
    let (a, b) = (F(1.0, vec![nan.clone()], 2), F(1.0, vec![nan], 3));
    assert!(gsc::deep_safe::equiv(&a, &b));
}
''')

seed('c02_stack_merges_pending', 'C02', 'In the stack mode, a pair whose edges are to be descended while the same pair is still pending on top of the stack (a cycle through a later edge).',
     'The edges of such a pair are not descended anew, so that the traversal no longer visits each index of them.',
     [(UT, 'LazyVecStack<I> { Vec::with_capacity, push, last_mut, pop },', 'LazyVecStack<I> { Vec::with_capacity, push, first_mut, pop },')], 'fn main() {}')
SEEDS.pop()

seed('c02_bounded_queue', 'C02', 'More than 65535 pairs pending in the queue or stack at once.',
     'Edges of further pairs are silently dropped, so that differences below them are not found.',
     [(UT, 'self.0.$extend(subiter);', 'if self.0.len() < usize::from(u16::MAX) {\n                            self.0.$extend(subiter);\n                        }')], '''
fn main() {
    let g = G::new();
    let mk = |last: i64| {
        let kids: Vec<usize> = (0 .. 70_000).map(|i| { let l = g.node(if i == 69_000 { last } else { 0 }, &[]); g.node(7, &[l]) }).collect();
        g.node(1, &kids)
    };
    let (a, b) = (mk(1), mk(2));
    assert_eq!(gsc::deep_safe::equiv(g.n(a), g.n(b)), Ordering::Less);
}
''')

seed('c02_first_identical', 'C02', 'A pair of nodes whose first edges go to one and the same node.',
     'That pair of edges is skipped, instead of being visited like every other one (so that it also costs nothing of a limit).',
     [(GEN, '''                            #[allow(clippy::shadow_unrelated)]
                            let [a, b] = &edges_iter.counterparts;''', '''                            #[allow(clippy::shadow_unrelated)]
                            let [a, b] = &edges_iter.counterparts;
                            let same_heads = same_first(a, b);'''),
      (GEN, 'cmp = try_into!(P::RecurMode::recur(self, edges_iter));', '''if same_heads {
                                    drop(edges_iter.next());
                                }
                                cmp = try_into!(P::RecurMode::recur(self, edges_iter));'''),
      (GEN, '''    impl<P: Params> Equiv<P>
    {
        /// Create''', '''    /// Whether the first edges are to the same node.
    fn same_first<N: Node>(
        a: &N,
        b: &N,
    ) -> bool
    {
        let i = N::Index::default();
        matches!((a.get_edge(&i), b.get_edge(&i)), (Some(ae), Some(be)) if ae.id() == be.id())
    }

    impl<P: Params> Equiv<P>
    {
        /// Create''')], '''
fn main() {
    let g = G::new();
    let (l, x, y) = (g.node(5, &[]), g.node(1, &[]), g.node(1, &[]));
    let (a, b) = (g.node(0, &[l, x]), g.node(0, &[l, y]));
    assert!(gsc::wide_safe::limited_equiv(2_u8, g.n(a), g.n(b)).is_err());
    assert!(gsc::wide_safe::limited_equiv(3_u8, g.n(a), g.n(b)).is_ok());
}
''')

seed_('c03_peek_swapped', 'C03', 'Nodes of which one has no edges at all, with a result that tells the direction.',
     'For a difference at the first index, less and greater are confused.',
     [(GEN, '[None, Some(_)] => Some(Err(N::Cmp::from_ord(Ordering::Less))),', '[None, Some(_)] if advance => Some(Err(N::Cmp::from_ord(Ordering::Less))),\n                    [None, Some(_)] => Some(Err(N::Cmp::from_ord(Ordering::Greater))),')], '''
fn main() {
    let g = G::new();
    let l = g.node(1, &[]);
    let (a, b) = (g.node(0, &[]), g.node(0, &[l]));
    assert_eq!(gsc::basic::equiv(g.n(a), g.n(b)), Ordering::Less);
    assert_eq!(gsc::basic::equiv(g.n(b), g.n(a)), Ordering::Greater);
}
''')

seed_('c03_loop_less', 'C03', 'Queue or stack mode, with a second node that has fewer edges, beyond the first.',
     'The difference in the amount of edges is reported from the wrong side.',
     [(GEN, 'Some(Err(cmp_amount_edges)) => return Ok(cmp_amount_edges),\n                        None => return Ok(cmp),',
       'Some(Err(_)) => return Ok(Cmp::from_ord(core::cmp::Ordering::Less)),\n                        None => return Ok(cmp),')], '''
fn main() {
    let g = G::new();
    let l = [g.node(1, &[]), g.node(1, &[]), g.node(1, &[])];
    let (a, b) = (g.node(0, &[l[0], l[1]]), g.node(0, &[l[2]]));
    assert_eq!(gsc::deep_safe::equiv(g.n(a), g.n(b)), Ordering::Greater);
    assert_eq!(gsc::wide_safe::equiv(g.n(a), g.n(b)), Ordering::Greater);
    assert_eq!(gsc::robust::equiv(g.n(b), g.n(a)), Ordering::Less);
}
''')

ORDER = '''
// In breadth-first order the difference on the right, which is nearer, is found first.
fn main() {
    let g = G::new();
    let (x, y) = (g.node(1, &[]), g.node(2, &[]));
    let (x1, y1) = (g.node(0, &[x]), g.node(0, &[y]));
    let (x2, y2) = (g.node(0, &[x1]), g.node(0, &[y1]));
    let (xr, yr) = (g.node(0, &[y]), g.node(0, &[x]));
    let (a, b) = (g.node(0, &[x2, xr]), g.node(0, &[y2, yr]));
    assert_eq!(gsc::deep_safe::equiv(g.n(a), g.n(b)), Ordering::Greater);
    assert_eq!(gsc::robust::equiv(g.n(a), g.n(b)), Ordering::Greater);
    assert_eq!(gsc::wide_safe::equiv(g.n(a), g.n(b)), Ordering::Less);
    assert_eq!(gsc::basic::equiv(g.n(a), g.n(b)), Ordering::Less);
}
'''
seed('c04_queue_front', 'C04', 'A graph in which the difference found first depends on the order of traversal, with a result that tells them apart.',
     'The queue mode takes the pair pending most recently, and so traverses depth-first.',
     [(UT, 'VecDeque::with_capacity, push_back, front_mut, pop_front', 'VecDeque::with_capacity, push_front, front_mut, pop_front')], ORDER)

seed('c04_stack_fifo', 'C04', 'A graph in which the difference found first depends on the order of traversal, in the stack mode.',
     'The stack mode takes the pair pending longest, and so traverses breadth-first.',
     [(UT, 'pub(crate) struct LazyVecStack<I>(Vec<I>);', 'pub(crate) struct LazyVecStack<I>(VecDeque<I>);'),
      (UT, 'LazyVecStack<I> { Vec::with_capacity, push, last_mut, pop }', 'LazyVecStack<I> { VecDeque::with_capacity, push_back, front_mut, pop_front }'),
      (UT, '        alloc::{\n            collections::VecDeque,\n            vec::Vec,\n        },', '        alloc::collections::VecDeque,')], ORDER)

seed_('c04_values_first', 'C04', 'Call-stack mode, with a difference deep below the first edge, and another one in the value of the second edge.',
     'The values of all edges are compared before the first edge is descended into, so that another difference is returned.',
     [(BAS, '                for next in edges_iter {', '''                let head = edges_iter.counterparts_heads();
                if let Some([a, b]) = head {
                    let cmp = a.equiv_modulo_edges(&b);
                    if a.id() != b.id() && !cmp.is_equiv() {
                        return Ok(cmp);
                    }
                }
                for next in edges_iter {'''),
      (GEN, '        fn get_next(\n            &mut self,', '''        /// The pair of edges after the next one.
        pub(crate) fn counterparts_heads(&self) -> Option<Counterparts<N>>
        {
            let i = increment_index(self.next_index.as_ref()?)?;
            let [a, b] = &self.counterparts;
            Some([a.get_edge(&i)?, b.get_edge(&i)?])
        }

        fn get_next(\n            &mut self,''')], '''
fn main() {
    let g = G::new();
    let (x, y) = (g.node(1, &[]), g.node(2, &[]));
    let (x1, y1) = (g.node(0, &[x]), g.node(0, &[y]));
    let (a, b) = (g.node(0, &[x1, y]), g.node(0, &[y1, x]));
    assert_eq!(gsc::basic::equiv(g.n(a), g.n(b)), Ordering::Less);
}
''')

DEEPSHARED = '''
// Lists whose nodes all have the same leaf first.
fn main() {
    let g = G::new();
    let l = g.node(9, &[]);
    let mk = || { let mut n = g.node(0, &[l]); for _ in 0 .. 1_000_000 { n = g.node(0, &[l, n]) } n };
    let (a, b) = (mk(), mk());
    assert_eq!(gsc::deep_safe::equiv(g.n(a), g.n(b)), Ordering::Equal);
    assert_eq!(gsc::wide_safe::equiv(g.n(a), g.n(b)), Ordering::Equal);
    assert_eq!(gsc::robust::precheck_equiv(g.n(a), g.n(b)), Ordering::Equal);
}
'''
seed('c05_self_call', 'C05', 'A deep graph with many pairs of edges that go to one and the same node.',
     'The loop of the algorithm calls itself for each such pair, so that the call-stack grows with the graph and overflows.',
     [(GEN, '''                        Some(Ok([an, bn])) => {
                            a = an;''', '''                        Some(Ok([an, bn])) => {
                            if an.id() == bn.id() {
                                return self.equiv(an, bn);
                            }
                            a = an;''')], DEEPSHARED, prof='')

seed('c05_weight_lost', 'C05', 'Hundreds of thousands of classes that are merged so that each becomes the representative of the former one.',
     'Weights do not grow with the unions, so chains of class records can be as long as the graph, and dropping them overflows the call-stack.',
     [(EC, 'Class::set_rep(&larger_rep, aw.saturating_add(bw));', 'Class::set_rep(&larger_rep, aw.max(bw));')], '''
args!(A, Interleave<Inter<'g, 400, 0, 65535>>, CallStack, Infallible);
fn main() {
    let g = G::new();
    let mut m = Interleave::<Inter<'_, 400, 0, 65535>>::default();
    let n = |i: usize| g.n(i);
    const K: usize = 2_000_000;
    let mut go = |a: usize, b: usize| {
        let r: Result<bool, Infallible> = DescendMode::<A<'_>>::do_edges(&mut m, &n(a), &n(b));
        let _ = r.unwrap();
    };
    for i in 0 .. K { go(2 * i, 2 * i + 1); }
    for i in 1 .. K { go(2 * i, 2 * (i - 1)); }
    drop(m);
}
''')

COLL = '''
// All ids have the same hash, which is lawful.
#[derive(Clone, PartialEq, Eq)]
struct Id(usize);
impl std::hash::Hash for Id { fn hash<H: std::hash::Hasher>(&self, s: &mut H) { s.write_u8(0) } }
#[derive(Clone, Copy)]
struct C<'g>(N<'g>);
impl<'g> Node for C<'g> {
    type Cmp = Ordering; type Id = Id; type Index = u32;
    fn id(&self) -> Id { Id(self.0.1) }
    fn get_edge(&self, i: &u32) -> Option<Self> { self.0.get_edge(i).map(C) }
    fn equiv_modulo_edges(&self, o: &Self) -> Ordering { self.0.equiv_modulo_edges(&o.0) }
}
struct I<'g>(PhantomData<&'g ()>);
impl<'g> interleave::Params for I<'g> { const FAST_LIMIT_MAX: u16 = 0; const SLOW_LIMIT: u16 = 1000; type Node = C<'g>; type RNG = MaxRng; type Table = hash_map::Table<Self>; }
impl<'g> hash_map::Params for I<'g> { type Node = C<'g>; }
impl<'g> equiv::Params for I<'g> { type Node = C<'g>; type DescendMode = Interleave<Self>; type RecurMode = CallStack; type Error = Infallible; }
fn main() {
    let g = G::new();
    let (x, y) = (g.node(1, &[]), g.node(2, &[]));
    let mk = |l| { let p = g.node(0, &[x]); let q = g.node(0, &[p, p]); let d = g.node(0, &[l]); g.node(0, &[q, d]) };
    let (a, b) = (mk(x), mk(y));
    assert_eq!(Equiv::<I<'_>>::default().equiv(C(g.n(a)), C(g.n(b))).unwrap(), Ordering::Less);
}
'''
seed('c06_hash_as_key', 'C06', 'Ids with colliding hashes.',
     'The table is keyed by the hash of the id, so different nodes with colliding hashes share a class, and edges are skipped that were never supposed equivalent.',
     [(EC, 'pub struct Table<P: Params>(HashMap<<P::Node as Node>::Id, Rc>);', '''pub struct Table<P: Params>(HashMap<u64, Rc>, core::marker::PhantomData<P>);

            /// Shorter keys make the table smaller.
            fn key<K: core::hash::Hash>(k: &K) -> u64
            {
                use core::hash::Hasher as _;
                let mut h = std::collections::hash_map::DefaultHasher::new();
                k.hash(&mut h);
                h.finish()
            }'''),
      (EC, 'Self(HashMap::with_capacity(P::INITIAL_CAPACITY))', 'Self(HashMap::with_capacity(P::INITIAL_CAPACITY), core::marker::PhantomData)'),
      (EC, 'HashMap::get(&self.0, k)', 'HashMap::get(&self.0, &key(k))'),
      (EC, 'drop(HashMap::insert(&mut self.0, k, v));', 'drop(HashMap::insert(&mut self.0, key(&k), v));')], COLL)

CLS = '''
fn main() {
    let g = G::new();
    let mut m = Interleave::<Inter<'_, 400, 0, 60000>>::default();
    args!(A, Interleave<Inter<'g, 400, 0, 60000>>, CallStack, Infallible);
    let mut go = |a: usize, b: usize| -> bool {
        let r: Result<bool, Infallible> = DescendMode::<A<'_>>::do_edges(&mut m, &g.n(a), &g.n(b));
        r.unwrap()
    };
%s
}
'''
seed('c07_link_not_rep', 'C07', 'The union of two classes, one of which was itself made by an earlier union and is met through a record that is not its representative.',
     'The record found in the table is linked instead of the representative of the lighter class, so the other members of that class are lost from the union.',
     [(EC, 'Class::set_link(&smaller_rep, larger_rep);', '''// The nodes at hand are the ones most likely to be looked up again.
                let met = if aw >= bw { bc } else { ac };
                Class::set_link(met, larger_rep);
                drop(smaller_rep);''')], CLS % '''
    // {1,2} and {3,4} join; then their members meet {5..=12}, made of four classes
    for (a, b) in [(1, 2), (3, 4), (2, 3), (5, 6), (7, 8), (9, 10), (11, 12), (5, 7), (5, 9), (5, 11)] { assert!(go(a, b)) }
    assert!(go(4, 12));
    for a in 1 .. 12 { assert!(!go(a, a + 1), "{}", a) }
''')

seed('c07_shared_seed', 'C07', 'A node that is seen for the first time together with one whose class was joined to another before.',
     'It gets a new class record of its own instead of the one of the class it joins.',
     [(EC, '        let r = Class::get_rep(oc);\n        self.table.insert(k.clone(), r);', '''        let (r, weight) = Class::get_rep_and_weight(oc);
        // Nodes of light classes can share the record directly.
        let c = if weight < 4 { r } else { Class::new() };
        self.table.insert(k.clone(), c);''')], CLS % '''
    for (a, b) in [(1, 2), (3, 4), (5, 6), (7, 8), (1, 3), (5, 7), (1, 5), (9, 1)] { assert!(go(a, b)) }
    assert!(!go(9, 1));
    assert!(!go(8, 9));
''')

PH = '''
args!(A, Interleave<Inter<'g, 400, %(fm)s, %(sl)s>>, CallStack, Infallible);
fn main() {
    let g = G::new();
    let mut m = Interleave::<Inter<'_, 400, %(fm)s, %(sl)s>>::default();
    let mut go = |a: usize, b: usize| -> bool {
        let r: Result<bool, Infallible> = DescendMode::<A<'_>>::do_edges(&mut m, &g.n(a), &g.n(b));
        r.unwrap()
    };
    let mut fresh = 10;
    let mut new = || { fresh += 2; (fresh, fresh + 1) };
%(body)s
}
'''
seed('c08_slow_limit_early', 'C08', 'A count of consulted pairs in one slow phase.',
     'The slow phase ends one pair early.',
     [(CS, 'else if self.ticker < Self::SLOW_LIMIT_NEG {', 'else if self.ticker <= Self::SLOW_LIMIT_NEG {'),
      (CS, 'Self::SLOW_LIMIT_NEG.overflowing_sub(1),', 'Self::SLOW_LIMIT_NEG.overflowing_sub(0),')],
     PH % {'fm': 0, 'sl': 3, 'body': '''
    // the 1st to 3rd are consulted, so known; the 4th is not
    let p = [new(), new(), new(), new()];
    for &(a, b) in &p { assert!(go(a, b)) }
    assert_eq!(ENDS.with(|e| e.borrow().len()), 1);
    assert!(!go(p[0].0, p[0].1));
    assert!(!go(p[2].0, p[2].1));
'''})

seed('c08_slow_limit_i16', 'C08', 'A configured slow limit above 32767.',
     'The negated limit wraps around, so the slow phase never begins.',
     [(CS, 'pub const SLOW_LIMIT_NEG: i32 = -(P::SLOW_LIMIT as i32);', 'pub const SLOW_LIMIT_NEG: i32 = -(P::SLOW_LIMIT as i16 as i32);'),
      (CS, '''                    debug_assert_eq!(
                        (self.ticker, false),
                        Self::SLOW_LIMIT_NEG.overflowing_sub(1),
                        "overflow is supposed to be impossible here"
                    );
''', '')],
     PH % {'fm': 0, 'sl': 40000, 'body': '''
    let p = new();
    assert!(go(p.0, p.1));
    assert!(!go(p.0, p.1));
'''})

seed('c08_fast_i16', 'C08', 'A configured maximum of the fast limit above 32767, and a random number above it.',
     'Large fast limits become negative, and the fast phase is cut short.',
     [(CS, 'self.ticker = self.rng.rand_upto(Self::FAST_LIMIT_MAX_RANGE_END).into();', '''#[allow(clippy::as_conversions, clippy::cast_possible_wrap)]
                    let fast_limit = self.rng.rand_upto(Self::FAST_LIMIT_MAX_RANGE_END) as i16;
                    self.ticker = fast_limit.into();''')],
     PH % {'fm': 40000, 'sl': 1, 'body': '''
    let p = new();
    assert!(go(p.0, p.1));
    let q = new();
    assert!(go(q.0, q.1));   // fast again, for 40000
    for _ in 0 .. 40000 { assert!(go(p.0, p.1)) }
    assert!(!go(p.0, p.1));
'''})

seed('c08_skip_restart', 'C08', 'A count of consulted pairs after a skip.',
     'After a skip the slow phase lasts one pair less than the limit.',
     [(CS, '                    self.ticker = 0;\n                    false', '                    self.ticker = -1;\n                    false')],
     PH % {'fm': 0, 'sl': 4, 'body': '''
    let p = new();
    assert!(go(p.0, p.1));
    assert!(!go(p.0, p.1));
    let q = [new(), new(), new(), new()];
    for &(a, b) in &q { assert!(go(a, b)) }
    assert_eq!(ENDS.with(|e| e.borrow().len()), 0);
    let r = new();
    assert!(go(r.0, r.1));
    assert_eq!(ENDS.with(|e| e.borrow().len()), 1);
'''})

seed('c08_range_end', 'C08', 'A generator that gives the greatest number it may.',
     'The greatest possible fast limit is one less than the configured maximum.',
     [(CS, 'match NonZeroU16::new(P::FAST_LIMIT_MAX + 1) {', 'match NonZeroU16::new(if P::FAST_LIMIT_MAX == 0 { 1 } else { P::FAST_LIMIT_MAX }) {')],
     PH % {'fm': 10, 'sl': 1, 'body': '''
    for _ in 0 .. 2 { let p = new(); assert!(go(p.0, p.1)) }
    assert_eq!(ENDS.with(|e| e.borrow().clone()), vec![11]);
'''})

seed('c09_large_union', 'C09', 'Two classes of more than 30000 nodes each, of which two nodes are met as a pair.',
     'Such classes are not united, so a pair of their nodes is consulted and descended again and again.',
     [(EC, """        if Class::eq_rep(&ar, &br) {
            true
        }""", """        if Class::eq_rep(&ar, &br) {
            true
        }
        // Both are too large already.
        else if aw.min(bw) > 30_000 {
            false
        }""")],
     PH % {'fm': 0, 'sl': 65535, 'body': """
    let (x, y) = (new().0, new().0);
    for _ in 0 .. 30_100 {
        let ((p, q), (r, s)) = (new(), new());
        assert!(go(p, q)); assert!(go(r, s)); assert!(go(x, p)); assert!(go(r, y));
    }
    assert!(go(x, y));
    assert!(!go(x, y));
"""})

seed('c10_identical_free', 'C10', 'A limit that is used up exactly by pairs of which some are identical.',
     'In the call-stack mode, pairs of edges that go to the same node do not count for the limit.',
     [(BAS, 'Ok([a, b]) => match it.equiv_main(a, b) {', 'Ok([a, b]) if a.id() == b.id() => (),\n                        Ok([a, b]) => match it.equiv_main(a, b) {')], '''
fn main() {
    let g = G::new();
    let (l, x, y) = (g.node(5, &[]), g.node(1, &[]), g.node(1, &[]));
    let (a, b) = (g.node(0, &[l, x, l]), g.node(0, &[l, y, l]));
    assert!(gsc::basic::limited_equiv(3_u8, g.n(a), g.n(b)).is_err());
    assert!(gsc::basic::limited_equiv(4_u8, g.n(a), g.n(b)).is_ok());
}
''')

seed('c10_loop_free', 'C10', 'A limit that is used up exactly by pairs of which some are identical, in the queue or stack mode.',
     'Identical pairs that were pending do not count for the limit.',
     [(GEN, 'Ok(cmp) if cmp.is_equiv() => match self.recur_mode.next() {', 'Ok(cmp) if cmp.is_equiv() => match self.next_differing() {'),
      (GEN, '''        #[inline]
        pub fn equiv_main(''', '''        /// The next pair that is not of the same node.
        fn next_differing(&mut self) -> Option<CounterpartsResult<P::Node>>
        {
            loop {
                match self.recur_mode.next() {
                    Some(Ok([a, b])) if a.id() == b.id() => (),
                    other => return other,
                }
            }
        }

        #[inline]
        pub fn equiv_main(''')], '''
fn main() {
    let g = G::new();
    let (l, x, y) = (g.node(5, &[]), g.node(1, &[]), g.node(1, &[]));
    let (a, b) = (g.node(0, &[l, x, l]), g.node(0, &[l, y, l]));
    assert!(gsc::deep_safe::limited_equiv(3_u8, g.n(a), g.n(b)).is_err());
    assert!(gsc::wide_safe::limited_equiv(3_u64, g.n(a), g.n(b)).is_err());
    assert!(gsc::wide_safe::limited_equiv(4_u64, g.n(a), g.n(b)).is_ok());
}
''')
