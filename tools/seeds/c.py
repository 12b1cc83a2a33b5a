import os, runpy
globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(__file__), 'a.py')).items() if not k.startswith('__') and k not in ('SEEDS', 'seed')})
SEEDS = []
def seed(id, prop, needs, breaks, edits, demo=None, **kw):
    d = dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, **kw)
    if demo is not None:
        d['demo'] = demo
    SEEDS.append(d)

# A node that implements what the documentation asks for, and nothing more.
BARE = '''
pub struct Bare;
#[derive(PartialEq, Eq, Hash, Clone)]
pub struct Key(u8);
impl Node for Bare {
    type Cmp = bool;
    type Id = Key;
    type Index = u8;
    fn id(&self) -> Key { Key(0) }
    fn get_edge(&self, _: &u8) -> Option<Self> { None }
    fn equiv_modulo_edges(&self, _: &Self) -> bool { true }
}
'''
seed('c33_cmp_clone', 'C33', 'A type of comparison results that cannot be cloned.',
     'Results of comparisons must be clonable, though that is not documented.',
     [(LIB, 'type Cmp: Cmp;', 'type Cmp: Cmp + Clone;')],
     BARE.replace('bool', 'Alike') .replace('true', 'Alike(true)') + """
pub struct Alike(bool);
impl Cmp for Alike {
    fn new_equiv() -> Self { Alike(true) }
    fn is_equiv(&self) -> bool { self.0 }
    fn from_ord(o: Ordering) -> Self { Alike(o.is_eq()) }
}
fn main() { assert!(gsc::robust::equiv(Bare, Bare).is_equiv()) }""")
seed('c33_edges_not_send', 'C33', 'Pending work that is handed to another thread.',
     'Edge iterators cannot be sent to another thread any more, though their nodes can.',
     [(GEN, '        next_index:              Option<N::Index>,\n    }', '        next_index:              Option<N::Index>,\n        lent:                    core::marker::PhantomData<*const N>,\n    }'),
      (GEN, 'Self { counterparts, next_index: Some(zero()) }', 'Self { counterparts, next_index: Some(zero()), lent: core::marker::PhantomData }')],
     BARE + 'fn send<T: Send>() {}\nfn main() { send::<EdgesIter<Bare>>() }')
seed('c33_refid_sized', 'C33', 'An id by reference to a slice, a string or a trait object, in an ordered collection.',
     'Ids by reference to targets without a known size have no order any more.',
     [(UT, 'impl<T: Deref> PartialOrd for RefId<T>\n    {', 'impl<T: Deref> PartialOrd for RefId<T>\n    where T::Target: Sized\n    {'),
      (UT, 'impl<T: Deref> Ord for RefId<T>\n    {', 'impl<T: Deref> Ord for RefId<T>\n    where T::Target: Sized\n    {')],
     """use std::collections::BTreeSet;
fn main() {
    let mut s = BTreeSet::new();
    assert!(s.insert(gsc::utils::RefId("abc")));
    let t: gsc::utils::RefId<&dyn std::fmt::Debug> = gsc::utils::RefId(&1_u8);
    assert!(BTreeSet::new().insert(t));
}""")
seed('c33_limited_error', 'C33', 'A limited mode together with an error type of the user.',
     'The limited mode only works where its own error is the error of the comparison.',
     [(BAS, '''            T: Ticker,
            P: equiv::Params<DescendMode = Self>,
            LimitReached: Into<P::Error>,
''', '''            T: Ticker,
            P: equiv::Params<DescendMode = Self>,
            P::Error: From<LimitReached>,
''')],
     '''struct E;
impl Into<E> for LimitReached { fn into(self) -> E { E } }
args!(P, Limited<u8>, CallStack, E);
fn main() {
    let g = G::new();
    let (a, b) = (g.node(1, &[]), g.node(1, &[]));
    assert!(Equiv::<P>::new(Limited(1)).equiv(g.n(a), g.n(b)).is_ok());
}''')
RNG_DEMO = '''
fn main() {
    use gsc::cycle_safe::modes::interleave::random::%(m)s::RandomNumberGenerator as R;
    let mut r = R::default();
    let end = NonZeroU16::new(u16::MAX).unwrap();
    let first = r.rand_upto(end);
    assert!((0..100).any(|_| r.rand_upto(end) != first), "every number is the same");
}'''
seed('c17_no_advance', 'C17', 'More than one fast limit drawn.',
     'Each number is drawn from a copy of the state, so all of them are the same.',
     [(RND + 'wyrng.rs', 'wyrng(&mut self.0) as u16', 'wyrng(&mut self.0.clone()) as u16')],
     RNG_DEMO % {'m': 'wyrng'})
seed('c17_oorandom_copy', 'C17', 'The generator oorandom, and more than one fast limit drawn.',
     'Each number is drawn from a generator made anew of the same state, so all of them are the same.',
     [(RND + 'oorandom.rs', 'self.0.rand_range(0 .. exclusive_end) as u16', 'Rand32::from_state(self.0.state()).rand_range(0 .. exclusive_end) as u16')],
     RNG_DEMO % {'m': 'oorandom'}, features=['std', 'oorandom'])
seed('c08_fresh_rng', 'C08', 'More than one fast phase in a comparison.',
     'Each fast limit is drawn from a new generator instead of the one of the mode, so all of them are the same.',
     [(CS, 'self.ticker = self.rng.rand_upto(', 'self.ticker = I::RNG::default().rand_upto(')],
     '''
#[derive(Default)]
struct Counting(u16);
thread_local! { static SEEN: RefCell<Vec<u16>> = RefCell::new(Vec::new()); }
impl NumberGenerator for Counting {
    fn rand_upto(&mut self, end: NonZeroU16) -> u16 {
        self.0 += 1;
        SEEN.with(|s| s.borrow_mut().push(self.0));
        self.0 % end.get()
    }
}
struct P<'g>(PhantomData<&'g ()>);
impl<'g> interleave::Params for P<'g> {
    const PRECHECK_LIMIT: u16 = 10;
    const FAST_LIMIT_MAX: u16 = 3;
    const SLOW_LIMIT: u16 = 2;
    type Node = N<'g>;
    type RNG = Counting;
    type Table = hash_map::Table<Self>;
}
impl<'g> hash_map::Params for P<'g> { type Node = N<'g>; }
impl<'g> equiv::Params for P<'g> {
    type Node = N<'g>;
    type DescendMode = Interleave<Self>;
    type RecurMode = CallStack;
    type Error = Infallible;
}
fn list(g: &G, n: usize) -> usize {
    let mut l = g.node(0, &[]);
    for _ in 0..n { l = g.node(0, &[l]) }
    l
}
fn main() {
    let g = G::new();
    let (a, b) = (list(&g, 60), list(&g, 60));
    assert_eq!(Equiv::<P>::default().equiv(g.n(a), g.n(b)), Ok(Ordering::Equal));
    SEEN.with(|s| { let s = s.borrow(); assert!(s.len() > 2 && s.windows(2).all(|w| w[1] == w[0] + 1), "{:?}", s) });
}''')
seed('c09_table_cleared', 'C09', 'More than five million ids recorded in one table.',
     'What was recorded is forgotten when the table grows large, so pairs are descended again.',
     [(EC, 'drop(HashMap::insert(&mut self.0, k, v));', 'if self.0.len() > 5_000_000 {\n                        self.0.clear();\n                    }\n                    drop(HashMap::insert(&mut self.0, k, v));')],
     '''
struct P<'g>(PhantomData<&'g ()>);
impl<'g> hash_map::Params for P<'g> { type Node = N<'g>; }
fn main() {
    use gsc::generic::equiv_classes::{Class, Rc, Table};
    let mut t = hash_map::Table::<P>::default();
    for k in 0..5_100_000 { t.insert(k, Rc::new(Cell::new(Class::default()))) }
    assert!(t.get(&0).is_some(), "an entry is gone");
}''')
seed('c07_release_link', 'C07', 'A release build.',
     'Two classes are only linked where debug assertions are enabled, so that in release builds nothing is ever united.',
     [(EC, 'Class::set_link(&smaller_rep, larger_rep);\n\n            false', 'debug_assert!({\n                Class::set_link(&smaller_rep, larger_rep);\n                true\n            });\n\n            false')],
     '''
struct P<'g>(PhantomData<&'g ()>);
impl<'g> interleave::Params for P<'g> {
    const PRECHECK_LIMIT: u16 = 10;
    const FAST_LIMIT_MAX: u16 = 0;
    const SLOW_LIMIT: u16 = u16::MAX;
    type Node = N<'g>;
    type RNG = MaxRng;
    type Table = hash_map::Table<Self>;
}
impl<'g> hash_map::Params for P<'g> { type Node = N<'g>; }
impl<'g> equiv::Params for P<'g> {
    type Node = N<'g>;
    type DescendMode = Interleave<Self>;
    type RecurMode = CallStack;
    type Error = Infallible;
}
fn main() {
    let g = G::new();
    let n: Vec<usize> = (0..4).map(|i| g.node(i, &[])).collect();
    let mut m = Interleave::<P>::default();
    macro_rules! ask { ($m:expr, $a:expr, $b:expr) => { DescendMode::<P>::do_edges($m, &g.n(n[$a]), &g.n(n[$b])).unwrap() } }
    assert!(ask!(&mut m, 0, 1));
    assert!(ask!(&mut m, 2, 3));
    assert!(ask!(&mut m, 1, 2));
    assert!(!ask!(&mut m, 0, 3), "the classes were not united");
}''', prof='--release')
