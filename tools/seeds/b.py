import os, runpy
globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(__file__), 'a.py')).items() if not k.startswith('__') and k not in ('SEEDS', 'seed')})
SEEDS = []
def seed(id, prop, needs, breaks, edits, demo=None, **kw):
    d = dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, **kw)
    if demo is not None:
        d['demo'] = demo
    SEEDS.append(d)

seed('c11_deferred_error', 'C11', 'A mode that fails once in the midst of a comparison, in the call-stack mode.',
     'The error is kept until the other edges were compared, and dropped if one of them differs.',
     [(BAS, '                for next in edges_iter {', '                let mut failed = None;\n                for next in edges_iter {'),
      (BAS, '''                            Ok(cmp) if cmp.is_equiv() => (),
                            result => return result,''', '''                            Ok(cmp) if cmp.is_equiv() => (),
                            Err(error) => failed = Some(error),
                            result => return result,'''),
      (BAS, '                Ok(Cmp::new_equiv())\n            }\n\n            #[inline]\n            fn next', '                failed.map_or_else(|| Ok(Cmp::new_equiv()), Err)\n            }\n\n            #[inline]\n            fn next')], '''
struct Once(u8);
impl<'g, P: equiv::Params<Node = N<'g>, DescendMode = Self, Error = u8>> DescendMode<P> for Once {
    type Error = u8;
    fn do_edges(&mut self, _: &P::Node, _: &P::Node) -> Result<bool, u8> { Ok(true) }
    fn do_traverse(&mut self) -> Result<bool, u8> { self.0 += 1; if self.0 == 2 { Err(42) } else { Ok(true) } }
}
args!(A, Once, CallStack, u8);
fn main() {
    let g = G::new();
    let (l, m, x, y) = (g.node(5, &[]), g.node(5, &[]), g.node(1, &[]), g.node(2, &[]));
    let (a, b) = (g.node(0, &[l, x]), g.node(0, &[m, y]));
    let (r, log) = g.logged(|| Equiv::<A>::new(Once(0)).equiv(g.n(a), g.n(b)));
    assert_eq!(r, Err(42));
    assert!(!log.contains(&('e', x, y)));
}
''')

FAILQ = '''
struct FailQ<'g>(PhantomData<&'g ()>);
// A recursion mode that has no room.
#[derive(Default)]
struct Full;
#[derive(Debug, PartialEq)]
enum E { Full }
impl From<Full> for CallStackLike { fn from(_: Full) -> Self { Self } }
#[derive(Default)]
struct CallStackLike;
macro_rules! imp { ($t:ident, $r:expr) => {
impl<P: equiv::Params<RecurMode = Self>> RecurMode<P> for $t where FullError: Into<P::Error> {
    type Error = FullError;
    fn recur(_: &mut Equiv<P>, _: EdgesIter<P::Node>) -> Result<<P::Node as Node>::Cmp, FullError> { $r }
    fn next(&mut self) -> Option<CounterpartsResult<P::Node>> { None }
    fn reset(self) -> Self { self }
}}}
struct FullError;
imp!(Full, Err(FullError));
imp!(CallStackLike, Ok(Cmp::new_equiv()));
impl From<FullError> for precheck_interleave::PrecheckError<E> { fn from(_: FullError) -> Self { Self::RecurError(E::Full) } }
impl From<FullError> for precheck_interleave::InterleaveError<E> { fn from(_: FullError) -> Self { Self(E::Full) } }
use gsc::generic::precheck_interleave;
struct Q;
impl<'g> precheck_interleave::Params<N<'g>> for Q {
    type PrecheckRecurMode = Full;
    type InterleaveRecurMode = CallStackLike;
    type InterleaveParams = Inter<'g, 400, 800, 40>;
    type Error = E;
}
fn main() {
    let g = G::new();
    let (l, m) = (g.node(5, &[]), g.node(5, &[]));
    let (a, b) = (g.node(0, &[l]), g.node(0, &[m]));
    assert_eq!(precheck_interleave::equiv::<N<'_>, Q>(g.n(a), g.n(b)), Err(E::Full));
}
'''
seed('c11_precheck_swallow', 'C11', 'A recursion mode of the precheck that fails.',
     'The error of the precheck is swallowed, and the comparison is done again as if the limit had been reached.',
     [(GEN, '''                Err(PrecheckError::RecurError(e)) => Err(e),
''', ''), (GEN, 'Err(PrecheckError::LimitReached) => {', 'Err(PrecheckError::LimitReached | PrecheckError::RecurError(_)) => {')], FAILQ)

PRE = '''
use gsc::generic::precheck_interleave;
struct Q<const L: u16>;
impl<'g, const L: u16> precheck_interleave::Params<N<'g>> for Q<L> {
    type PrecheckRecurMode = RecurStack<Inter2<'g>>;
    type InterleaveRecurMode = RecurStack<Inter2<'g>>;
    type InterleaveParams = Inter<'g, L, 800, 40>;
    type Error = Infallible;
}
struct Inter2<'g>(PhantomData<&'g ()>);
impl<'g> stack::Params for Inter2<'g> { type Node = N<'g>; }
'''
seed('c12_stack_not_cleared', 'C12', 'A precheck in the stack mode that reaches its limit with pairs still pending.',
     'The pending pairs of the precheck are carried over, and compared again after everything else.',
     [(WS, '            fn reset(mut self) -> Self\n            {\n                self.0.clear();\n                self', '            fn reset(self) -> Self\n            {\n                self')], PRE + '''
fn main() {
    let g = G::new();
    let mk = || { let mut n = g.node(0, &[]); for _ in 0 .. 20 { let l = g.node(1, &[]); n = g.node(0, &[n, l]) } n };
    let (a, b) = (mk(), mk());
    g.compares.set(0);
    let r: Result<Ordering, Infallible> = precheck_interleave::equiv::<N<'_>, Q<5>>(g.n(a), g.n(b));
    assert_eq!(r.unwrap(), Ordering::Equal);
    assert_eq!(g.compares.get(), 5 + 41);
}
''')
seed('c23_queue_not_cleared', 'C23', 'A precheck in the queue mode that reaches its limit with pairs still pending.',
     'The pending pairs of the precheck stay in the state that is carried over, so that it is not clean.',
     [(GEN, 'recur_mode:   e.recur_mode.reset().into(),', 'recur_mode:   e.recur_mode.into(),')], '''
fn main() {
    let g = G::new();
    let mk = || { let l: Vec<usize> = (0 .. 3).map(|_| g.node(1, &[])).collect(); let t: Vec<usize> = (0 .. 600).map(|_| g.node(1, &l)).collect(); g.node(0, &t) };
    let (a, b) = (mk(), mk());
    g.compares.set(0);
    assert_eq!(gsc::robust::precheck_equiv(g.n(a), g.n(b)), Ordering::Equal);
    assert_eq!(g.compares.get(), 400 + 1 + 600 + 1800);
}
''')
seed('c12_limit_at_least_one', 'C12', 'A configured precheck limit of zero, to have no precheck.',
     'The precheck is done with another limit than the configured one.',
     [(GEN, 'Equiv::<PrecheckArgs<N, P>>::new(Limited(P::InterleaveParams::PRECHECK_LIMIT));', 'Equiv::<PrecheckArgs<N, P>>::new(Limited(P::InterleaveParams::PRECHECK_LIMIT.max(1)));')], PRE + '''
fn main() {
    let g = G::new();
    let (l, m) = (g.node(1, &[]), g.node(1, &[]));
    let (a, b) = (g.node(0, &[l]), g.node(0, &[m]));
    g.compares.set(0);
    let r: Result<Ordering, Infallible> = precheck_interleave::equiv::<N<'_>, Q<0>>(g.n(a), g.n(b));
    assert_eq!(r.unwrap(), Ordering::Equal);
    assert_eq!(g.compares.get(), 2);
}
''')
seed('c22_precheck_swapped', 'C22', 'A graph larger than the precheck limit, with a result that tells the direction.',
     'After the precheck, the nodes are compared the other way round.',
     [(GEN, 'e.equiv(a, b).map_err(|InterleaveError(error)| error)', 'e.equiv(b, a).map_err(|InterleaveError(error)| error)')], '''
fn main() {
    let g = G::new();
    let mk = |v| { let mut n = g.node(v, &[]); for _ in 0 .. 1000 { n = g.node(0, &[n]) } n };
    let (a, b) = (mk(1), mk(2));
    assert_eq!(gsc::robust::precheck_equiv(g.n(a), g.n(b)), Ordering::Less);
    assert_eq!(gsc::cycle_safe::precheck_equiv(g.n(b), g.n(a)), Ordering::Greater);
}
''')
seed('c22_mode_swapped', 'C22', 'A descend mode of the user that treats the two nodes differently.',
     'The mode is asked about the nodes of the edges the other way round.',
     [(GEN, 'if try_into!(self.descend_mode.do_edges(a, b)) {', 'if try_into!(self.descend_mode.do_edges(b, a)) {')], '''
struct Rec(Vec<(usize, usize)>);
impl<'g, P: equiv::Params<Node = N<'g>, DescendMode = Self, Error = Vec<(usize, usize)>>> DescendMode<P> for Rec {
    type Error = Vec<(usize, usize)>;
    fn do_edges(&mut self, a: &P::Node, b: &P::Node) -> Result<bool, Self::Error> { Err(vec![(a.1, b.1)]) }
    fn do_traverse(&mut self) -> Result<bool, Self::Error> { Ok(true) }
}
args!(A, Rec, CallStack, Vec<(usize, usize)>);
fn main() {
    let g = G::new();
    let (l, m) = (g.node(1, &[]), g.node(1, &[]));
    let (a, b) = (g.node(0, &[l]), g.node(0, &[m]));
    assert_eq!(Equiv::<A>::new(Rec(vec![])).equiv(g.n(a), g.n(b)), Err(vec![(a, b)]));
}
''')
seed('c22_record_swapped', 'C22', 'Ids of which one is seen with a partner that it then replaces as the key.',
     'no', [(CS, 'x', 'x')], 'x')
SEEDS.pop()

seed('c13_index_end', 'C13', 'A node with as many edges as the index type has values (256 with u8).',
     'The index after the last possible one is expected to exist, so the comparison panics.',
     [(GEN, 'self.next_index = increment_index(i);', 'self.next_index = Some(next_index(i));'),
      (GEN, '    fn increment_index<T: Step>', '''    #[allow(clippy::expect_used)]
    fn next_index<T: Step>(i: &T) -> T
    {
        increment_index(i).expect("there are fewer edges than indexes")
    }

    fn increment_index<T: Step>'''),], '''
#[derive(Clone, Copy)]
struct W<'a>(&'a [u8], bool);
impl<'a> Node for W<'a> {
    type Cmp = bool; type Id = *const u8; type Index = u8;
    fn id(&self) -> *const u8 { self.0.as_ptr() }
    fn get_edge(&self, i: &u8) -> Option<Self> { if self.1 { Some(W(&self.0[usize::from(*i) + 1 ..], false)) } else { None } }
    fn equiv_modulo_edges(&self, o: &Self) -> bool { self.1 == o.1 }
}
fn main() {
    let (x, y) = ([0_u8; 400], [0_u8; 400]);
    assert!(gsc::basic::equiv(W(&x, true), W(&y, true)));
    assert!(gsc::deep_safe::equiv(W(&x, true), W(&y, true)));
}
''')
seed('c13_debug_order', 'C13', 'A configured maximum fast limit of 65534, and a generator that gives it.',
     'An internal assertion fails though everything is as configured.',
     [(CS, 'self.ticker = self.rng.rand_upto(Self::FAST_LIMIT_MAX_RANGE_END).into();', '''let fast_limit = self.rng.rand_upto(Self::FAST_LIMIT_MAX_RANGE_END);
                    debug_assert!(i16::try_from(fast_limit).is_ok() || fast_limit < 0xFFF0, "implausible limit");
                    self.ticker = fast_limit.into();''')],
     PH % {'fm': 65534, 'sl': 1, 'body': '''
    for _ in 0 .. 3 { let p = new(); assert!(go(p.0, p.1)) }
'''})

seed('c14_ge', 'C14', 'The operator >= on two ids of the same reference.',
     'An id is not greater than or equal to itself.',
     [(UT, 'self.as_ptr() >= other.as_ptr()', 'self.as_ptr() > other.as_ptr()')], '''
use gsc::utils::RefId;
fn main() {
    let x = [1, 2];
    let (a, b) = (RefId(&x[0]), RefId(&x[1]));
    assert!(a >= a && a <= a && !(a < a) && !(a > a) && a < b && b > a && b >= a && a <= b && a.cmp(&b) == Ordering::Less);
}
''')
seed('c14_partial', 'C14', 'partial_cmp of two ids of the same reference.',
     'The partial order does not agree with the total one.',
     [(UT, 'Some(Ord::cmp(self, other))', 'if self < other { Some(Ordering::Less) } else { Some(Ordering::Greater) }')], '''
use gsc::utils::RefId;
fn main() {
    let x = [1, 2];
    let (a, b) = (RefId(&x[0]), RefId(&x[1]));
    assert_eq!(a.partial_cmp(&a), Some(Ordering::Equal));
    assert_eq!(b.partial_cmp(&a), Some(Ordering::Greater));
    assert!((a, 1) < (a, 2));
}
''')
seed('c14_hash', 'C14', 'Ids of values that are changed between, by interior mutability.',
     'no', [(UT, 'x', 'x')], 'x')
SEEDS.pop()

seed('c15_u128', 'C15', 'An index of type u128 at or beyond the greatest u64.',
     'The step goes through u64: the indexes end early, or start again.',
     [(LIKE, 'provided_impls! { u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize }', '''provided_impls! { u8 i8 u16 i16 u32 i32 u64 i64 i128 usize isize }

    // No node has that many edges.
    #[allow(clippy::as_conversions, clippy::cast_possible_truncation)]
    impl Step for u128
    {
        #[inline]
        fn increment(&self) -> Option<Self>
        {
            (*self as u64).checked_add(1).map(Into::into)
        }
    }''')], '''
fn main() {
    assert_eq!(Step::increment(&u128::from(u64::MAX)), Some(u128::from(u64::MAX) + 1));
    assert_eq!(Step::increment(&u128::MAX), None);
    assert_eq!(Step::increment(&7_u128), Some(8));
}
''')
seed('c15_signed', 'C15', 'A signed index at the greatest value of its type.',
     'The signed indexes wrap around to negative ones and never end.',
     [(LIKE, 'provided_impls! { u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize }', '''provided_impls! { u8 i8 u16 i16 u32 i32 u64 u128 i128 usize isize }

    impl Step for i64
    {
        #[inline]
        fn increment(&self) -> Option<Self>
        {
            Some(self.wrapping_add(1))
        }
    }''')], '''
fn main() {
    assert_eq!(Step::increment(&i64::MAX), None);
    assert_eq!(Step::increment(&-1_i64), Some(0));
}
''')
seed_('c16_bool_ge', 'C16', 'A boolean result made from "greater", as from a second node with fewer edges.',
     'It is "equivalent", so nodes with different amounts of edges are.',
     [(LIB, 'ord.is_eq()\n    }', 'ord.is_ge()\n    }')], '''
fn main() {
    assert!(!<bool as Cmp>::from_ord(Ordering::Greater));
    assert!(!<bool as Cmp>::from_ord(Ordering::Less));
    assert!(<bool as Cmp>::from_ord(Ordering::Equal));
}
''')
seed_('c16_bool_le', 'C16', 'A boolean result made from "less", as from a first node with fewer edges.',
     'It is "equivalent", so nodes with different amounts of edges are.',
     [(LIB, 'ord.is_eq()\n    }', 'ord.is_le()\n    }')], '''
fn main() {
    assert!(!<bool as Cmp>::from_ord(Ordering::Greater));
    assert!(!<bool as Cmp>::from_ord(Ordering::Less));
    assert!(<bool as Cmp>::from_ord(Ordering::Equal));
}
''')
seed('c17_fastrand_incl', 'C17', 'The fastrand generator, when it draws the greatest number of its range.',
     'It gives the exclusive end itself.',
     [(RND + 'fastrand.rs', 'fastrand::u16(0 .. exclusive_end.get())', 'fastrand::u16(0 ..= exclusive_end.get())')], '''
use gsc::cycle_safe::modes::interleave::random::fastrand::RandomNumberGenerator as R;
fn main() {
    let mut r = R::default();
    for e in [1_u16, 2, 3] { for _ in 0 .. 1000 { assert!(r.rand_upto(NonZeroU16::new(e).unwrap()) < e) } }
}
''', features=['std', 'fastrand'])
seed('c17_oorandom_mul', 'C17', 'The oorandom generator with an end of one, or when it draws the greatest number.',
     'Rounding of the scaled number can give the exclusive end itself.',
     [(RND + 'oorandom.rs', 'self.0.rand_range(0 .. exclusive_end) as u16', '(self.0.rand_float() * exclusive_end as f32 + 0.5) as u16')], '''
use gsc::cycle_safe::modes::interleave::random::oorandom::RandomNumberGenerator as R;
fn main() {
    let mut r = R::default();
    for e in [1_u16, 2, 3] { for _ in 0 .. 1000 { assert!(r.rand_upto(NonZeroU16::new(e).unwrap()) < e) } }
}
''', features=['std', 'oorandom'])
seed('c17_wyrng_ceil', 'C17', 'The wyrng generator, with an end that does not divide the range of 16-bit numbers.',
     'Numbers at or above the end are given: the remainder is taken by the next power of two.',
     [(RND + 'wyrng.rs', 'wyrng(&mut self.0) as u16 % exclusive_end', 'wyrng(&mut self.0) as u16 & (exclusive_end.get().saturating_sub(1) | exclusive_end.get() >> 1)')], '''
use gsc::cycle_safe::modes::interleave::random::wyrng::RandomNumberGenerator as R;
fn main() {
    let mut r = R::default();
    for e in [1_u16, 2, 3, 5, 6, 801] { for _ in 0 .. 10000 { assert!(r.rand_upto(NonZeroU16::new(e).unwrap()) < e) } }
}
''')
seed('c18_wide_queue', 'C18', 'A wide graph compared by the wide-safe function: the difference found first, and the memory needed, depend on the mode.',
     'The limited wide-safe function uses the queue mode, and so is not safe for wide graphs.',
     [(WS, '''            type DescendMode = Limited<L>;
            type Error = LimitReached;
            type Node = N;
            type RecurMode = RecurStack<Self>;
        }

        impl<N: Node, L: Ticker> recursion::stack::Params for Args<N, L>''', '''            type DescendMode = Limited<L>;
            type Error = LimitReached;
            type Node = N;
            type RecurMode = crate::deep_safe::recursion::queue::RecurQueue<Self>;
        }

        impl<N: Node, L: Ticker> crate::deep_safe::recursion::queue::Params for Args<N, L>'''),
      (WS, '''            self,
            stack::RecurStack,
        },
        crate::{
            anticipated_or_like::Infallible,
            basic::modes::{''', '''            self,
            stack::RecurStack,
        },
        crate::{
            anticipated_or_like::Infallible,
            basic::modes::{''')], '''
fn main() {
    let g = G::new();
    let (x, y) = (g.node(1, &[]), g.node(2, &[]));
    let (x1, y1) = (g.node(0, &[x]), g.node(0, &[y]));
    let (xr, yr) = (g.node(0, &[y]), g.node(0, &[x]));
    let (x2, y2) = (g.node(0, &[x1]), g.node(0, &[y1]));
    let (a, b) = (g.node(0, &[x2, xr]), g.node(0, &[y2, yr]));
    assert_eq!(gsc::wide_safe::limited_equiv(100_u8, g.n(a), g.n(b)).ok(), Some(Ordering::Less));
}
''')
seed('c18_robust_precheck_callstack', 'C18', 'A prechecked robust comparison; a difference that is found first depends on the order.',
     'The precheck of the robust comparison recurs on the call-stack instead of the queue.',
     [(ROB, 'type PrecheckRecurMode = RecurQueue<Self>;', 'type PrecheckRecurMode = crate::basic::recursion::callstack::CallStack;')], ORDER.replace('robust::equiv', 'robust::precheck_equiv'))
seed('c18_cycle_safe_precheck', 'C18', 'A graph with few nodes that a cyclic comparison would finish soon.',
     'no', [(CS, 'x', 'x')], 'x')
SEEDS.pop()

MEM = '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering as O};
struct Count;
static NOW: AtomicUsize = AtomicUsize::new(0);
static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = NOW.fetch_add(l.size(), O::Relaxed) + l.size();
        MAX.fetch_max(n, O::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { NOW.fetch_sub(l.size(), O::Relaxed); System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
fn peak(f: impl FnOnce()) -> usize { let base = NOW.load(O::Relaxed); MAX.store(base, O::Relaxed); f(); MAX.load(O::Relaxed) - base }
'''
seed('c19_exhausted_kept', 'C19', 'A long list in the stack mode, or anything of which pending work ends in its last edge.',
     'Used-up edges are only removed when they are met again, so that a list needs memory for each of its nodes.',
     [(UT, '''                if !subiter.has_next() {
                    drop(self.next_subiter()); // Remove empty iterators, before returning `Some`.
                }
                if next.is_some() {
                    return next;
                }''', '''                if next.is_some() {
                    return next;
                }
                drop(self.next_subiter()); // Remove empty iterators.''')], MEM + '''
fn main() {
    let g = G::new();
    let mk = || { let mut n = g.node(0, &[]); for _ in 0 .. 100_000 { n = g.node(0, &[n]) } n };
    let (a, b) = (mk(), mk());
    let p = peak(|| assert_eq!(gsc::wide_safe::equiv(g.n(a), g.n(b)), Ordering::Equal));
    assert!(p < 100_000, "peak {}", p);
}
''')
seed('c20_prefetch', 'C20', 'Edges that are costly to get, and so counted.',
     'Each advance asks for the edges after the next ones too, only to know whether there are any.',
     [(GEN, '''                            self.next_index = increment_index(i);
                        }''', '''                            // Know the end early.
                            self.next_index = increment_index(i)
                                .filter(|n| a.get_edge(n).is_some() || b.get_edge(n).is_some());
                        }''')], '''
fn main() {
    let g = G::new();
    let (l, m) = (g.node(1, &[]), g.node(1, &[]));
    let (a, b) = (g.node(0, &[l, l, l]), g.node(0, &[m, m, m]));
    for f in [gsc::deep_safe::equiv, gsc::wide_safe::equiv, gsc::robust::equiv] {
        let (_, log) = g.logged(|| f(g.n(a), g.n(b)));
        for i in 0 .. 4 { assert!(log.iter().filter(|&&e| e == ('g', a, i)).count() <= 3) }
    }
    let (_, log) = g.logged(|| gsc::basic::equiv(g.n(a), g.n(b)));
    for i in 1 .. 4 { assert_eq!(log.iter().filter(|&&e| e == ('g', a, i)).count(), 1) }
}
''')
seed('c20_edges_first', 'C20', 'Nodes that are different by themselves, whose edges are made on demand.',
     'The first edges are requested before the values of the nodes are compared.',
     [(GEN, '''                cmp = a.equiv_modulo_edges(&b);
                if cmp.is_equiv() {
                    let mut edges_iter = EdgesIter::new([a, b]);
                    match edges_iter.next_no_adv() {''', '''                cmp = a.equiv_modulo_edges(&b);
                let mut edges_iter = EdgesIter::new([a, b]);
                let first = edges_iter.next_no_adv();
                if cmp.is_equiv() {
                    match first {''')], '''
fn main() {
    let g = G::new();
    let (l, m) = (g.node(1, &[]), g.node(1, &[]));
    let (a, b) = (g.node(0, &[l]), g.node(1, &[m]));
    let (_, log) = g.logged(|| gsc::robust::equiv(g.n(a), g.n(b)));
    assert_eq!(log, vec![('e', a, b)]);
}
''')
seed('c21_global_seed', 'C21', 'Two comparisons, or two generators, in one process.',
     'A global counter seeds the generators, so a comparison depends on how many there were before.',
     [(RND + 'wyrng.rs', '#[derive(Default)]\n', ''),
      (RND + 'wyrng.rs', 'impl super::NumberGenerator', '''impl Default for RandomNumberGenerator
{
    #[inline]
    fn default() -> Self
    {
        use core::sync::atomic::{
            AtomicUsize,
            Ordering,
        };
        static NEXT: AtomicUsize = AtomicUsize::new(0);
        #[allow(clippy::as_conversions)]
        Self(NEXT.fetch_add(1, Ordering::Relaxed) as u64)
    }
}

impl super::NumberGenerator''')], '''
use gsc::cycle_safe::modes::interleave::random::wyrng::RandomNumberGenerator as R;
fn main() {
    let draw = || { let mut r = R::default(); (0 .. 10).map(|_| r.rand_upto(NonZeroU16::new(60000).unwrap())).collect::<Vec<_>>() };
    assert_eq!(draw(), draw());
}
''')
seed('c23_ticker_start', 'C23', 'A count of the first pairs of a comparison, or a degenerate graph.',
     'A comparison starts in a fast phase of the length of the slow limit, instead of with its counter at zero.',
     [(CS, 'ticker:        0,', 'ticker:        P::SLOW_LIMIT.into(),')],
     PH % {'fm': 0, 'sl': 5, 'body': '''
    let p = new();
    assert!(go(p.0, p.1));
    assert!(!go(p.0, p.1));
'''})
seed('c24_lazy_std', 'C24', 'A build with allocation but without the standard library.',
     'The collections are only there with the standard library, so such a build fails.',
     [(UT, '#[cfg(feature = "alloc")]\nmod lazy_collections', '#[cfg(feature = "std")]\nmod lazy_collections'),
      (UT, '#[cfg(feature = "alloc")]\npub(crate) use lazy_collections', '#[cfg(feature = "std")]\npub(crate) use lazy_collections')],
     cmds='for f in alloc alloc,wyrng alloc,oorandom std; do\n  cargo check -q --manifest-path "$repo/Cargo.toml" --lib --no-default-features --features $f --offline 2>/dev/null || { echo "does not compile with $f"; exit 1; }\ndone')
seed('c24_oorandom_only', 'C24', 'A build with the oorandom generator as the only one.',
     'The crate does not compile when oorandom is the only generator enabled.',
     [(RND + 'mod.rs', '#[cfg(feature = "oorandom")]\npub mod oorandom;', '#[cfg(all(feature = "oorandom", feature = "wyrng"))]\npub mod oorandom;')],
     'fn main() { let g = G::new(); let a = g.node(1, &[]); assert_eq!(gsc::robust::equiv(g.n(a), g.n(a)), Ordering::Equal) }', features=['std', 'oorandom'])
seed('c24_std_in_alloc', 'C24', 'A build with allocation for a target without the standard library.',
     'The module of class records uses the standard library though only allocation is enabled.',
     [(EC, '''        //! Support for [`alloc`] things.

        extern crate alloc;''', '''        //! Support for [`alloc`] things.

        extern crate std as alloc;''')],
     cmds='''mkdir -p "$tmp/m/src"
cat > "$tmp/m/Cargo.toml" <<EOF
[package]
name = "m"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
graph_safe_compare = { path = "$repo", default-features = false, features = ["alloc"] }
EOF
# A program without the standard library has its own panic handler; with it there would be two.
cat > "$tmp/m/src/main.rs" <<EOF
#![no_std]
#![no_main]
extern crate alloc;
extern crate graph_safe_compare;
use core::alloc::{GlobalAlloc, Layout};
struct A;
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, _: Layout) -> *mut u8 { core::ptr::null_mut() } unsafe fn dealloc(&self, _: *mut u8, _: Layout) {} }
#[global_allocator]
static G: A = A;
#[panic_handler]
fn panic(_: &core::panic::PanicInfo<'_>) -> ! { loop {} }
EOF
cd "$tmp/m" && cargo check --offline -q 2>"$tmp/err" || { tail -5 "$tmp/err"; exit 1; }''')
seed('c25_unsafe_replace', 'C25', 'Nothing but a build that forbids unsafe code.',
     'The class records are copied through a raw pointer, in an unsafe block.',
     [(LIB, '#![forbid(unsafe_code)]', '#![deny(unsafe_code)]'),
      (EC, '''        let dummy = Self::default();
        let inner = it.replace(dummy);
        let result = inner.clone();
        it.set(inner);
        result''', '''        #[allow(unsafe_code)]
        // SAFETY: The reference is not used beyond the cloning.
        let inner = unsafe { &*it.as_ptr() };
        inner.clone()''')],
     cmds='cargo rustc -q --manifest-path "$repo/Cargo.toml" --lib --offline -- --cap-lints=warn -F unsafe_code 2>"$tmp/err"; grep -q "usage of an .unsafe. block" "$tmp/err" && exit 1; cargo rustc -q --manifest-path "$repo/Cargo.toml" --lib --offline -- -F unsafe_code 2>"$tmp/err" || { tail -5 "$tmp/err"; exit 1; }')
seed('c26_signed_limit', 'C26', 'A limit of a signed type, maybe negative.',
     'Signed types of limits are accepted.',
     [(BAS, 'impl Ticker for usize {}', 'impl Ticker for usize {}\n            impl Ticker for i64 {}')],
     ok='fn main() { let g = G::new(); let a = g.node(1, &[]); let _ = gsc::basic::limited_equiv(4_u64, g.n(a), g.n(a)); }',
     bad='fn main() { let g = G::new(); let a = g.node(1, &[]); let _ = gsc::basic::limited_equiv(4_i64, g.n(a), g.n(a)); }')
seed('c26_edges_forge', 'C26', 'A user who replaces the nodes of an iterator of edges that is given to a recursion mode.',
     'The nodes of an iterator of edges can be altered from outside.',
     [(GEN, 'pub(super) counterparts: Counterparts<N>,', '#[doc(hidden)]\n        pub counterparts: Counterparts<N>,')],
     ok='fn f(mut e: EdgesIter<N<\'_>>) { let _ = e.next(); } fn main() {}',
     bad='fn f(mut e: EdgesIter<N<\'_>>) { e.counterparts.swap(0, 1); let _ = e.next(); } fn main() {}')
seed('c01_amounts_late', 'C01', 'A difference in the amount of edges at the first index, and a mode that says not to descend or an order of traversal that matters.',
     'The mode is asked about the edges before the difference in their amount decides, and may hide it or have it found later.',
     [(GEN, '''                        Some(Err(cmp_amount_edges)) => cmp = cmp_amount_edges,
                        None => (),''', '''                        None => (),'''),
      (GEN, '                        Some(Ok(_)) => {\n', '                        Some(_) => {\n')], '''
fn main() {
    let g = G::new();
    let (x, y, l) = (g.node(1, &[]), g.node(2, &[]), g.node(3, &[]));
    let (p, q) = (g.node(0, &[]), g.node(0, &[l]));
    let (a, b) = (g.node(0, &[p, y]), g.node(0, &[q, x]));
    assert_eq!(gsc::deep_safe::equiv(g.n(a), g.n(b)), Ordering::Less);
}
''')
seed('c06_skip_on_shared', 'C06', 'A pair of which both nodes were seen before, but in different classes of which one is a single node with many equals.',
     'no', [(CS, 'x', 'x')], 'x')
SEEDS.pop()
seed_('c09_consult_ignored', 'C09', 'A pair consulted in the slow phase that is in one class already, right after the slow phase began.',
     'The first pair of each slow phase is descended whether or not it is in one class already.',
     [(CS, 'else if self.equiv_classes.same_class(&a.id(), &b.id()) {', 'else if self.equiv_classes.same_class(&a.id(), &b.id()) && self.ticker < -1 {')],
     PH % {'fm': 0, 'sl': 1000, 'body': '''
    for _ in 0 .. 10 { let p = new(); assert!(go(p.0, p.1)); assert!(!go(p.0, p.1)); assert!(!go(p.0, p.1)); }
'''})
seed('c07_halving_root', 'C07', 'A record whose link goes over two others to the representative, looked up after yet another union.',
     'Shortening the chain links the record to itself or loses what is beyond it.',
     [(EC, '''                            cur.set(Self::Link { next: R::clone(&next_next) });
                            cur = next;
                            next = next_next;''', '''                            cur.set(Self::Link { next: R::clone(&next_next) });
                            next.set(Self::Representative { weight: 1 });
                            cur = next;
                            next = next_next;''')], CLS % '''
    // unions of ever larger classes, so that chains of two and more links arise
    let mut step = 1;
    for i in 0 .. 64 { assert!(go(2 * i, 2 * i + 1)) }
    while step < 64 {
        let mut i = 0;
        while i + step < 64 { assert!(go(2 * i + 1, 2 * (i + step) + 1)); i += 2 * step }
        step *= 2;
    }
    for _ in 0 .. 3 { for a in 0 .. 127 { assert!(!go(a, a + 1), "{}", a) } }
''')
seed('c19_queue_rotated', 'C19', 'Several pairs pending, of which the first has more than one edge.',
     'After an edge is taken, the record goes to the back, so records of other pairs are taken and removed in its place.',
     [(UT, '''                if !subiter.has_next() {
                    drop(self.next_subiter()); // Remove empty iterators, before returning `Some`.
                }''', '''                let more = subiter.has_next();
                if let Some(subiter) = self.next_subiter() {
                    // Be fair to the others.
                    if more {
                        self.extend(subiter);
                    }
                }''')], '''
fn main() {
    let g = G::new();
    let mk = |v: [i64; 3]| {
        let l: Vec<usize> = v.iter().map(|&v| { let x = g.node(v, &[]); g.node(0, &[x, x]) }).collect();
        let top: Vec<usize> = (0 .. 3).map(|i| l[i]).collect();
        let (p, q) = (g.node(0, &top), g.node(0, &[l[1], l[1]]));
        g.node(0, &[p, q])
    };
    let (a, b) = (mk([1, 1, 1]), mk([1, 1, 1]));
    let (_, log) = g.logged(|| assert_eq!(gsc::deep_safe::equiv(g.n(a), g.n(b)), Ordering::Equal));
    let e: Vec<usize> = log.iter().filter(|e| e.0 == 'e').map(|e| e.1).collect();
    // breadth first, in order of edges
    let kids = |n: usize| g.nodes.borrow()[n].1.clone();
    let mut want = vec![a];
    let mut i = 0;
    while i < want.len() { let k = kids(want[i]); want.extend(k); i += 1 }
    assert_eq!(e, want);
}
''')
seed('c04_drain_after', 'C04', 'A difference found while other pairs are pending, whose edges are made on demand.',
     'After the first difference is found, the pending pairs are still gone through, and their edges requested.',
     [(GEN, """                    result => return result,
                }
            }
        }""", """                    result => {
                        // Nothing of this comparison shall stay pending.
                        while let Some(Ok(_)) = self.recur_mode.next() {}
                        return result;
                    },
                }
            }
        }""")], """
fn main() {
    let g = G::new();
    let (x, y, z) = (g.node(1, &[]), g.node(2, &[]), g.node(3, &[]));
    let (a, b) = (g.node(0, &[x, z, z, z]), g.node(0, &[y, z, z, z]));
    let (r, log) = g.logged(|| gsc::deep_safe::equiv(g.n(a), g.n(b)));
    assert_eq!(r, Ordering::Less);
    assert_eq!(log.last(), Some(&('e', x, y)), "{:?}", log);
}
""")
seed('c10_precharge', 'C10', 'A limit that is exact for the pairs examined, of which some have no edges.',
     'The last unit of a limit is kept back once edges were descended.',
     [(BAS, '''                if self.0 > 0.into() {''', '''                if self.0 > 0.into() && self.0 != 255.into() {''')], '''
fn main() {
    let g = G::new();
    let a = g.node(0, &[]);
    assert!(gsc::basic::limited_equiv(255_u8, g.n(a), g.n(a)).is_ok());
    assert!(gsc::basic::limited_equiv(255_u64, g.n(a), g.n(a)).is_ok());
}
''')
seed('c10_u64_truncated', 'C10', 'A limit of a type wider than 8 bits that is a multiple of some power of two.',
     'no', [(CS, 'x', 'x')], 'x')
SEEDS.pop()
seed('c18_state_reused', 'C18', 'no', 'no', [(CS, 'x', 'x')], 'x')
SEEDS.pop()
seed('c12_precheck_all', 'C12', 'A prechecked comparison that the precheck decides, with nodes whose values are costly to compare.',
     'A result of the precheck that says "different" is not trusted, and found again by the full comparison.',
     [(GEN, '''                Ok(cmp) => Ok(cmp),
                Err(PrecheckError::RecurError(e)) => Err(e),
                Err(PrecheckError::LimitReached) => {''', '''                Ok(cmp) if cmp.is_equiv() => Ok(cmp),
                Err(PrecheckError::RecurError(e)) => Err(e),
                Ok(_) | Err(PrecheckError::LimitReached) => {'''),
      (GEN, '''                cycle_safe::modes::interleave,
                Node,
            },
            sealed''', '''                cycle_safe::modes::interleave,
                Cmp as _,
                Node,
            },
            sealed''')], '''
fn main() {
    let g = G::new();
    let (x, y) = (g.node(1, &[]), g.node(2, &[]));
    let (a, b) = (g.node(0, &[x]), g.node(0, &[y]));
    g.compares.set(0);
    assert_eq!(gsc::robust::precheck_equiv(g.n(a), g.n(b)), Ordering::Less);
    assert_eq!(g.compares.get(), 2);
}
''')
seed('c05_drop_chain', 'C05', 'Hundreds of thousands of records.', 'no', [(CS, 'x', 'x')], 'x')
SEEDS.pop()
seed('c05_main_recurses', 'C05', 'A deep graph each of whose nodes has one edge only, in the queue or stack mode.',
     'Single edges are followed by a call instead of by the loop, so the call-stack grows with lists.',
     [(DS, '''                it.recur_mode.0.extend(edges_iter);
                Ok(Cmp::new_equiv())''', '''                let mut edges_iter = edges_iter;
                let first = edges_iter.next();
                match (first, edges_iter.has_next()) {
                    // No need to queue an only child.
                    (Some(Ok([a, b])), false) => match it.equiv_main(a, b) {
                        Ok(cmp) => return Ok(cmp),
                        Err(_) => (),
                    },
                    (Some(Err(cmp)), _) => return Ok(cmp),
                    _ => (),
                }
                it.recur_mode.0.extend(edges_iter);
                Ok(Cmp::new_equiv())'''),
      (DS, '''                LazierIterator as _,
                LazyVecQueue,''', '''                LazierIterator as _,
                LazyVecQueue,
                NonAdvancingIterator as _,''')], DEEPSHARED)
SEEDS.pop()
seed('c14_clone_ord', 'C14', 'no', 'no', [(CS, 'x', 'x')], 'x')
SEEDS.pop()
