import os, runpy
globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(__file__), 'a.py')).items() if not k.startswith('__') and k not in ('SEEDS', 'seed')})
SEEDS = []
def seed_(*a, **k):
    pass

def seed(id, prop, needs, breaks, edits, demo=None, **kw):
    d = dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, **kw)
    if demo is not None:
        d['demo'] = demo
    SEEDS.append(d)

# counts the greatest request for memory
ALLOC = '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct Count;
static ALL: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { ALL.fetch_add(l.size(), SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
fn room<T>(f: impl FnOnce() -> T) -> usize {
    let n = ALL.load(SeqCst);
    let r = f();
    let n = ALL.load(SeqCst) - n;
    std::mem::forget(r);
    n
}
'''
seed('c34_table_half', 'C34', 'A table with room for many elements.',
     'A new table has room for half of the elements that its parameters say.',
     [(EC, 'HashMap::with_capacity(P::INITIAL_CAPACITY)', 'HashMap::with_capacity(P::INITIAL_CAPACITY / 2)')], ALLOC + '''
struct P<'g>(PhantomData<&'g ()>);
impl<'g> hash_map::Params for P<'g> { const INITIAL_CAPACITY: usize = 1 << 20; type Node = N<'g>; }
fn main() {
    let n = room(hash_map::Table::<P>::default);
    assert!(n >= (1 << 21) * 16, "{n} bytes");
}''')
seed('c34_stack_most', 'C34', 'A stack with room for more than 4096 elements.',
     'The room of a new stack is limited, whatever its parameters say.',
     [(WS, 'Self(LazyVecStack::with_capacity(P::INITIAL_CAPACITY))', 'Self(LazyVecStack::with_capacity(P::INITIAL_CAPACITY.min(4096)))')], ALLOC + '''
struct P<'g>(PhantomData<&'g ()>);
impl<'g> stack::Params for P<'g> { const INITIAL_CAPACITY: usize = 1 << 20; type Node = N<'g>; }
fn main() {
    let n = room(RecurStack::<P>::default);
    assert!(n >= (1 << 20) * 16, "{n} bytes");
}''')
seed('c34_queue_from', 'C34', 'A queue that takes the place of the call-stack after a precheck.',
     'A queue made from the call-stack mode has no room at first.',
     [(DS, '''            fn from(_: CallStack) -> Self
            {
                Self::default()''', '''            fn from(_: CallStack) -> Self
            {
                Self(LazyVecQueue::with_capacity(0))''')], ALLOC + '''
struct P<'g>(PhantomData<&'g ()>);
impl<'g> queue::Params for P<'g> { const INITIAL_CAPACITY: usize = 1 << 20; type Node = N<'g>; }
fn main() {
    let n = room(|| RecurQueue::<P>::from(CallStack::default()));
    assert!(n >= (1 << 20) * 16, "{n} bytes");
}''')
seed_('c03_next_side', 'C03', 'Amounts of edges that differ at a later index, and a result that says which is less.',
     'When the amounts of edges differ further on, the wrong side is said to be less.',
     [(GEN, '[None, Some(_)] => Some(Err(N::Cmp::from_ord(Ordering::Less))),\n                    [Some(_), None] => Some(Err(N::Cmp::from_ord(Ordering::Greater))),',
       '[None, Some(_)] if advance => Some(Err(N::Cmp::from_ord(Ordering::Greater))),\n                    [None, Some(_)] => Some(Err(N::Cmp::from_ord(Ordering::Less))),\n                    [Some(_), None] => Some(Err(N::Cmp::from_ord(Ordering::Greater))),')], '''
fn main() {
    let g = G::new();
    let l = g.node(0, &[]);
    let (a, b) = (g.node(0, &[l]), g.node(0, &[l, l]));
    for f in [gsc::basic::equiv, gsc::deep_safe::equiv, gsc::wide_safe::equiv, gsc::robust::equiv] {
        assert_eq!(f(g.n(a), g.n(b)), Ordering::Less);
        assert_eq!(f(g.n(b), g.n(a)), Ordering::Greater);
    }
}''')
seed('c14_hash_thin', 'C14', 'Ids of slices of different lengths that begin at one address.',
     'The hash of an id leaves out what belongs to the address of an unsized target.',
     [(UT, 'ptr::hash(self.as_ptr(), state);', 'ptr::hash(self.as_ptr().cast::<u8>(), state);')], '''
use std::{hash::{Hash, Hasher}, collections::hash_map::DefaultHasher};
fn main() {
    let h = |x: &[u8]| { let mut s = DefaultHasher::new(); gsc::utils::RefId(x).hash(&mut s); s.finish() };
    let v = [1, 2, 3];
    assert_ne!(h(&v[..1]), h(&v[..2]));
}''')
seed('c14_order_thin', 'C14', 'Ids of slices of different lengths that begin at one address.',
     'One of the operators leaves out what belongs to the address of an unsized target.',
     [(UT, 'self.as_ptr() >= other.as_ptr()', 'self.as_ptr().cast::<u8>() >= other.as_ptr().cast::<u8>()')], '''
fn main() {
    let v = [1_u8, 2, 3];
    let (a, b) = (gsc::utils::RefId(&v[..1]), gsc::utils::RefId(&v[..2]));
    assert!(a < b && !(a >= b));
}''')
seed_('c22_stack_pairs', 'C22', 'A result that says which side is less, and a pair below the topmost of the stack.',
     'The depth-first scheme exchanges the sides of the pairs it gives.',
     [(WS, 'self.0.next()', 'self.0.next().map(|r| r.map(|[a, b]| [b, a]))')], '''
fn main() {
    let g = G::new();
    let (x, y) = (g.node(1, &[]), g.node(2, &[]));
    let (a, b) = (g.node(0, &[x]), g.node(0, &[y]));
    assert_eq!(gsc::wide_safe::equiv(g.n(a), g.n(b)), Ordering::Less);
}''')
seed_('c16_order_le', 'C16', 'An ordering as the result, of which only one side is looked at.',
     'An ordering that says "less" counts as equivalent.',
     [(LIB, 'self.is_eq()', 'self.is_le()')], '''
fn main() {
    assert!(!Ordering::Less.is_equiv());
}''')
seed('c21_thread_local', 'C21', 'Two comparisons on one thread.',
     'The generator goes on where an earlier comparison left off, so that comparisons depend on earlier ones.',
     [(RND + 'wyrng.rs', '#[derive(Default)]\npub struct RandomNumberGenerator(u64);', '''pub struct RandomNumberGenerator(u64);

impl Default for RandomNumberGenerator
{
    #[inline]
    fn default() -> Self
    {
        use core::sync::atomic::{
            AtomicUsize,
            Ordering,
        };
        /// How many were made before.
        static BEFORE: AtomicUsize = AtomicUsize::new(0);
        #[allow(clippy::as_conversions)]
        Self(BEFORE.fetch_add(1, Ordering::Relaxed) as u64)
    }
}
''')], '''
fn main() {
    let draw = || { let mut r = gsc::cycle_safe::modes::interleave::random::wyrng::RandomNumberGenerator::default();
        (0..64).map(|_| r.rand_upto(NonZeroU16::new(60000).unwrap())).collect::<Vec<_>>() };
    assert_eq!(draw(), draw());
}''')
