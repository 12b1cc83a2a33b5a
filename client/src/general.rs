//! What a user's types may be, and what may be done with the library's: each function is a witness that the crate accepts it.
//!
//! Never run, and not analysed further: it is only type-checked.  The user's types here implement what the documentation asks
//! for and nothing else: they cannot be copied, printed, ordered or sent, and they borrow.
use super::*;
use core::fmt::Debug;

fn send<T: Send>() {}
fn sync<T: Sync>() {}
fn unpin<T: Unpin>() {}
fn fixed<T: 'static>() {}
fn all<T: Send + Sync + Unpin + 'static>() {}

/// Neither `Send`, `Sync` nor `UnwindSafe`, and only alive for `'a`.
type Held<'a> = PhantomData<(*const (), &'a mut u8, Cell<u8>)>;

pub struct Id<'a>(Held<'a>);
impl Clone for Id<'_> {
    fn clone(&self) -> Self {
        Id(PhantomData)
    }
}
impl PartialEq for Id<'_> {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl Eq for Id<'_> {}
impl Hash for Id<'_> {
    fn hash<H: Hasher>(&self, _: &mut H) {}
}

/// Whether two nodes are alike.
pub struct Alike<'a>(Held<'a>);
pub fn general_cmp() {
    impl Cmp for Alike<'_> {
        fn new_equiv() -> Self {
            Alike(PhantomData)
        }
        fn is_equiv(&self) -> bool {
            true
        }
        fn from_ord(_: Ordering) -> Self {
            Alike(PhantomData)
        }
    }
}

#[cfg(not(feature = "anticipate"))]
pub struct Index<'a>(Held<'a>);
#[cfg(not(feature = "anticipate"))]
impl Default for Index<'_> {
    fn default() -> Self {
        Index(PhantomData)
    }
}
#[cfg(not(feature = "anticipate"))]
pub fn general_index() {
    impl Step for Index<'_> {
        fn increment(&self) -> Option<Self> {
            None
        }
    }
}
#[cfg(not(feature = "anticipate"))]
impl PartialEq for Index<'_> {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
#[cfg(not(feature = "anticipate"))]
impl Eq for Index<'_> {}
#[cfg(not(feature = "anticipate"))]
impl PartialOrd for Index<'_> {
    fn partial_cmp(&self, _: &Self) -> Option<Ordering> {
        None
    }
}
#[cfg(not(feature = "anticipate"))]
impl Ord for Index<'_> {
    fn cmp(&self, _: &Self) -> Ordering {
        Ordering::Equal
    }
}

pub struct Plain<'a>(Held<'a>);

pub fn general_node() {
    impl<'a> Node for Plain<'a> {
        type Cmp = Alike<'a>;
        type Id = Id<'a>;
        #[cfg(not(feature = "anticipate"))]
        type Index = Index<'a>;
        #[cfg(feature = "anticipate")]
        type Index = u8;
        fn id(&self) -> Self::Id {
            Id(PhantomData)
        }
        fn get_edge(&self, _: &Self::Index) -> Option<Self> {
            None
        }
        fn equiv_modulo_edges(&self, _: &Self) -> Self::Cmp {
            Alike(PhantomData)
        }
    }
}

pub fn general_basic<'a>(x: Plain<'a>, y: Plain<'a>) -> Alike<'a> {
    basic::equiv(x, y)
}

pub fn general_limited<'a>(x: Plain<'a>, y: Plain<'a>) -> Result<Alike<'a>, LimitReached> {
    basic::limited_equiv(1_u8, x, y)
}

#[cfg(feature = "alloc")]
pub fn general_deep<'a>(x: Plain<'a>, y: Plain<'a>) -> Alike<'a> {
    deep_safe::equiv(x, y)
}

#[cfg(feature = "alloc")]
pub fn general_wide<'a>(x: Plain<'a>, y: Plain<'a>) -> Alike<'a> {
    wide_safe::equiv(x, y)
}

#[cfg(all(feature = "std", any(feature = "wyrng", feature = "oorandom", feature = "fastrand")))]
pub fn general_cycle<'a>(x: Plain<'a>, y: Plain<'a>) -> Alike<'a> {
    cycle_safe::equiv(x, y)
}

#[cfg(all(feature = "std", any(feature = "wyrng", feature = "oorandom", feature = "fastrand")))]
pub fn general_robust<'a>(x: Plain<'a>, y: Plain<'a>) -> Alike<'a> {
    robust::equiv(x, y)
}

/// Functions of the crate are values like any others.
pub fn general_values<N: Node>() -> fn(N, N) -> N::Cmp {
    basic::equiv::<N>
}

// ---------------------------------------------------------------- the user's own parts

pub struct OwnMode<'a>(Held<'a>);
pub struct OwnRecur<'a>(Held<'a>);
pub struct OwnParams<'a>(Held<'a>);
pub struct OwnError<'a>(Held<'a>);
impl Default for OwnRecur<'_> {
    fn default() -> Self {
        OwnRecur(PhantomData)
    }
}

pub fn general_own_parts() {
    impl<'a, P: equiv::Params<Error = OwnError<'a>>> DescendMode<P> for OwnMode<'a> {
        type Error = OwnError<'a>;
        fn do_edges(&mut self, _: &P::Node, _: &P::Node) -> Result<bool, Self::Error> {
            Err(OwnError(PhantomData))
        }
        fn do_traverse(&mut self) -> Result<bool, Self::Error> {
            Ok(false)
        }
    }
    impl<'a, P: equiv::Params<Error = OwnError<'a>>> RecurMode<P> for OwnRecur<'a> {
        type Error = OwnError<'a>;
        fn recur(_: &mut Equiv<P>, _: EdgesIter<P::Node>) -> Result<CmpOf<P>, Self::Error> {
            Err(OwnError(PhantomData))
        }
        fn next(&mut self) -> Option<CounterpartsResult<P::Node>> {
            None
        }
        fn reset(self) -> Self {
            self
        }
    }
    impl<'a> equiv::Params for OwnParams<'a> {
        type Node = Plain<'a>;
        type DescendMode = OwnMode<'a>;
        type RecurMode = OwnRecur<'a>;
        type Error = OwnError<'a>;
    }
}

pub fn general_own_equiv<'a>(x: Plain<'a>, y: Plain<'a>) -> Result<Alike<'a>, OwnError<'a>> {
    Equiv::<OwnParams<'a>>::new(OwnMode(PhantomData)).equiv(x, y)
}

pub fn general_own_table() {
    pub struct OwnRc<'a>(&'a Cell<Class<OwnRc<'a>>>, Held<'a>);
    impl<'a> Clone for OwnRc<'a> {
        fn clone(&self) -> Self {
            OwnRc(self.0, PhantomData)
        }
    }
    impl<'a> Deref for OwnRc<'a> {
        type Target = Cell<Class<Self>>;
        fn deref(&self) -> &Self::Target {
            self.0
        }
    }
    impl<'a> equiv_classes::Rc for OwnRc<'a> {
        fn new(_: Cell<Class<Self>>) -> Self {
            loop {}
        }
    }
    pub struct OwnTable<'a>(Held<'a>);
    impl Default for OwnTable<'_> {
        fn default() -> Self {
            OwnTable(PhantomData)
        }
    }
    impl<'a> Table for OwnTable<'a> {
        type Node = Plain<'a>;
        type Rc = OwnRc<'a>;
        fn get(&self, _: &Id<'a>) -> Option<&OwnRc<'a>> {
            None
        }
        fn insert(&mut self, _: Id<'a>, _: OwnRc<'a>) {}
    }
    pub struct OwnRng<'a>(Held<'a>);
    impl Default for OwnRng<'_> {
        fn default() -> Self {
            OwnRng(PhantomData)
        }
    }
    impl NumberGenerator for OwnRng<'_> {
        fn rand_upto(&mut self, _: NonZeroU16) -> u16 {
            0
        }
    }
    pub struct All<'a>(Held<'a>);
    impl<'a> interleave::Params for All<'a> {
        const PRECHECK_LIMIT: u16 = u16::MAX;
        const FAST_LIMIT_MAX: u16 = 0;
        const SLOW_LIMIT: u16 = 1;
        type Node = Plain<'a>;
        type Table = OwnTable<'a>;
        type RNG = OwnRng<'a>;
    }
    impl<'a> equiv::Params for All<'a> {
        type Node = Plain<'a>;
        type DescendMode = Interleave<Self>;
        type RecurMode = CallStack;
        type Error = Infallible;
    }
    fn usable<'a>(x: Plain<'a>, y: Plain<'a>) -> Result<Alike<'a>, Infallible> {
        Equiv::<All<'a>>::default().equiv(x, y)
    }
}

pub struct MyError<'a>(Held<'a>);
impl From<LimitReached> for MyError<'_> {
    fn from(_: LimitReached) -> Self {
        MyError(PhantomData)
    }
}

/// With an error type of the user's that nothing is known of but what converts to it.
pub fn general_limits() {
    macro_rules! limits {
        ($($t:ident)*) => {$({
            struct P<'a>(Held<'a>);
            impl<'a> equiv::Params for P<'a> {
                type Node = Plain<'a>;
                type DescendMode = Limited<$t>;
                type RecurMode = CallStack;
                type Error = MyError<'a>;
            }
            fn usable<'a>(x: Plain<'a>, y: Plain<'a>) -> Result<Alike<'a>, MyError<'a>> {
                Equiv::<P<'a>>::new(Limited(1)).equiv(x, y)
            }
        })*};
    }
    limits! { u8 u16 u32 u64 u128 usize }
}

#[cfg(feature = "alloc")]
pub fn general_pending_params<'a>() {
    struct V<'a>(Held<'a>);
    impl<'a> queue::Params for V<'a> {
        const INITIAL_CAPACITY: usize = 0;
        type Node = Plain<'a>;
    }
    impl<'a> stack::Params for V<'a> {
        const INITIAL_CAPACITY: usize = 0;
        type Node = Plain<'a>;
    }
    drop((RecurQueue::<V<'a>>::default(), RecurStack::<V<'a>>::default()));
    drop((RecurQueue::<V<'a>>::from(CallStack::default()), RecurStack::<V<'a>>::from(CallStack::default())));
}

#[cfg(feature = "std")]
pub fn general_hash_params<'a>() {
    struct V<'a>(Held<'a>);
    impl<'a> hash_map::Params for V<'a> {
        const INITIAL_CAPACITY: usize = 0;
        type Node = Plain<'a>;
    }
    let mut t = hash_map::Table::<V<'a>>::default();
    t.insert(Id(PhantomData), equiv_classes::Rc::new(Cell::new(Class::default())));
    drop(t.get(&Id(PhantomData)).is_some());
}

#[cfg(feature = "alloc")]
pub fn general_precheck<'a, M: interleave::Params<Node = N>, N: Node + Clone>(x: N, y: N) -> Result<N::Cmp, Infallible> {
    pub struct Own<M>(PhantomData<M>);
    impl<M: interleave::Params> queue::Params for Own<M> {
        type Node = M::Node;
    }
    impl<N: Node, M: interleave::Params<Node = N>> precheck_interleave::Params<N> for Own<M> {
        type PrecheckRecurMode = CallStack;
        type InterleaveRecurMode = RecurQueue<Self>;
        type InterleaveParams = M;
        type Error = Infallible;
    }
    precheck_interleave::equiv::<N, Own<M>>(x, y)
}

// ---------------------------------------------------------------- threads

pub fn general_auto_small() {
    all::<LimitReached>();
    all::<Limited<u8>>();
    all::<Limited<u128>>();
    all::<Unlimited>();
    all::<CallStack>();
    all::<PrecheckError<u8>>();
    all::<InterleaveError<u8>>();
}

pub fn general_auto_errors<E: Send, F: Sync>() {
    send::<PrecheckError<E>>();
    sync::<PrecheckError<F>>();
    send::<InterleaveError<E>>();
    sync::<InterleaveError<F>>();
}

pub fn general_auto_rngs() {
    #[cfg(feature = "wyrng")]
    all::<random::wyrng::RandomNumberGenerator>();
    #[cfg(feature = "oorandom")]
    all::<random::oorandom::RandomNumberGenerator>();
    #[cfg(all(feature = "fastrand", feature = "std"))]
    all::<random::fastrand::RandomNumberGenerator>();
}

pub fn general_send_edges<N: Node + Send>()
where
    N::Index: Send,
{
    send::<EdgesIter<N>>();
}

pub fn general_sync_edges<N: Node + Sync>()
where
    N::Index: Sync,
{
    sync::<EdgesIter<N>>();
}

pub fn general_unpin_edges<N: Node + Unpin>()
where
    N::Index: Unpin,
{
    unpin::<EdgesIter<N>>();
}

pub fn general_send_equiv<P: equiv::Params>()
where
    P::DescendMode: Send,
    P::RecurMode: Send,
{
    send::<Equiv<P>>();
}

pub fn general_sync_equiv<P: equiv::Params>()
where
    P::DescendMode: Sync,
    P::RecurMode: Sync,
{
    sync::<Equiv<P>>();
}

#[cfg(feature = "alloc")]
pub fn general_send_queue<V: queue::Params>()
where
    EdgesIter<V::Node>: Send,
{
    send::<RecurQueue<V>>();
}

#[cfg(feature = "alloc")]
pub fn general_sync_queue<V: queue::Params>()
where
    EdgesIter<V::Node>: Sync,
{
    sync::<RecurQueue<V>>();
}

#[cfg(feature = "alloc")]
pub fn general_send_stack<V: stack::Params>()
where
    EdgesIter<V::Node>: Send,
{
    send::<RecurStack<V>>();
}

#[cfg(feature = "alloc")]
pub fn general_sync_stack<V: stack::Params>()
where
    EdgesIter<V::Node>: Sync,
{
    sync::<RecurStack<V>>();
}

pub fn general_send_interleave<I: interleave::Params>()
where
    I::Table: Send,
    I::RNG: Send,
{
    send::<Interleave<I>>();
}

pub fn general_sync_interleave<I: interleave::Params>()
where
    I::Table: Sync,
    I::RNG: Sync,
{
    sync::<Interleave<I>>();
}

pub fn general_send_class<R: Send>() {
    send::<Class<R>>();
}

pub fn general_auto_refid<S: Send, Y: Sync, U: Unpin, F: 'static>() {
    send::<RefId<S>>();
    sync::<RefId<Y>>();
    unpin::<RefId<U>>();
    fixed::<RefId<F>>();
}

// ---------------------------------------------------------------- what is implemented

pub fn general_refid_copy<T: Copy>(x: RefId<T>) -> (RefId<T>, RefId<T>) {
    (x, x)
}

pub fn general_refid_clone<T: Clone>(x: &RefId<T>) -> RefId<T> {
    x.clone()
}

pub fn general_refid_id<T: Deref + Clone>() {
    fn id<I: Eq + Hash + Clone>() {}
    fn ord<I: Ord>() {}
    id::<RefId<T>>();
    ord::<RefId<T>>();
}

pub fn general_refid_targets<'a, T: ?Sized>(x: &'a T) -> RefId<&'a T> {
    fn id<I: Eq + Hash + Clone + Copy + Ord>(i: I) -> I {
        i
    }
    id(RefId(x))
}

pub fn general_refid_public<T>(x: T) -> T {
    let RefId(x) = RefId(x);
    x
}

pub fn general_limit_public<T>(x: T) -> T {
    let Limited(x) = Limited(x);
    x
}

pub fn general_errors_public<E>(x: PrecheckError<E>, y: InterleaveError<E>) -> Option<E> {
    match x {
        PrecheckError::LimitReached => Some(y.0),
        PrecheckError::RecurError(e) => Some(e),
    }
}

pub fn general_limit_debug() {
    fn debug<T: Debug>() {}
    debug::<LimitReached>();
    drop(LimitReached);
}

pub fn general_defaults<P: equiv::Params>(e: &mut Equiv<P>) -> &mut P::RecurMode
where
    P::DescendMode: Default,
{
    drop((CallStack::default(), Unlimited::default(), Unlimited));
    &mut e.recur_mode
}

pub fn general_class_clone<R: Clone>(c: Class<R>) -> (Class<R>, Class<R>) {
    (c.clone(), Class::default())
}

pub fn general_counterparts<N: Node>(x: equiv::Counterparts<N>) -> CounterpartsResult<N> {
    let [a, b]: [N; 2] = x;
    let r: Result<[N; 2], N::Cmp> = Ok([a, b]);
    r
}

pub fn general_edges_iterate<N: Node>(e: EdgesIter<N>) -> Option<Result<[N; 2], N::Cmp>> {
    let mut e = e.into_iter().fuse();
    e.by_ref().next()
}

pub fn general_cmp_types() {
    fn cmp<C: Cmp>() {}
    cmp::<bool>();
    cmp::<Ordering>();
}

#[cfg(not(feature = "anticipate"))]
pub fn general_index_types() {
    fn index<C: Step + Default + Ord>() {}
    (index::<u8>(), index::<u16>(), index::<u32>(), index::<u64>(), index::<u128>(), index::<usize>());
    (index::<i8>(), index::<i16>(), index::<i32>(), index::<i64>(), index::<i128>(), index::<isize>());
}

#[cfg(any(feature = "wyrng", feature = "oorandom", all(feature = "fastrand", feature = "std")))]
pub fn general_rng_default() {
    fn rng<R: NumberGenerator + Default>() {}
    rng::<random::default::RandomNumberGenerator>();
}

