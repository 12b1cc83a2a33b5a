//! Most-general clients of the public API of `graph_safe_compare`.
//!
//! Never run.  Each `root_*` function is an entry point for the static analysis: its parameters
//! (nodes, modes, tables, error types, ...) are left abstract, so what is shown for the root is
//! shown for every implementation of the public traits.
#![cfg_attr(feature = "anticipate", feature(never_type))]
#![allow(clippy::all, unstable_name_collisions, single_use_lifetimes)]

pub mod general;
pub mod shims;

use core::{
    cell::Cell,
    cmp::Ordering,
    hash::{Hash, Hasher},
    marker::PhantomData,
    num::NonZeroU16,
    ops::Deref,
};
use graph_safe_compare::{
    basic::{
        self,
        modes::{
            limited::{LimitReached, Limited},
            unlimited::Unlimited,
        },
        recursion::callstack::CallStack,
    },
    cycle_safe::{
        self,
        modes::interleave::{
            self,
            random::{self, NumberGenerator},
            Interleave,
        },
    },
    generic::{
        equiv::{self, CounterpartsResult, DescendMode, EdgesIter, Equiv, RecurMode},
        equiv_classes::{self, Class, Table},
        precheck_interleave::{self, InterleaveError, PrecheckError},
    },
    utils::RefId,
    Cmp, Node,
};
#[cfg(feature = "alloc")]
use graph_safe_compare::{
    deep_safe::{
        self,
        recursion::queue::{self, RecurQueue},
    },
    generic::equiv_classes::premade::rc,
    wide_safe::{
        self,
        recursion::stack::{self, RecurStack},
    },
};
#[cfg(feature = "std")]
use graph_safe_compare::generic::equiv_classes::premade::hash_map;
#[cfg(all(feature = "std", any(feature = "wyrng", feature = "oorandom", feature = "fastrand")))]
use graph_safe_compare::robust;
#[cfg(not(feature = "anticipate"))]
use {core::convert::Infallible, graph_safe_compare::Step};
/// What the crate uses with its feature `anticipate`.
#[cfg(feature = "anticipate")]
pub type Infallible = !;

type NodeOf<P> = <P as equiv::Params>::Node;
type CmpOf<P> = <<P as equiv::Params>::Node as Node>::Cmp;
type IdOf<P> = <<P as equiv::Params>::Node as Node>::Id;
type ErrOf<P> = <P as equiv::Params>::Error;

// ---------------------------------------------------------------- core algorithm

pub fn root_equiv_main<P: equiv::Params>(
    it: &mut Equiv<P>,
    a: P::Node,
    b: P::Node,
) -> Result<CmpOf<P>, P::Error> {
    it.equiv_main(a, b)
}

pub fn root_equiv_loop<P: equiv::Params>(
    it: &mut Equiv<P>,
    a: P::Node,
    b: P::Node,
) -> Result<CmpOf<P>, P::Error> {
    it.equiv(a, b)
}

pub fn root_equiv_new<P: equiv::Params>(d: P::DescendMode) -> Equiv<P> {
    Equiv::<P>::new(d)
}

pub fn root_equiv_default<P: equiv::Params>() -> Equiv<P>
where
    P::DescendMode: Default,
{
    Equiv::<P>::default()
}

pub fn root_equiv_from<PF: equiv::Params, PT: equiv::Params>(e: Equiv<PF>) -> Equiv<PT>
where
    PF::RecurMode: Into<PT::RecurMode>,
    PT::DescendMode: Default,
{
    Equiv::<PT>::from(e)
}

pub fn root_equiv_into<PF: equiv::Params, PT: equiv::Params>(e: Equiv<PF>) -> Equiv<PT>
where
    PF::RecurMode: Into<PT::RecurMode>,
    PT::DescendMode: Default,
{
    e.into()
}

// ---------------------------------------------------------------- edges

/// What a probe tells about the edges it is given.
pub trait Observer {
    fn yielded<T>(x: T);
    fn ended();
    fn more() -> bool;
}

/// A recursion mode that takes edges, for as long as it likes, until none is left.
pub struct Drain<O>(PhantomData<O>);
impl<O> Default for Drain<O> {
    fn default() -> Self {
        Drain(PhantomData)
    }
}
pub fn general_drain() {
    impl<O: Observer, P: equiv::Params<RecurMode = Self>> RecurMode<P> for Drain<O> {
        type Error = P::Error;

        fn recur(
            _it: &mut Equiv<P>,
            mut edges_iter: EdgesIter<P::Node>,
        ) -> Result<CmpOf<P>, Self::Error> {
            while O::more() {
                match edges_iter.next() {
                    Some(x) => O::yielded(x),
                    None => {
                        O::ended();
                        break;
                    },
                }
            }
            Ok(Cmp::new_equiv())
        }

        fn next(&mut self) -> Option<CounterpartsResult<P::Node>> {
            None
        }

        fn reset(self) -> Self {
            self
        }
    }
}

pub fn root_edges_drain<O: Observer, P: equiv::Params<RecurMode = Drain<O>>>(
    it: &mut Equiv<P>,
    a: P::Node,
    b: P::Node,
) -> Result<CmpOf<P>, P::Error> {
    it.equiv_main(a, b)
}

pub fn root_edges_next<N: Node>(e: &mut EdgesIter<N>) -> Option<CounterpartsResult<N>> {
    e.next()
}

// ---------------------------------------------------------------- recursion modes

pub fn root_callstack_main<P: equiv::Params<RecurMode = CallStack>>(
    it: &mut Equiv<P>,
    a: P::Node,
    b: P::Node,
) -> Result<CmpOf<P>, P::Error> {
    it.equiv_main(a, b)
}
pub fn root_callstack_recur<P: equiv::Params<RecurMode = CallStack>>(
    it: &mut Equiv<P>,
    e: EdgesIter<P::Node>,
) -> Result<CmpOf<P>, P::Error> {
    <CallStack as RecurMode<P>>::recur(it, e)
}
pub fn root_callstack_next<P: equiv::Params<RecurMode = CallStack>>(
    m: &mut CallStack,
) -> Option<CounterpartsResult<P::Node>> {
    <CallStack as RecurMode<P>>::next(m)
}
pub fn root_callstack_reset<P: equiv::Params<RecurMode = CallStack>>(m: CallStack) -> CallStack {
    <CallStack as RecurMode<P>>::reset(m)
}

#[cfg(feature = "alloc")]
pub fn root_queue_recur<P, V>(
    it: &mut Equiv<P>,
    e: EdgesIter<P::Node>,
) -> Result<CmpOf<P>, Infallible>
where
    P: equiv::Params<RecurMode = RecurQueue<V>>,
    V: queue::Params<Node = P::Node>,
    Infallible: Into<P::Error>,
{
    <RecurQueue<V> as RecurMode<P>>::recur(it, e)
}
#[cfg(feature = "alloc")]
pub fn root_queue_next<P, V>(m: &mut RecurQueue<V>) -> Option<CounterpartsResult<P::Node>>
where
    P: equiv::Params<RecurMode = RecurQueue<V>>,
    V: queue::Params<Node = P::Node>,
    Infallible: Into<P::Error>,
{
    <RecurQueue<V> as RecurMode<P>>::next(m)
}
#[cfg(feature = "alloc")]
pub fn root_queue_reset<P, V>(m: RecurQueue<V>) -> RecurQueue<V>
where
    P: equiv::Params<RecurMode = RecurQueue<V>>,
    V: queue::Params<Node = P::Node>,
    Infallible: Into<P::Error>,
{
    <RecurQueue<V> as RecurMode<P>>::reset(m)
}
#[cfg(feature = "alloc")]
pub fn root_queue_default<V: queue::Params>() -> RecurQueue<V> {
    RecurQueue::default()
}
#[cfg(feature = "alloc")]
pub fn root_queue_from_callstack<V: queue::Params>(c: CallStack) -> RecurQueue<V> {
    RecurQueue::from(c)
}

#[cfg(feature = "alloc")]
pub fn root_stack_recur<P, V>(
    it: &mut Equiv<P>,
    e: EdgesIter<P::Node>,
) -> Result<CmpOf<P>, Infallible>
where
    P: equiv::Params<RecurMode = RecurStack<V>>,
    V: stack::Params<Node = P::Node>,
    Infallible: Into<P::Error>,
{
    <RecurStack<V> as RecurMode<P>>::recur(it, e)
}
#[cfg(feature = "alloc")]
pub fn root_stack_next<P, V>(m: &mut RecurStack<V>) -> Option<CounterpartsResult<P::Node>>
where
    P: equiv::Params<RecurMode = RecurStack<V>>,
    V: stack::Params<Node = P::Node>,
    Infallible: Into<P::Error>,
{
    <RecurStack<V> as RecurMode<P>>::next(m)
}
#[cfg(feature = "alloc")]
pub fn root_stack_reset<P, V>(m: RecurStack<V>) -> RecurStack<V>
where
    P: equiv::Params<RecurMode = RecurStack<V>>,
    V: stack::Params<Node = P::Node>,
    Infallible: Into<P::Error>,
{
    <RecurStack<V> as RecurMode<P>>::reset(m)
}
#[cfg(feature = "alloc")]
pub fn root_stack_default<V: stack::Params>() -> RecurStack<V> {
    RecurStack::default()
}
#[cfg(feature = "alloc")]
pub fn root_stack_from_callstack<V: stack::Params>(c: CallStack) -> RecurStack<V> {
    RecurStack::from(c)
}

// ---------------------------------------------------------------- descend modes

pub fn root_unlimited_do_edges<P: equiv::Params<DescendMode = Unlimited>>(
    d: &mut Unlimited,
    a: &P::Node,
    b: &P::Node,
) -> Result<bool, Infallible>
where
    Infallible: Into<P::Error>,
{
    <Unlimited as DescendMode<P>>::do_edges(d, a, b)
}
pub fn root_unlimited_do_traverse<P: equiv::Params<DescendMode = Unlimited>>(
    d: &mut Unlimited,
) -> Result<bool, Infallible>
where
    Infallible: Into<P::Error>,
{
    <Unlimited as DescendMode<P>>::do_traverse(d)
}

pub fn root_limited_do_edges_u8<P: equiv::Params<DescendMode = Limited<u8>>>(
    d: &mut Limited<u8>,
    a: &P::Node,
    b: &P::Node,
) -> Result<bool, LimitReached>
where
    LimitReached: Into<P::Error>,
{
    <Limited<u8> as DescendMode<P>>::do_edges(d, a, b)
}
pub fn root_limited_do_traverse_u8<P: equiv::Params<DescendMode = Limited<u8>>>(
    d: &mut Limited<u8>,
) -> Result<bool, LimitReached>
where
    LimitReached: Into<P::Error>,
{
    <Limited<u8> as DescendMode<P>>::do_traverse(d)
}
pub fn root_basic_limited_u8<N: Node>(limit: u8, a: N, b: N) -> Result<N::Cmp, LimitReached> {
    basic::limited_equiv(limit, a, b)
}
#[cfg(feature = "alloc")]
pub fn root_deep_safe_limited_u8<N: Node>(limit: u8, a: N, b: N) -> Result<N::Cmp, LimitReached> {
    deep_safe::limited_equiv(limit, a, b)
}
#[cfg(feature = "alloc")]
pub fn root_wide_safe_limited_u8<N: Node>(limit: u8, a: N, b: N) -> Result<N::Cmp, LimitReached> {
    wide_safe::limited_equiv(limit, a, b)
}
pub fn root_limited_do_edges_u16<P: equiv::Params<DescendMode = Limited<u16>>>(
    d: &mut Limited<u16>,
    a: &P::Node,
    b: &P::Node,
) -> Result<bool, LimitReached>
where
    LimitReached: Into<P::Error>,
{
    <Limited<u16> as DescendMode<P>>::do_edges(d, a, b)
}
pub fn root_limited_do_traverse_u16<P: equiv::Params<DescendMode = Limited<u16>>>(
    d: &mut Limited<u16>,
) -> Result<bool, LimitReached>
where
    LimitReached: Into<P::Error>,
{
    <Limited<u16> as DescendMode<P>>::do_traverse(d)
}
pub fn root_basic_limited_u16<N: Node>(limit: u16, a: N, b: N) -> Result<N::Cmp, LimitReached> {
    basic::limited_equiv(limit, a, b)
}
#[cfg(feature = "alloc")]
pub fn root_deep_safe_limited_u16<N: Node>(limit: u16, a: N, b: N) -> Result<N::Cmp, LimitReached> {
    deep_safe::limited_equiv(limit, a, b)
}
#[cfg(feature = "alloc")]
pub fn root_wide_safe_limited_u16<N: Node>(limit: u16, a: N, b: N) -> Result<N::Cmp, LimitReached> {
    wide_safe::limited_equiv(limit, a, b)
}
pub fn root_limited_do_edges_u32<P: equiv::Params<DescendMode = Limited<u32>>>(
    d: &mut Limited<u32>,
    a: &P::Node,
    b: &P::Node,
) -> Result<bool, LimitReached>
where
    LimitReached: Into<P::Error>,
{
    <Limited<u32> as DescendMode<P>>::do_edges(d, a, b)
}
pub fn root_limited_do_traverse_u32<P: equiv::Params<DescendMode = Limited<u32>>>(
    d: &mut Limited<u32>,
) -> Result<bool, LimitReached>
where
    LimitReached: Into<P::Error>,
{
    <Limited<u32> as DescendMode<P>>::do_traverse(d)
}
pub fn root_basic_limited_u32<N: Node>(limit: u32, a: N, b: N) -> Result<N::Cmp, LimitReached> {
    basic::limited_equiv(limit, a, b)
}
#[cfg(feature = "alloc")]
pub fn root_deep_safe_limited_u32<N: Node>(limit: u32, a: N, b: N) -> Result<N::Cmp, LimitReached> {
    deep_safe::limited_equiv(limit, a, b)
}
#[cfg(feature = "alloc")]
pub fn root_wide_safe_limited_u32<N: Node>(limit: u32, a: N, b: N) -> Result<N::Cmp, LimitReached> {
    wide_safe::limited_equiv(limit, a, b)
}
pub fn root_limited_do_edges_u64<P: equiv::Params<DescendMode = Limited<u64>>>(
    d: &mut Limited<u64>,
    a: &P::Node,
    b: &P::Node,
) -> Result<bool, LimitReached>
where
    LimitReached: Into<P::Error>,
{
    <Limited<u64> as DescendMode<P>>::do_edges(d, a, b)
}
pub fn root_limited_do_traverse_u64<P: equiv::Params<DescendMode = Limited<u64>>>(
    d: &mut Limited<u64>,
) -> Result<bool, LimitReached>
where
    LimitReached: Into<P::Error>,
{
    <Limited<u64> as DescendMode<P>>::do_traverse(d)
}
pub fn root_basic_limited_u64<N: Node>(limit: u64, a: N, b: N) -> Result<N::Cmp, LimitReached> {
    basic::limited_equiv(limit, a, b)
}
#[cfg(feature = "alloc")]
pub fn root_deep_safe_limited_u64<N: Node>(limit: u64, a: N, b: N) -> Result<N::Cmp, LimitReached> {
    deep_safe::limited_equiv(limit, a, b)
}
#[cfg(feature = "alloc")]
pub fn root_wide_safe_limited_u64<N: Node>(limit: u64, a: N, b: N) -> Result<N::Cmp, LimitReached> {
    wide_safe::limited_equiv(limit, a, b)
}
pub fn root_limited_do_edges_u128<P: equiv::Params<DescendMode = Limited<u128>>>(
    d: &mut Limited<u128>,
    a: &P::Node,
    b: &P::Node,
) -> Result<bool, LimitReached>
where
    LimitReached: Into<P::Error>,
{
    <Limited<u128> as DescendMode<P>>::do_edges(d, a, b)
}
pub fn root_limited_do_traverse_u128<P: equiv::Params<DescendMode = Limited<u128>>>(
    d: &mut Limited<u128>,
) -> Result<bool, LimitReached>
where
    LimitReached: Into<P::Error>,
{
    <Limited<u128> as DescendMode<P>>::do_traverse(d)
}
pub fn root_basic_limited_u128<N: Node>(limit: u128, a: N, b: N) -> Result<N::Cmp, LimitReached> {
    basic::limited_equiv(limit, a, b)
}
#[cfg(feature = "alloc")]
pub fn root_deep_safe_limited_u128<N: Node>(limit: u128, a: N, b: N) -> Result<N::Cmp, LimitReached> {
    deep_safe::limited_equiv(limit, a, b)
}
#[cfg(feature = "alloc")]
pub fn root_wide_safe_limited_u128<N: Node>(limit: u128, a: N, b: N) -> Result<N::Cmp, LimitReached> {
    wide_safe::limited_equiv(limit, a, b)
}
pub fn root_limited_do_edges_usize<P: equiv::Params<DescendMode = Limited<usize>>>(
    d: &mut Limited<usize>,
    a: &P::Node,
    b: &P::Node,
) -> Result<bool, LimitReached>
where
    LimitReached: Into<P::Error>,
{
    <Limited<usize> as DescendMode<P>>::do_edges(d, a, b)
}
pub fn root_limited_do_traverse_usize<P: equiv::Params<DescendMode = Limited<usize>>>(
    d: &mut Limited<usize>,
) -> Result<bool, LimitReached>
where
    LimitReached: Into<P::Error>,
{
    <Limited<usize> as DescendMode<P>>::do_traverse(d)
}
pub fn root_basic_limited_usize<N: Node>(limit: usize, a: N, b: N) -> Result<N::Cmp, LimitReached> {
    basic::limited_equiv(limit, a, b)
}
#[cfg(feature = "alloc")]
pub fn root_deep_safe_limited_usize<N: Node>(limit: usize, a: N, b: N) -> Result<N::Cmp, LimitReached> {
    deep_safe::limited_equiv(limit, a, b)
}
#[cfg(feature = "alloc")]
pub fn root_wide_safe_limited_usize<N: Node>(limit: usize, a: N, b: N) -> Result<N::Cmp, LimitReached> {
    wide_safe::limited_equiv(limit, a, b)
}

pub fn root_interleave_do_edges<E, I>(
    d: &mut Interleave<I>,
    a: &E::Node,
    b: &E::Node,
) -> Result<bool, Infallible>
where
    E: equiv::Params<DescendMode = Interleave<I>>,
    I: interleave::Params<Node = E::Node>,
    Infallible: Into<E::Error>,
{
    <Interleave<I> as DescendMode<E>>::do_edges(d, a, b)
}
pub fn root_interleave_do_traverse<E, I>(d: &mut Interleave<I>) -> Result<bool, Infallible>
where
    E: equiv::Params<DescendMode = Interleave<I>>,
    I: interleave::Params<Node = E::Node>,
    Infallible: Into<E::Error>,
{
    <Interleave<I> as DescendMode<E>>::do_traverse(d)
}
pub fn root_interleave_default<I: interleave::Params>() -> Interleave<I> {
    Interleave::default()
}

// ---------------------------------------------------------------- constants

/// `interleave::Params` that redefines only `PRECHECK_LIMIT`.
pub struct OnlyLimit<N, T, R, const K: u16>(PhantomData<(N, T, R)>);
pub fn general_only_limit() {
    impl<N: Node, T: Table<Node = N>, R: NumberGenerator, const K: u16> interleave::Params
        for OnlyLimit<N, T, R, K>
    {
        const PRECHECK_LIMIT: u16 = K;
        type Node = N;
        type RNG = R;
        type Table = T;
    }
}
/// `interleave::Params` that redefines none.
pub struct NoLimit<N, T, R>(PhantomData<(N, T, R)>);
pub fn general_no_limit() {
    impl<N: Node, T: Table<Node = N>, R: NumberGenerator> interleave::Params for NoLimit<N, T, R> {
        type Node = N;
        type RNG = R;
        type Table = T;
    }
}

pub fn root_const_only_limit<N: Node, T: Table<Node = N>, R: NumberGenerator, const K: u16>(
) -> (u16, u16, u16) {
    (
        <OnlyLimit<N, T, R, K> as interleave::Params>::PRECHECK_LIMIT,
        <OnlyLimit<N, T, R, K> as interleave::Params>::FAST_LIMIT_MAX,
        <OnlyLimit<N, T, R, K> as interleave::Params>::SLOW_LIMIT,
    )
}
pub fn root_const_no_limit<N: Node, T: Table<Node = N>, R: NumberGenerator>() -> (u16, u16, u16) {
    (
        <NoLimit<N, T, R> as interleave::Params>::PRECHECK_LIMIT,
        <NoLimit<N, T, R> as interleave::Params>::FAST_LIMIT_MAX,
        <NoLimit<N, T, R> as interleave::Params>::SLOW_LIMIT,
    )
}
pub fn root_const_interleave<I: interleave::Params>() -> (NonZeroU16, i32) {
    (Interleave::<I>::FAST_LIMIT_MAX_RANGE_END, Interleave::<I>::SLOW_LIMIT_NEG)
}

// ---------------------------------------------------------------- precheck

pub fn root_precheck_interleave<N: Node + Clone, P: precheck_interleave::Params<N>>(
    a: N,
    b: N,
) -> Result<N::Cmp, P::Error> {
    precheck_interleave::equiv::<N, P>(a, b)
}
pub fn root_precheck_error_from_limit<E>(e: LimitReached) -> PrecheckError<E> {
    PrecheckError::from(e)
}
pub fn root_precheck_error_from_infallible<E>(e: Infallible) -> PrecheckError<E> {
    PrecheckError::from(e)
}
pub fn root_interleave_error_from_infallible<E>(e: Infallible) -> InterleaveError<E> {
    InterleaveError::from(e)
}
pub fn root_limit_reached_from_infallible(e: Infallible) -> LimitReached {
    LimitReached::from(e)
}

// ---------------------------------------------------------------- premade functions

pub fn root_basic_equiv<N: Node>(a: N, b: N) -> N::Cmp {
    basic::equiv(a, b)
}
#[cfg(feature = "alloc")]
pub fn root_deep_safe_equiv<N: Node>(a: N, b: N) -> N::Cmp {
    deep_safe::equiv(a, b)
}
#[cfg(feature = "alloc")]
pub fn root_wide_safe_equiv<N: Node>(a: N, b: N) -> N::Cmp {
    wide_safe::equiv(a, b)
}
#[cfg(all(feature = "std", any(feature = "wyrng", feature = "oorandom", feature = "fastrand")))]
pub fn root_cycle_safe_equiv<N: Node>(a: N, b: N) -> N::Cmp {
    cycle_safe::equiv(a, b)
}
#[cfg(all(feature = "std", any(feature = "wyrng", feature = "oorandom", feature = "fastrand")))]
pub fn root_cycle_safe_precheck_equiv<N: Node + Clone>(a: N, b: N) -> N::Cmp {
    cycle_safe::precheck_equiv(a, b)
}
#[cfg(all(feature = "std", any(feature = "wyrng", feature = "oorandom", feature = "fastrand")))]
pub fn root_robust_equiv<N: Node>(a: N, b: N) -> N::Cmp {
    robust::equiv(a, b)
}
#[cfg(all(feature = "std", any(feature = "wyrng", feature = "oorandom", feature = "fastrand")))]
pub fn root_robust_precheck_equiv<N: Node + Clone>(a: N, b: N) -> N::Cmp {
    robust::precheck_equiv(a, b)
}

// ---------------------------------------------------------------- premade parts

#[cfg(feature = "std")]
pub fn root_hash_map_get<'t, P: hash_map::Params>(
    t: &'t hash_map::Table<P>,
    k: &<P::Node as Node>::Id,
) -> Option<&'t rc::Rc> {
    Table::get(t, k)
}
#[cfg(feature = "std")]
pub fn root_hash_map_insert<P: hash_map::Params>(
    t: &mut hash_map::Table<P>,
    k: <P::Node as Node>::Id,
    v: rc::Rc,
) {
    Table::insert(t, k, v)
}
#[cfg(feature = "std")]
pub fn root_hash_map_default<P: hash_map::Params>() -> hash_map::Table<P> {
    Default::default()
}
/// How much room is there at first?
#[cfg(feature = "alloc")]
pub fn root_room_queue_default<V: queue::Params>() -> RecurQueue<V> {
    RecurQueue::default()
}
#[cfg(feature = "alloc")]
pub fn root_room_queue_from<V: queue::Params>(c: CallStack) -> RecurQueue<V> {
    RecurQueue::from(c)
}
#[cfg(feature = "alloc")]
pub fn root_room_stack_default<V: stack::Params>() -> RecurStack<V> {
    RecurStack::default()
}
#[cfg(feature = "alloc")]
pub fn root_room_stack_from<V: stack::Params>(c: CallStack) -> RecurStack<V> {
    RecurStack::from(c)
}
#[cfg(feature = "std")]
pub fn root_room_table<P: hash_map::Params>() -> hash_map::Table<P> {
    Default::default()
}
#[cfg(feature = "alloc")]
pub fn root_rc_new(v: Cell<Class<rc::Rc>>) -> rc::Rc {
    <rc::Rc as equiv_classes::Rc>::new(v)
}
#[cfg(feature = "alloc")]
pub fn root_rc_clone(v: &rc::Rc) -> rc::Rc {
    Clone::clone(v)
}
#[cfg(feature = "alloc")]
pub fn root_rc_deref(v: &rc::Rc) -> &Cell<Class<rc::Rc>> {
    Deref::deref(v)
}
pub fn root_class_default<R>() -> Class<R> {
    Class::default()
}
pub fn root_class_clone<R: Clone>(c: &Class<R>) -> Class<R> {
    Clone::clone(c)
}

#[cfg(feature = "wyrng")]
pub fn root_rng_wyrng(r: &mut random::wyrng::RandomNumberGenerator, end: NonZeroU16) -> u16 {
    r.rand_upto(end)
}
#[cfg(feature = "oorandom")]
pub fn root_rng_oorandom(r: &mut random::oorandom::RandomNumberGenerator, end: NonZeroU16) -> u16 {
    r.rand_upto(end)
}
#[cfg(all(feature = "fastrand", feature = "std"))]
pub fn root_rng_fastrand(r: &mut random::fastrand::RandomNumberGenerator, end: NonZeroU16) -> u16 {
    r.rand_upto(end)
}
#[cfg(feature = "wyrng")]
pub fn root_rng_default_wyrng() -> random::wyrng::RandomNumberGenerator {
    Default::default()
}
#[cfg(feature = "oorandom")]
pub fn root_rng_default_oorandom() -> random::oorandom::RandomNumberGenerator {
    Default::default()
}
#[cfg(all(feature = "fastrand", feature = "std"))]
pub fn root_rng_default_fastrand() -> random::fastrand::RandomNumberGenerator {
    Default::default()
}

// ---------------------------------------------------------------- RefId

pub fn root_refid_eq<T: Deref>(a: &RefId<T>, b: &RefId<T>) -> bool {
    PartialEq::eq(a, b)
}
pub fn root_refid_ne<T: Deref>(a: &RefId<T>, b: &RefId<T>) -> bool {
    PartialEq::ne(a, b)
}
pub fn root_refid_lt<T: Deref>(a: &RefId<T>, b: &RefId<T>) -> bool {
    PartialOrd::lt(a, b)
}
pub fn root_refid_le<T: Deref>(a: &RefId<T>, b: &RefId<T>) -> bool {
    PartialOrd::le(a, b)
}
pub fn root_refid_gt<T: Deref>(a: &RefId<T>, b: &RefId<T>) -> bool {
    PartialOrd::gt(a, b)
}
pub fn root_refid_ge<T: Deref>(a: &RefId<T>, b: &RefId<T>) -> bool {
    PartialOrd::ge(a, b)
}
pub fn root_refid_partial_cmp<T: Deref>(a: &RefId<T>, b: &RefId<T>) -> Option<Ordering> {
    PartialOrd::partial_cmp(a, b)
}
pub fn root_refid_cmp<T: Deref>(a: &RefId<T>, b: &RefId<T>) -> Ordering {
    Ord::cmp(a, b)
}
pub fn root_refid_max<T: Deref>(a: RefId<T>, b: RefId<T>) -> RefId<T> {
    Ord::max(a, b)
}
pub fn root_refid_min<T: Deref>(a: RefId<T>, b: RefId<T>) -> RefId<T> {
    Ord::min(a, b)
}
pub fn root_refid_hash<T: Deref, H: Hasher>(a: &RefId<T>, h: &mut H) {
    Hash::hash(a, h)
}
pub fn root_refid_clone<T: Deref + Clone>(a: &RefId<T>) -> RefId<T> {
    Clone::clone(a)
}

// ---------------------------------------------------------------- Cmp

pub fn root_cmp_bool_new_equiv() -> bool {
    <bool as Cmp>::new_equiv()
}
pub fn root_cmp_bool_is_equiv(c: &bool) -> bool {
    Cmp::is_equiv(c)
}
pub fn root_cmp_bool_from_ord(o: Ordering) -> bool {
    Cmp::from_ord(o)
}
pub fn root_cmp_ordering_new_equiv() -> Ordering {
    <Ordering as Cmp>::new_equiv()
}
pub fn root_cmp_ordering_is_equiv(c: &Ordering) -> bool {
    Cmp::is_equiv(c)
}
pub fn root_cmp_ordering_from_ord(o: Ordering) -> Ordering {
    Cmp::from_ord(o)
}

// ---------------------------------------------------------------- Step

#[cfg(not(feature = "anticipate"))]
pub fn root_step_u8(i: &u8) -> Option<u8> {
    Step::increment(i)
}
#[cfg(not(feature = "anticipate"))]
pub fn root_step_i8(i: &i8) -> Option<i8> {
    Step::increment(i)
}
#[cfg(not(feature = "anticipate"))]
pub fn root_step_u16(i: &u16) -> Option<u16> {
    Step::increment(i)
}
#[cfg(not(feature = "anticipate"))]
pub fn root_step_i16(i: &i16) -> Option<i16> {
    Step::increment(i)
}
#[cfg(not(feature = "anticipate"))]
pub fn root_step_u32(i: &u32) -> Option<u32> {
    Step::increment(i)
}
#[cfg(not(feature = "anticipate"))]
pub fn root_step_i32(i: &i32) -> Option<i32> {
    Step::increment(i)
}
#[cfg(not(feature = "anticipate"))]
pub fn root_step_u64(i: &u64) -> Option<u64> {
    Step::increment(i)
}
#[cfg(not(feature = "anticipate"))]
pub fn root_step_i64(i: &i64) -> Option<i64> {
    Step::increment(i)
}
#[cfg(not(feature = "anticipate"))]
pub fn root_step_u128(i: &u128) -> Option<u128> {
    Step::increment(i)
}
#[cfg(not(feature = "anticipate"))]
pub fn root_step_i128(i: &i128) -> Option<i128> {
    Step::increment(i)
}
#[cfg(not(feature = "anticipate"))]
pub fn root_step_usize(i: &usize) -> Option<usize> {
    Step::increment(i)
}
#[cfg(not(feature = "anticipate"))]
pub fn root_step_isize(i: &isize) -> Option<isize> {
    Step::increment(i)
}
