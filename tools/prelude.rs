#![allow(dead_code, unused_imports, unused_macros)]
// What the demonstrations share: graphs whose nodes record what is asked of them, and modes.
use graph_safe_compare as gsc;
use gsc::{
    basic::{modes::{limited::{LimitReached, Limited}, unlimited::Unlimited}, recursion::callstack::CallStack},
    cycle_safe::modes::interleave::{self, random::NumberGenerator, Interleave},
    generic::{equiv::{self, CounterpartsResult, DescendMode, EdgesIter, Equiv, RecurMode}, equiv_classes::premade::hash_map},
    Cmp, Node, Step,
};
#[cfg(feature = "alloc")]
use gsc::{deep_safe::recursion::queue::{self, RecurQueue}, wide_safe::recursion::stack::{self, RecurStack}};
use std::{
    cell::{Cell, RefCell},
    cmp::Ordering,
    convert::Infallible,
    marker::PhantomData,
    num::NonZeroU16,
    rc::Rc,
};

#[derive(Default)]
pub struct G {
    nodes: RefCell<Vec<(i64, Vec<usize>)>>,
    log: RefCell<Vec<(char, usize, usize)>>,
    logging: Cell<bool>,
    fetches: Cell<usize>,
    compares: Cell<usize>,
}

impl G {
    fn new() -> Self { Self::default() }
    fn node(&self, v: i64, e: &[usize]) -> usize {
        self.nodes.borrow_mut().push((v, e.to_vec()));
        self.nodes.borrow().len() - 1
    }
    fn link(&self, from: usize, to: usize) { self.nodes.borrow_mut()[from].1.push(to) }
    fn n(&self, i: usize) -> N<'_> { N(self, i) }
    fn logged<R>(&self, f: impl FnOnce() -> R) -> (R, Vec<(char, usize, usize)>) {
        self.logging.set(true);
        let r = f();
        self.logging.set(false);
        (r, self.log.replace(Vec::new()))
    }
}

#[derive(Clone, Copy)]
pub struct N<'g>(&'g G, usize);

impl<'g> Node for N<'g> {
    type Cmp = Ordering;
    type Id = usize;
    type Index = u32;
    fn id(&self) -> usize { self.1 }
    fn get_edge(&self, i: &u32) -> Option<Self> {
        self.0.fetches.set(self.0.fetches.get() + 1);
        if self.0.logging.get() { self.0.log.borrow_mut().push(('g', self.1, *i as usize)) }
        self.0.nodes.borrow()[self.1].1.get(*i as usize).map(|&n| N(self.0, n))
    }
    fn equiv_modulo_edges(&self, other: &Self) -> Ordering {
        self.0.compares.set(self.0.compares.get() + 1);
        if self.0.logging.get() { self.0.log.borrow_mut().push(('e', self.1, other.1)) }
        let n = self.0.nodes.borrow();
        n[self.1].0.cmp(&n[other.1].0)
    }
}

macro_rules! args {
    ($name:ident, $d:ty, $r:ty, $e:ty) => {
        struct $name<'g>(PhantomData<&'g ()>);
        impl<'g> equiv::Params for $name<'g> {
            type Node = N<'g>;
            type DescendMode = $d;
            type RecurMode = $r;
            type Error = $e;
        }
        impl<'g> queue::Params for $name<'g> { type Node = N<'g>; }
        impl<'g> stack::Params for $name<'g> { type Node = N<'g>; }
    };
}

// Gives the greatest number allowed, and records the ends asked for.
#[derive(Default)]
struct MaxRng;
thread_local! { static ENDS: RefCell<Vec<u16>> = RefCell::new(Vec::new()); }
impl NumberGenerator for MaxRng {
    fn rand_upto(&mut self, end: NonZeroU16) -> u16 {
        ENDS.with(|e| e.borrow_mut().push(end.get()));
        end.get() - 1
    }
}

struct Inter<'g, const PL: u16, const FM: u16, const SL: u16>(PhantomData<&'g ()>);
impl<'g, const PL: u16, const FM: u16, const SL: u16> interleave::Params for Inter<'g, PL, FM, SL> {
    const PRECHECK_LIMIT: u16 = PL;
    const FAST_LIMIT_MAX: u16 = FM;
    const SLOW_LIMIT: u16 = SL;
    type Node = N<'g>;
    type RNG = MaxRng;
    type Table = hash_map::Table<Self>;
}
impl<'g, const PL: u16, const FM: u16, const SL: u16> hash_map::Params for Inter<'g, PL, FM, SL> { type Node = N<'g>; }

