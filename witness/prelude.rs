#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
use core::{cell::Cell, convert::Infallible, marker::PhantomData, cmp::Ordering};
use graph_safe_compare::{
    basic::{self, modes::{limited::{LimitReached, Limited}, unlimited::Unlimited}, recursion::callstack::CallStack},
    cycle_safe::modes::interleave::{self, random, Interleave},
    deep_safe::{self, recursion::queue::{self, RecurQueue}},
    generic::{
        equiv::{self, CounterpartsResult, Counterparts, DescendMode, EdgesIter, Equiv, RecurMode},
        equiv_classes::{self, premade::{hash_map, rc}, Class, Table},
        precheck_interleave::{self, InterleaveError, PrecheckError},
    },
    robust,
    utils::RefId,
    wide_safe::{self, recursion::stack::{self, RecurStack}},
    Cmp, Node, Step,
};

macro_rules! node {
    ($n:ident, $id:ty, $idx:ty, $cmp:ty, $eq:expr) => {
        #[derive(Clone)]
        pub struct $n(u8);
        impl Node for $n {
            type Cmp = $cmp;
            type Id = $id;
            type Index = $idx;
            fn id(&self) -> Self::Id { Default::default() }
            fn get_edge(&self, _: &Self::Index) -> Option<Self> { None }
            fn equiv_modulo_edges(&self, _: &Self) -> Self::Cmp { $eq }
        }
    };
}
node!(N1, u8, u32, bool, true);
node!(N2, u8, u32, bool, true);
pub struct Own;
fn main() {}
