//! Compiled (never run) with every combination of the features of `graph_safe_compare`: is everything that each of them
//! promises there, and public?
#![no_std]

pub use graph_safe_compare::{
    basic::{
        equiv as basic_equiv, limited_equiv as basic_limited_equiv,
        modes::{limited::{LimitReached, Limited}, unlimited::Unlimited},
        recursion::callstack::CallStack,
    },
    cycle_safe::modes::interleave::{random::NumberGenerator, Interleave, Params as InterleaveParams},
    generic::{
        equiv::{Counterparts, CounterpartsResult, DescendMode, EdgesIter, Equiv, Params as EquivParams, RecurMode},
        equiv_classes::{Class, Rc, Table},
        precheck_interleave::{equiv as precheck_interleave_equiv, InterleaveError, Params as PrecheckParams, PrecheckError},
    },
    utils::RefId,
    Cmp, Node,
};

#[cfg(not(feature = "anticipate"))]
pub use graph_safe_compare::Step;

#[cfg(any(feature = "alloc", feature = "std"))]
pub use graph_safe_compare::{
    deep_safe::{
        equiv as deep_safe_equiv, limited_equiv as deep_safe_limited_equiv,
        recursion::queue::{Params as QueueParams, RecurQueue},
    },
    generic::equiv_classes::premade::rc::Rc as PremadeRc,
    wide_safe::{
        equiv as wide_safe_equiv, limited_equiv as wide_safe_limited_equiv,
        recursion::stack::{Params as StackParams, RecurStack},
    },
};

#[cfg(feature = "std")]
pub use graph_safe_compare::generic::equiv_classes::premade::hash_map::{Params as HashMapParams, Table as PremadeTable};

#[cfg(feature = "wyrng")]
pub use graph_safe_compare::cycle_safe::modes::interleave::random::wyrng::RandomNumberGenerator as Wyrng;

#[cfg(feature = "oorandom")]
pub use graph_safe_compare::cycle_safe::modes::interleave::random::oorandom::RandomNumberGenerator as Oorandom;

#[cfg(all(feature = "fastrand", feature = "std"))]
pub use graph_safe_compare::cycle_safe::modes::interleave::random::fastrand::RandomNumberGenerator as Fastrand;

#[cfg(any(feature = "wyrng", feature = "oorandom", all(feature = "fastrand", feature = "std")))]
pub use graph_safe_compare::cycle_safe::modes::interleave::random::default::RandomNumberGenerator as DefaultRng;

#[cfg(all(feature = "std", any(feature = "wyrng", feature = "oorandom", feature = "fastrand")))]
pub use graph_safe_compare::{
    cycle_safe::{equiv as cycle_safe_equiv, precheck_equiv as cycle_safe_precheck_equiv},
    robust::{equiv as robust_equiv, precheck_equiv as robust_precheck_equiv},
};
