import os, runpy
globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(__file__), 'a.py')).items() if not k.startswith('__') and k not in ('SEEDS', 'seed')})
SEEDS = []

def seed(id, prop, needs, breaks, edits, demo=None, **kw):
    d = dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, **kw)
    if demo is not None:
        d['demo'] = demo
    SEEDS.append(d)

seed('c26_table_from', 'C26', 'A table of classes that is made by hand.',
     'A table can be made from any map of ids to class records, such as one with two ids in one class beforehand.',
     [(EC, '''            impl<P: Params> TableTrait for Table<P>
''', '''            impl<P: Params> From<HashMap<<P::Node as Node>::Id, Rc>> for Table<P>
            {
                /// Use a map that has its capacity already.
                #[inline]
                fn from(map: HashMap<<P::Node as Node>::Id, Rc>) -> Self
                {
                    Self(map)
                }
            }

            impl<P: Params> TableTrait for Table<P>
''')],
     ok='struct P; impl hash_map::Params for P { type Node = N<\'static>; } fn main() { let _ = hash_map::Table::<P>::default(); }',
     bad='struct P; impl hash_map::Params for P { type Node = N<\'static>; } fn main() { let _ = hash_map::Table::<P>::from(std::collections::HashMap::new()); }')
seed('c26_queue_push', 'C26', 'A mode of descent or a caller that adds pairs to the queue of a comparison.',
     'Pairs can be added to the queue from outside.',
     [(DS, '''        impl<P: Params> Default for RecurQueue<P>
''', '''        impl<P: Params> Extend<EdgesIter<P::Node>> for RecurQueue<P>
        {
            /// Schedule more edges.
            #[inline]
            fn extend<I: IntoIterator<Item = EdgesIter<P::Node>>>(
                &mut self,
                iter: I,
            )
            {
                iter.into_iter().for_each(|edges| self.0.extend(edges));
            }
        }

        impl<P: Params> Default for RecurQueue<P>
''')],
     ok='struct P; impl queue::Params for P { type Node = N<\'static>; } fn main() { let _ = RecurQueue::<P>::default(); }',
     bad='struct P; impl queue::Params for P { type Node = N<\'static>; } fn f(mut q: RecurQueue<P>, e: EdgesIter<N<\'static>>) { q.extend([e]) } fn main() {}')
seed('c26_class_link', 'C26', 'A table of the user that makes links between the records itself.',
     'A link between class records can be made from outside.',
     [(EC, '''    /// transitivity.
    #[non_exhaustive]
    Link''', '''    /// transitivity.
    Link''')],
     ok='use gsc::generic::equiv_classes::{Class, premade::rc::Rc as R}; fn main() { let _: Class<R> = Class::default(); }',
     bad='use gsc::generic::equiv_classes::{Class, premade::rc::Rc as R}; fn f(next: R) -> Class<R> { Class::Link { next } } fn main() {}')
seed('c26_phase_restart', 'C26', 'A user who restarts the phases of a comparison that is going on.',
     'The counter of the phases can be altered from outside.',
     [(CS2 if 'CS2' in globals() else CS, '''    impl<P: Params> Default for Interleave<P>
''', '''    impl<P: Params> Interleave<P>
    {
        /// Begin with a fast phase again.
        #[inline]
        pub fn restart(&mut self)
        {
            self.ticker = 0;
        }
    }

    impl<P: Params> Default for Interleave<P>
''')],
     ok='fn main() {}',
     bad='use gsc::cycle_safe::modes::interleave::Params; fn f<P: Params>(i: &mut Interleave<P>) { i.restart() } fn main() {}')
seed('c24_wyrng_hidden', 'C24', 'A build with both the wyrng and the oorandom generators.',
     'The wyrng generator is not there when oorandom is enabled as well.',
     [(RND + 'mod.rs', '    if #[cfg(feature = "wyrng")] {', '    if #[cfg(all(feature = "wyrng", not(feature = "oorandom")))] {'),
      (RND + 'mod.rs', '#[cfg(feature = "wyrng")]\npub mod wyrng;', '#[cfg(all(feature = "wyrng", not(feature = "oorandom")))]\npub mod wyrng;')],
     'use gsc::cycle_safe::modes::interleave::random::wyrng;\nfn main() { let _ = wyrng::RandomNumberGenerator::default(); }', features=['std', 'oorandom', 'wyrng'])
seed('c24_premade_std', 'C24', 'A build with allocation but without the standard library, that uses the premade functions.',
     'The premade functions for deep graphs are not there without the standard library.',
     [(DS, 'pub use premade::*;', '#[cfg(feature = "std")]\npub use premade::*;')],
     cmds='''mkdir -p "$tmp/m/src"
cat > "$tmp/m/Cargo.toml" <<EOF
[package]
name = "m"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
graph_safe_compare = { path = "$repo", default-features = false, features = ["alloc"] }
EOF
cat > "$tmp/m/src/lib.rs" <<EOF
#![no_std]
use graph_safe_compare::Node;
pub fn same<N: Node>(a: N, b: N) -> N::Cmp { graph_safe_compare::deep_safe::equiv(a, b) }
EOF
cd "$tmp/m" && cargo check --offline -q 2>"$tmp/err" || { tail -5 "$tmp/err"; exit 1; }''')
