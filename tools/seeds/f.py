import os, runpy
globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(__file__), 'b.py')).items() if not k.startswith('__') and k not in ('SEEDS', 'seed')})
SEEDS = []

def seed(id, prop, needs, breaks, edits, demo=None, **kw):
    d = dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, **kw)
    if demo is not None:
        d['demo'] = demo
    SEEDS.append(d)

FIELD = lambda t: (CS, '            rng:           P::RNG,\n        }', '            rng:           P::RNG,\n%s        }' % t)
INIT = lambda t: (CS, 'rng:           P::RNG::default(),\n', 'rng:           P::RNG::default(),\n%s' % t)
FRESH = [s for s in runpy.run_path(os.path.join(os.path.dirname(__file__), 'c.py'))['SEEDS'] if s['id'] == 'c08_fresh_rng'][0]['demo']

seed('c08_one_draw', 'C08', 'More than one fast phase in a comparison.',
     'Only the length of the first fast phase is drawn; it is kept for all the others.',
     [FIELD('            fast:          Option<i32>,\n'), INIT('                    fast:          None,\n'),
      (CS, 'self.ticker = self.rng.rand_upto(Self::FAST_LIMIT_MAX_RANGE_END).into();',
       'let rng = &mut self.rng;\n                    self.ticker = *self\n                        .fast\n                        .get_or_insert_with(|| rng.rand_upto(Self::FAST_LIMIT_MAX_RANGE_END).into());')],
     FRESH)
seed('c07_merges_bounded', 'C07', 'More than 65535 pairs of which both nodes were recorded before.',
     'Further classes are not united.',
     [(EC, '    table: T,\n}', '    table: T,\n    /// Amount of unions.\n    merges: u16,\n}'),
      (EC, 'fn all_seen(\n        ac', 'fn all_seen(\n        merges: &mut u16,\n        ac'),
      (EC, '            let (larger_rep, smaller_rep);\n', '            if *merges == u16::MAX {\n                return false;\n            }\n            *merges = merges.saturating_add(1);\n            let (larger_rep, smaller_rep);\n'),
      (EC, '(Some(ac), Some(bc)) => Self::all_seen(ac, bc)', '(Some(ac), Some(bc)) => Self::all_seen(&mut self.merges, ac, bc)')],
     PH % {'fm': 0, 'sl': 65535, 'body': '''
    let mut u = || { let ((a, b), (c, d)) = (new(), new()); assert!(go(a, b)); assert!(go(c, d)); assert!(go(a, d)); (a, c) };
    let mut last = (0, 0);
    for _ in 0 .. 66_000 { last = u() }
    assert!(!go(last.0, last.1));
'''})
seed('c09_slow_first', 'C09', 'A precheck limit below 20, so a slow limit of one, and a cyclic graph.',
     'The first pair of each slow phase is descended without being recorded, so that nothing ever is, and the comparison does not end.',
     [FIELD('            fresh:         bool,\n'), INIT('                    fresh:         false,\n'),
      (CS, 'self.ticker = self.rng.rand_upto(', 'self.fresh = true;\n                    self.ticker = self.rng.rand_upto('),
      (CS, 'else if self.equiv_classes.same_class', 'else if core::mem::take(&mut self.fresh) {\n                    true\n                }\n                else if self.equiv_classes.same_class')],
     PH % {'fm': 5, 'sl': 1, 'body': '''
    let p = new();
    // a cycle of one pair
    let _ = &mut new;
    let n = (0 .. 10_000).take_while(|_| go(p.0, p.1)).count();
    assert!(n < 10_000);
'''})
seed('c02_steps_16', 'C02', 'More than 65535 pairs that are taken from the queue or stack.',
     'The comparison stops as equivalent when its count of pairs wraps around.',
     [(GEN, '            loop {\n                match self.equiv_main(a, b) {\n                    Ok(cmp) if cmp.is_equiv() => match', '            let mut steps = 0_u16;\n            loop {\n                steps = steps.wrapping_add(1);\n                match self.equiv_main(a, b) {\n                    Ok(cmp) if cmp.is_equiv() && steps == 0 => return Ok(cmp),\n                    Ok(cmp) if cmp.is_equiv() => match')],
     '''
fn main() {
    let g = G::new();
    let mk = |last| { let mut n = g.node(last, &[]); for _ in 0 .. 70_000 { n = g.node(0, &[n]) } n };
    let (a, b) = (mk(1), mk(2));
    assert_eq!(gsc::wide_safe::equiv(g.n(a), g.n(b)), Ordering::Less);
    assert_eq!(gsc::deep_safe::equiv(g.n(b), g.n(a)), Ordering::Greater);
}
''')
seed('c03_edge_count', 'C03', 'Nodes with more than 65535 edges, of which one has an edge more.',
     'The edges after that are not looked at, nor is it reported that one node has more of them.',
     [(GEN, '        next_index:              Option<N::Index>,\n    }', '        next_index:              Option<N::Index>,\n        count:                   u16,\n    }'),
      (GEN, 'next_index: Some(zero()) }', 'next_index: Some(zero()), count: 0 }'),
      (GEN, '                            self.next_index = increment_index(i);', '                            self.count = self.count.wrapping_add(1);\n                            self.next_index = if self.count == 0 { None } else { increment_index(i) };')],
     '''
fn main() {
    let g = G::new();
    let l = g.node(0, &[]);
    let (a, b) = (g.node(1, &vec![l; 70_000]), g.node(1, &vec![l; 70_001]));
    assert_eq!(gsc::wide_safe::equiv(g.n(a), g.n(b)), Ordering::Less);
    assert_eq!(gsc::basic::equiv(g.n(b), g.n(a)), Ordering::Greater);
}
''')
seed('c14_empty_alike', 'C14', 'Two ids of references to values without size, such as empty slices, at different addresses.',
     'They are equal, though their order and hash differ.',
     [(UT, 'ptr::eq(self.as_ptr(), other.as_ptr())', '''// There is nothing to be different.
                core::mem::size_of_val::<T::Target>(&*self.0) == 0
                    && core::mem::size_of_val::<T::Target>(&*other.0) == 0
                    || ptr::eq(self.as_ptr(), other.as_ptr())''')],
     '''
use gsc::utils::RefId;
fn main() {
    let v = [1_u8, 2, 3];
    let (a, b): (&[u8], &[u8]) = (&v[0 .. 0], &v[2 .. 2]);
    let (a, b) = (RefId(a), RefId(b));
    assert!(a == RefId(&v[0 .. 0]));
    assert_eq!(a == b, a.cmp(&b) == Ordering::Equal);
    assert!(a != b);
}
''')
seed('c06_last_left', 'C06', 'A node that is met twice in a row in the slow phase, with different counterparts.',
     'The second pair is skipped although its nodes were not in one class.',
     [(CS, 'else if self.equiv_classes.same_class(&a.id(), &b.id()) {', 'else if self.last.replace(a.id()).map_or(false, |x| x == a.id())\n                    || self.equiv_classes.same_class(&a.id(), &b.id())\n                {'),
      FIELD('            /// What was looked up most recently.\n            last:          Option<<<P::Table as Table>::Node as Node>::Id>,\n'), INIT('                    last:          None,\n')],
     PH % {'fm': 0, 'sl': 65535, 'body': '''
    let (p, q) = (new(), new());
    assert!(go(p.0, p.1));
    assert!(go(p.0, q.1));
'''})
seed('c12_leaf_after', 'C12', 'A precheck limit of zero, and nodes without edges.',
     'After a precheck that reached its limit, nodes without edges are equivalent whatever they hold.',
     [(GEN, '                Err(PrecheckError::LimitReached) => {\n                    let', '                Err(PrecheckError::LimitReached) => {\n                    // Nothing below.\n                    if [&a, &b].iter().all(|n| n.get_edge(&Default::default()).is_none()) {\n                        return Ok(crate::Cmp::new_equiv());\n                    }\n                    let')], PRE + '''
fn main() {
    let g = G::new();
    let (a, b) = (g.node(1, &[]), g.node(2, &[]));
    let r: Result<Ordering, Infallible> = precheck_interleave::equiv::<N<'_>, Q<0>>(g.n(a), g.n(b));
    assert_eq!(r.unwrap(), Ordering::Less);
}
''')
seed('c11_retry', 'C11', 'An error of a mode of the user while other pairs are pending in the queue or stack.',
     'The comparison goes on with the next pending pair, and the error is lost.',
     [(GEN, '                    result => return result,\n                }\n            }\n        }\n\n        /// The main logic', '''                    Err(e) => match self.recur_mode.next() {
                        Some(Ok([an, bn])) => {
                            a = an;
                            b = bn;
                        },
                        _ => return Err(e),
                    },
                    result => return result,
                }
            }
        }

        /// The main logic''')], '''
struct Once(u32);
#[derive(Debug, PartialEq)]
struct Stop;
impl From<Infallible> for Stop { fn from(_: Infallible) -> Self { Stop } }
impl<P: equiv::Params<DescendMode = Self>> DescendMode<P> for Once where Stop: Into<P::Error> {
    type Error = Stop;
    fn do_edges(&mut self, _: &P::Node, _: &P::Node) -> Result<bool, Stop> { Ok(true) }
    fn do_traverse(&mut self) -> Result<bool, Stop> { self.0 += 1; if self.0 == 2 { Err(Stop) } else { Ok(true) } }
}
args!(A, Once, RecurStack<A<'g>>, Stop);
fn main() {
    let g = G::new();
    let (x, y) = (g.node(1, &[]), g.node(1, &[]));
    let (a, b) = (g.node(0, &[x, x, x]), g.node(0, &[y, y, y]));
    assert_eq!(Equiv::<A>::new(Once(0)).equiv(g.n(a), g.n(b)), Err(Stop));
}
''')
seed('c19_cap_drop', 'C19', 'More than a million records pending.',
     'A record of another pair is thrown away when there are too many.',
     [(UT, 'self.0.$extend(subiter);', 'self.0.$extend(subiter);\n                        if self.0.len() > 1 << 20 {\n                            drop(self.0.$next_subiter());\n                        }')],
     '''
// 2^21 pairs of the widest layer are pending at once
#[derive(Clone, Copy)]
struct U(u32, u64, bool);
impl Node for U {
    type Cmp = bool; type Id = (u32, u64, bool); type Index = u8;
    fn id(&self) -> Self::Id { (self.0, self.1, self.2) }
    fn get_edge(&self, i: &u8) -> Option<U> { if self.0 < 22 && *i < 2 { Some(U(self.0 + 1, self.1 * 2 + u64::from(*i), self.2)) } else { None } }
    fn equiv_modulo_edges(&self, o: &U) -> bool { TAKEN.with(|t| t.set(t.get() + 1)); self.1 == o.1 }
}
thread_local! { static TAKEN: Cell<u64> = Cell::new(0); }
fn main() {
    assert!(gsc::deep_safe::equiv(U(0, 0, false), U(0, 0, true)));
    assert_eq!(TAKEN.with(|t| t.get()), (1 << 23) - 1);
}
''', prof='--release')
seed('c19_eager', 'C19', 'Nodes with very many edges, of which a difference comes early.',
     'All edges of a pair are stored in the queue, instead of one record for them.',
     [(DS, 'pub struct RecurQueue<P: Params>(LazyVecQueue<EdgesIter<P::Node>>);', 'pub struct RecurQueue<P: Params>(alloc::collections::VecDeque<CounterpartsResult<P::Node>>);'),
      (DS, '        /// Generic parameters of [`RecurQueue`]', '        extern crate alloc;\n\n        /// Generic parameters of [`RecurQueue`]'),
      (DS, 'LazyVecQueue::with_capacity', 'alloc::collections::VecDeque::with_capacity'),
      (DS, """            utils::{
                LazierIterator as _,
                LazyVecQueue,
            },
""", ''),
      (DS, 'it.recur_mode.0.extend(edges_iter);', 'for edge in edges_iter {\n                    let differ = edge.is_err();\n                    it.recur_mode.0.push_back(edge);\n                    if differ {\n                        break;\n                    }\n                }'),
      (DS, 'self.0.next()', 'self.0.pop_front()')], MEM + """
fn main() {
    let g = G::new();
    let (x, y, l) = (g.node(1, &[]), g.node(2, &[]), g.node(0, &[]));
    let (mut p, mut q) = (vec![l; 200_000], vec![l; 200_000]);
    p[0] = x;
    q[0] = y;
    let (a, b) = (g.node(0, &p), g.node(0, &q));
    let peak = peak(|| assert_eq!(gsc::deep_safe::equiv(g.n(a), g.n(b)), Ordering::Less));
    assert!(peak < 100_000, "peak {}", peak);
}
""")
seed('c18_robust_fast', 'C18', 'A graph with shared structure of more than 500 branch pairs.',
     'The robust functions use another maximum of the fast limit than the documented default.',
     [(ROB, '''    type Node = N;
    type RNG = default::RandomNumberGenerator;
''', '''    const FAST_LIMIT_MAX: u16 = 500;
    type Node = N;
    type RNG = default::RandomNumberGenerator;
''')], '''
struct D<'g>(PhantomData<&'g ()>);
impl<'g> interleave::Params for D<'g> {
    type Node = N<'g>;
    type RNG = interleave::random::default::RandomNumberGenerator;
    type Table = hash_map::Table<Self>;
}
impl<'g> hash_map::Params for D<'g> { type Node = N<'g>; }
impl<'g> queue::Params for D<'g> { type Node = N<'g>; }
impl<'g> equiv::Params for D<'g> {
    type Node = N<'g>;
    type DescendMode = Interleave<Self>;
    type RecurMode = RecurQueue<Self>;
    type Error = Infallible;
}
fn main() {
    let g = G::new();
    // leaves do not count, and what is shared is far apart
    let mk = || {
        let mut v = vec![g.node(0, &[])];
        let mut r = 1_u32;
        for i in 1 .. 4000_usize {
            r = r.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
            let k = i.saturating_sub(1 + (r >> 8) as usize % 400);
            let e = if r >> 31 == 0 { g.node(0, &[v[i - 1]]) } else { g.node(0, &[v[i - 1], v[k]]) };
            v.push(e);
        }
        v[3999]
    };
    let (a, b) = (mk(), mk());
    let count = |f: &dyn Fn()| { g.compares.set(0); f(); g.compares.get() };
    let p = count(&|| { gsc::robust::equiv(g.n(a), g.n(b)); });
    let q = count(&|| { Equiv::<D>::default().equiv(g.n(a), g.n(b)).unwrap(); });
    assert_eq!(p, q);
}
''')
