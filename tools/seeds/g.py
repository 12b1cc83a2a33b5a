import os, runpy
globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(__file__), 'b.py')).items() if not k.startswith('__') and k not in ('SEEDS', 'seed')})
SEEDS = []

def seed(id, prop, needs, breaks, edits, demo=None, **kw):
    d = dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, **kw)
    if demo is not None:
        d['demo'] = demo
    SEEDS.append(d)

PH = runpy.run_path(os.path.join(os.path.dirname(__file__), 'a.py'))['PH']

def crate(features, body, run='cargo run'):
    return '''mkdir -p "$tmp/m/src"
cat > "$tmp/m/Cargo.toml" <<EOF
[package]
name = "m"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
graph_safe_compare = { path = "$repo", default-features = false, features = [%s] }
EOF
cat > "$tmp/m/src/main.rs" <<"EOF"
%s
EOF
cd "$tmp/m" && timeout 280 %s --offline -q 2>"$tmp/err"
rc=$?
tail -5 "$tmp/err"
exit $rc''' % (', '.join('"%s"' % f for f in features), body.strip(), run)

TREE = '''
use graph_safe_compare as gsc;
use std::cmp::Ordering;
#[derive(Clone, Copy)]
pub struct N(&'static [(i32, &'static [usize])], usize);
impl gsc::Node for N {
    type Cmp = Ordering;
    type Id = (usize, usize);
    type Index = u8;
    fn id(&self) -> Self::Id { (self.0.as_ptr() as usize, self.1) }
    fn get_edge(&self, i: &u8) -> Option<Self> { self.0[self.1].1.get(usize::from(*i)).map(|&n| N(self.0, n)) }
    fn equiv_modulo_edges(&self, other: &Self) -> Ordering { self.0[self.1].0.cmp(&other.0[other.1].0) }
}
'''

seed('c15_nightly_last', 'C15', 'Feature `anticipate`, and nodes that use up all indexes of their type.',
     'The last index is advanced, which panics (or wraps around, in release), rather than being the end.',
     [(GEN, 'Step::forward_checked(i.clone(), 1)', 'Some(Step::forward(i.clone(), 1))')],
     cmds=crate(['std', 'wyrng', 'anticipate'], TREE + '''
fn main() {
    let leaf = || -> Vec<usize> { vec![1; 256] };
    let mk = || -> N { N(Box::leak(Box::new([(0, &*leaf().leak()), (0, &[][..])])), 0) };
    assert_eq!(gsc::deep_safe::equiv(mk(), mk()), Ordering::Equal);
}
''', 'cargo +nightly run'))
seed('c04_alloc_only', 'C04', 'A build without the standard library, and two differences in a graph.',
     'The queue is a stack in such a build, and the difference found first is another.',
     [(UT, '''        LazyVecQueue<I> { VecDeque::with_capacity, push_back, front_mut, pop_front },
    }''', '''    }
    #[cfg(feature = "std")]
    provided_impls! {
        LazyVecQueue<I> { VecDeque::with_capacity, push_back, front_mut, pop_front },
    }
    #[cfg(not(feature = "std"))]
    provided_impls! {
        LazyVecQueue<I> { VecDeque::with_capacity, push_back, back_mut, pop_back },
    }''')],
     cmds=crate(['alloc'], TREE + '''
fn main() {
    let a = N(&[(0, &[1, 2]), (0, &[3]), (5, &[]), (7, &[])], 0);
    let b = N(&[(0, &[1, 2]), (0, &[3]), (6, &[]), (6, &[])], 0);
    assert_eq!(gsc::deep_safe::equiv(a, b), Ordering::Less);
}
'''))
seed('c08_fastrand_only', 'C08', 'A build with fastrand as the only generator, and a count of the pairs consulted after a skip.',
     'After a skip the next pair is descended without being consulted.',
     [(CS, '                    self.ticker = 0;\n                    false', '                    self.ticker = i32::from(cfg!(all(feature = "fastrand", not(feature = "wyrng"))));\n                    false')],
     PH % {'fm': 0, 'sl': 4, 'body': '''
    let p = new();
    assert!(go(p.0, p.1));
    assert!(!go(p.0, p.1));
    assert!(!go(p.0, p.1));
'''}, features=['std', 'fastrand'])
seed('c10_bare_limit', 'C10', 'A build without allocation, and a limit that is just enough.',
     'The last unit of the limit is not used.',
     [(BAS, '                if self.0 > 0.into() {', '                if self.0 > u8::from(cfg!(not(feature = "alloc"))).into() {')],
     cmds=crate([], TREE + '''
fn main() {
    let n = N(&[(0, &[])], 0);
    assert!(gsc::basic::limited_equiv(1_u8, n, n).is_ok());
}
'''))
seed('c17_fastrand_seeded', 'C17', 'The generator fastrand, and more than one draw.',
     'The generator is made anew for each draw, so the same number is drawn each time.',
     [(RND + 'fastrand.rs', 'fastrand::u16(0 .. exclusive_end.get())', 'fastrand::Rng::with_seed(u64::from(exclusive_end.get())).u16(0 .. exclusive_end.get())')],
     '''
use gsc::cycle_safe::modes::interleave::random::fastrand::RandomNumberGenerator;
fn main() {
    let (mut r, end) = (RandomNumberGenerator::default(), NonZeroU16::new(801).unwrap());
    let first = r.rand_upto(end);
    assert!((0 .. 100).any(|_| r.rand_upto(end) != first));
}
''', features=['std', 'fastrand'])
