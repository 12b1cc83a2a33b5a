//! E0271: a cycle-safe mode is for one type of node
struct A;
impl interleave::Params for A {
    type Node = N1;
    type Table = hash_map::Table<Self>;
    type RNG = random::default::RandomNumberGenerator;
}
impl hash_map::Params for A { type Node = N1; }
struct P;
impl equiv::Params for P {
    type Node = N1; //GOOD
    type Node = N2; //BAD
    type DescendMode = Interleave<A>;
    type RecurMode = CallStack;
    type Error = Infallible;
}
