//! E0271: a table is for one type of node
struct A;
impl interleave::Params for A {
    type Node = N1;
    type Table = hash_map::Table<B>;
    type RNG = random::default::RandomNumberGenerator;
}
struct B;
impl hash_map::Params for B {
    type Node = N1; //GOOD
    type Node = N2; //BAD
}
