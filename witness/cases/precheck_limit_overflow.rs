//! E0080: limits that would overflow are refused when the program is compiled
struct A;
impl interleave::Params for A {
    const PRECHECK_LIMIT: u16 = 32_767; //GOOD
    const PRECHECK_LIMIT: u16 = 32_768; //BAD
    type Node = N1;
    type Table = hash_map::Table<Self>;
    type RNG = random::default::RandomNumberGenerator;
}
impl hash_map::Params for A { type Node = N1; }
const X: u16 = <A as interleave::Params>::FAST_LIMIT_MAX;
