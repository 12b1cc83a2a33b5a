//! E0080: limits that would overflow are refused when the program is compiled
struct A;
impl interleave::Params for A {
    const FAST_LIMIT_MAX: u16 = 65_534; //GOOD
    const FAST_LIMIT_MAX: u16 = 65_535; //BAD
    type Node = N1;
    type Table = hash_map::Table<Self>;
    type RNG = random::default::RandomNumberGenerator;
}
impl hash_map::Params for A { type Node = N1; }
const X: core::num::NonZeroU16 = Interleave::<A>::FAST_LIMIT_MAX_RANGE_END;
