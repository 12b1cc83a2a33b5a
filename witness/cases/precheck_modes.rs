//! E0277: the precheck's recursion mode has to convert into the other one
struct A;
impl interleave::Params for A {
    type Node = N1;
    type Table = hash_map::Table<Self>;
    type RNG = random::default::RandomNumberGenerator;
}
impl hash_map::Params for A { type Node = N1; }
impl queue::Params for A { type Node = N1; }
impl precheck_interleave::Params<N1> for A {
    type PrecheckRecurMode = CallStack; //GOOD
    type InterleaveRecurMode = RecurQueue<Self>; //GOOD
    type PrecheckRecurMode = RecurQueue<Self>; //BAD
    type InterleaveRecurMode = CallStack; //BAD
    type InterleaveParams = Self;
    type Error = Infallible;
}
