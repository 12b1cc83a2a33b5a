//! E0277: a cycle-safe comparison with the premade table does not cross threads
struct A;
impl interleave::Params for A {
    type Node = N1;
    type Table = hash_map::Table<Self>;
    type RNG = random::default::RandomNumberGenerator;
}
impl hash_map::Params for A { type Node = N1; }
fn send<T: Send>(_: T) {}
fn f(r: Interleave<A>) {
    drop(r); //GOOD
    send(r); //BAD
}
