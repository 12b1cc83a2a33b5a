//! E0599: a limited comparison has no default: a limit has to be chosen
struct P;
impl equiv::Params for P {
    type Node = N1;
    type DescendMode = Limited<u16>;
    type RecurMode = CallStack;
    type Error = LimitReached;
}
fn f() {
    let e = Equiv::<P>::new(Limited(3)); //GOOD
    let e = Equiv::<P>::default(); //BAD
}
