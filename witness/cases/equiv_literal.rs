//! E0451|E0639: a comparison cannot be put together past its constructors
struct P;
impl equiv::Params for P {
    type Node = N1;
    type DescendMode = Unlimited;
    type RecurMode = CallStack;
    type Error = Infallible;
}
fn f() -> Equiv<P> {
    Equiv::default() //GOOD
    Equiv { descend_mode: Unlimited, recur_mode: Default::default() } //BAD
}
