//! E0277: the error of a mode has to convert into the error of the comparison
struct E;
impl From<LimitReached> for E { fn from(_: LimitReached) -> Self { E } } //GOOD
struct P;
impl equiv::Params for P {
    type Node = N1;
    type DescendMode = Limited<u16>;
    type RecurMode = CallStack;
    type Error = E;
}
