//! E0277: a limited comparison cannot be declared infallible, so that a reached limit is not lost
struct P;
impl equiv::Params for P {
    type Node = N1;
    type DescendMode = Limited<u16>;
    type RecurMode = CallStack;
    type Error = LimitReached; //GOOD
    type Error = Infallible; //BAD
}
