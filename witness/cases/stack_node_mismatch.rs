//! E0271: a stack is for one type of node
struct P;
impl equiv::Params for P {
    type Node = N1;
    type DescendMode = Unlimited;
    type RecurMode = RecurStack<Self>;
    type Error = Infallible;
}
impl stack::Params for P {
    type Node = N1; //GOOD
    type Node = N2; //BAD
}
