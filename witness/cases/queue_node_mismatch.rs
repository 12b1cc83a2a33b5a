//! E0271: a queue is for one type of node
struct P;
impl equiv::Params for P {
    type Node = N1;
    type DescendMode = Unlimited;
    type RecurMode = RecurQueue<Self>;
    type Error = Infallible;
}
impl queue::Params for P {
    type Node = N1; //GOOD
    type Node = N2; //BAD
}
