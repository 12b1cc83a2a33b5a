//! E0277: a limited mode is of an unsigned integer type
struct P;
impl equiv::Params for P {
    type Node = N1;
    type DescendMode = Limited<u64>; //GOOD
    type DescendMode = Limited<i64>; //BAD
    type RecurMode = CallStack;
    type Error = LimitReached;
}
