//! E0277: a limit cannot be of a type of the user's, whose arithmetic is not known
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct T(u8);
impl From<u8> for T { fn from(x: u8) -> Self { T(x) } }
impl core::ops::SubAssign for T { fn sub_assign(&mut self, _: Self) {} }
struct P;
impl equiv::Params for P {
    type Node = N1;
    type DescendMode = Limited<u8>; //GOOD
    type DescendMode = Limited<T>; //BAD
    type RecurMode = CallStack;
    type Error = LimitReached;
}
