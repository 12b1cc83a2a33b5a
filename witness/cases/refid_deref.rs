//! E0369|E0277: only of what dereferences is there an identity by address
fn f(a: &u8, b: &u8) -> bool {
    RefId(a) == RefId(b) //GOOD
    RefId(*a) == RefId(*b) //BAD
}
