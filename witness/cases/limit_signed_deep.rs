//! E0277: a limit is of an unsigned integer type: it cannot be negative
fn f(a: N1, b: N1) {
    drop(deep_safe::limited_equiv(1_usize, a, b)); //GOOD
    drop(deep_safe::limited_equiv(1_isize, a, b)); //BAD
}
