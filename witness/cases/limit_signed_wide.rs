//! E0277: a limit is of an unsigned integer type: it cannot be negative
fn f(a: N1, b: N1) {
    drop(wide_safe::limited_equiv(1_u8, a, b)); //GOOD
    drop(wide_safe::limited_equiv(1_i8, a, b)); //BAD
}
