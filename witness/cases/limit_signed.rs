//! E0277: a limit is of an unsigned integer type: it cannot be negative
fn f(a: N1, b: N1) {
    drop(basic::limited_equiv(1_u32, a, b)); //GOOD
    drop(basic::limited_equiv(1_i32, a, b)); //BAD
}
