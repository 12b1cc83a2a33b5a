//! E0308: nodes of different types cannot be compared with each other
fn f(a: N1, b: N1, c: N2) -> bool {
    robust::equiv(a, b) //GOOD
    robust::equiv(a, c) //BAD
}
