//! unused_must_use: a reset recursion mode has to be used in place of the other
#![deny(unused_must_use)]
fn f<P: equiv::Params>(m: P::RecurMode) {
    drop(m.reset()); //GOOD
    m.reset(); //BAD
}
