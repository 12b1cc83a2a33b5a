//! E0616: the pending pairs of a stack cannot be reached into
fn f<P: stack::Params>(m: &mut RecurStack<P>) {
    drop(m); //GOOD
    drop(&mut m.stack); //BAD
}
