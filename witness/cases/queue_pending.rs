//! E0616: the pending pairs of a queue cannot be reached into
fn f<P: queue::Params>(m: &mut RecurQueue<P>) {
    drop(m); //GOOD
    drop(&mut m.queue); //BAD
}
