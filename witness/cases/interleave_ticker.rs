//! E0616: the state of a cycle-safe mode cannot be reached into
fn f<P: interleave::Params>(m: &mut Interleave<P>) {
    drop(m); //GOOD
    m.ticker = 1; //BAD
}
