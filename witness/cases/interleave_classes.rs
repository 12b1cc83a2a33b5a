//! E0616: the state of a cycle-safe mode cannot be reached into
fn f<P: interleave::Params>(m: Interleave<P>) {
    drop(m); //GOOD
    drop(m.equiv_classes); //BAD
}
