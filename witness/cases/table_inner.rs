//! E0616: the premade table cannot be reached into
fn f<P: hash_map::Params>(t: hash_map::Table<P>) {
    drop(t); //GOOD
    drop(t.0); //BAD
}
