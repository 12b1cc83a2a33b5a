//! E0616: the premade reference-counted class cannot be reached into
fn f(t: rc::Rc) {
    drop(t); //GOOD
    drop(t.0); //BAD
}
