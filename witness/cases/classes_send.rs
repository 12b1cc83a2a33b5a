//! E0277: equivalence classes with the premade counter do not cross threads
fn send<T: Send>(_: T) {}
fn f(r: rc::Rc) {
    drop(r); //GOOD
    send(r); //BAD
}
