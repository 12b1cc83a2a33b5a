//! E0639: a link of an equivalence class cannot be forged
fn f(r: rc::Rc) -> Class<rc::Rc> {
    Class::default() //GOOD
    Class::Link { next: r } //BAD
}
