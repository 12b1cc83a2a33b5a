//! E0639: the weight of an equivalence class cannot be forged
fn f() -> Class<rc::Rc> {
    Class::default() //GOOD
    Class::Representative { weight: 7 } //BAD
}
