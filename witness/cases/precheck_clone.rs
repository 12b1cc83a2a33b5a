//! E0277: a prechecked comparison may compare twice, and so requires nodes that are Clone
struct N3(u8);
impl Node for N3 {
    type Cmp = bool;
    type Id = u8;
    type Index = u8;
    fn id(&self) -> u8 { 0 }
    fn get_edge(&self, _: &u8) -> Option<Self> { None }
    fn equiv_modulo_edges(&self, _: &Self) -> bool { true }
}
impl Clone for N3 { fn clone(&self) -> Self { N3(0) } } //GOOD
fn f(a: N3, b: N3) -> bool {
    robust::precheck_equiv(a, b)
}
