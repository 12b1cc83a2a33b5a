//! E0382: a comparison, without a precheck, takes its nodes: it does not copy them
struct N3(u8);
impl Node for N3 {
    type Cmp = bool;
    type Id = u8;
    type Index = u8;
    fn id(&self) -> u8 { 0 }
    fn get_edge(&self, _: &u8) -> Option<Self> { None }
    fn equiv_modulo_edges(&self, _: &Self) -> bool { true }
}
fn f(a: N3, b: N3) -> bool {
    robust::equiv(a, b);
    true //GOOD
    robust::equiv(a, b) //BAD
}
