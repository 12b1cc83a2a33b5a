//! E0616: the descend mode cannot be reached into during a comparison
#[derive(Default)]
struct M;
impl<P: equiv::Params<RecurMode = Self>> RecurMode<P> for M {
    type Error = P::Error;
    fn recur(it: &mut Equiv<P>, _: EdgesIter<P::Node>) -> Result<<P::Node as Node>::Cmp, P::Error> {
        let m = &mut it.recur_mode; //GOOD
        let m = &mut it.descend_mode; //BAD
        Ok(Cmp::new_equiv())
    }
    fn next(&mut self) -> Option<CounterpartsResult<P::Node>> { None }
    fn reset(self) -> Self { self }
}
