//! E0277: the error of a recursion mode has to convert into the error of the comparison
struct E;
impl From<Infallible> for E { fn from(x: Infallible) -> Self { match x {} } }
#[derive(Default)]
struct M;
impl<P: equiv::Params<RecurMode = Self>> RecurMode<P> for M
where E: Into<P::Error>
{
    type Error = E;
    fn recur(_: &mut Equiv<P>, _: EdgesIter<P::Node>) -> Result<<P::Node as Node>::Cmp, E> { Err(E) }
    fn next(&mut self) -> Option<CounterpartsResult<P::Node>> { None }
    fn reset(self) -> Self { self }
}
struct P;
impl equiv::Params for P {
    type Node = N1;
    type DescendMode = Unlimited;
    type RecurMode = M;
    type Error = E; //GOOD
    type Error = Infallible; //BAD
}
