//! E0616: the pair of nodes whose edges are iterated cannot be changed
fn f(mut e: EdgesIter<N1>) {
    drop(e.next()); //GOOD
    e.counterparts = [N1(0), N1(0)]; //BAD
}
