//! E0624: edges cannot be made up, nor started from elsewhere than the first
fn f(e: EdgesIter<N1>) {
    for x in e {} //GOOD
    let e = EdgesIter::new([N1(0), N1(0)]); //BAD
}
