//! E0277: the equality of nodes' identities has to be an equivalence relation, with a hash
node!(N3, u64, u32, bool, true); //GOOD
node!(N3, f64, u32, bool, true); //BAD
