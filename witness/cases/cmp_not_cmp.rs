//! E0277: a node's comparison result has to tell equivalence
node!(N3, u64, u32, bool, true); //GOOD
node!(N3, u64, u32, u8, 1); //BAD
