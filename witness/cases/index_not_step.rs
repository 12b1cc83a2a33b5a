//! E0277: an edge's index has to have a successor
node!(N3, u64, u32, bool, true); //GOOD
node!(N3, u64, char, bool, true); //BAD
