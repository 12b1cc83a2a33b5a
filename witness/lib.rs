//! The crate whose examples are the witnesses (see whole.py).
#![no_std]
