//! The code under test, regenerated from /repo/src on every build with `f64` replaced by `symrt::Sym`.
#![allow(warnings)]
include!(concat!(env!("OUT_DIR"), "/lib.rs"));
