// The program wrustatic, as it is, with its main reachable.
#![allow(clippy::all, dead_code)]
include!("/repo/wrustatic/src/main.rs");
pub fn run() { main() }
