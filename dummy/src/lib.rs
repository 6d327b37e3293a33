// The program wrusdummy, as it is, with its main reachable.
#![allow(clippy::all, dead_code)]
include!("/repo/wrusdummy/src/main.rs");
pub fn run() { main() }
