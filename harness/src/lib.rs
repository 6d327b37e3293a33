#![allow(clippy::all)]
#[macro_use] pub mod sym;
mod msg;
mod server;
#[cfg(feature = "hooks")] mod pool;
mod life;
mod logs;
mod client;
mod files;
#[cfg(feature = "dummy")] #[path = "dummy.rs"] mod dummies;
#[cfg(feature = "statics")] #[path = "statics.rs"] mod program;
#[cfg(feature = "hooks")] mod idle;
#[cfg(feature = "hooks")] mod streams;
