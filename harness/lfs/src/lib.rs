//! Harnesses for the packet-line layer and the Git LFS transfer server.
#![allow(clippy::all)]
macro_rules! harness { ($(fn $n:ident() $b:block)*) => { $(#[no_mangle] pub extern "C" fn $n() -> i32 { $b; 0 })* } }
pub mod locks;
mod class;
mod large;
mod pkt;
mod srv;
mod proto;
mod res;
mod store;

