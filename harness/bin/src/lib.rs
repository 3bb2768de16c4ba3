//! Harnesses for the command-line tools, which run with the real libgit2, PCRE2 and zlib.
#![allow(clippy::all)]
macro_rules! harness { ($($(#[$m:meta])* fn $n:ident() $b:block)*) => { $($(#[$m])* #[no_mangle] pub extern "C" fn $n() -> i32 { $b; 0 })* } }
mod args;
mod at;
mod conn;
mod fails;
mod layout;
mod pager;
mod refs;
mod xfer;
mod repo;
