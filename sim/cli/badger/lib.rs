#![allow(warnings)]
//! A command line tool of /repo, as a library.
pub mod tikv_jemallocator {
    pub struct Jemalloc;
}
include!(concat!(env!("OUT_DIR"), "/src/main.rs"));
