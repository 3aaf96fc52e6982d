//! Harness entry points.  Each is executed symbolically (from the optimised LLVM IR of
//! this crate plus /repo's fleece crate plus std) by /verif/engine, and natively, on a
//! concrete input, by /verif/replay.
#![allow(dead_code, unused_imports, clippy::all)]
extern crate alloc;

#[macro_use]
pub mod common;
pub mod hist;
pub mod keys;
pub mod mirror;
pub mod model;
pub mod serial;
pub mod wire;

macro_rules! modules {
    ($($f:literal $m:ident;)*) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub fn table() -> Vec<(&'static str, extern "C" fn())> {
            #[allow(unused_mut)]
            let mut t: Vec<(&'static str, extern "C" fn())> = Vec::new();
            $(#[cfg(feature = $f)] t.extend_from_slice($m::TABLE);)*
            t
        }
    };
}
modules! {
    "c01" c01;
    "c02" c02;
    "c03" c03;
    "c04" c04;
    "c05" c05;
    "c06" c06;
    "c07" c07;
    "c08" c08;
    "c09" c09;
    "c10" c10;
    "c11" c11;
    "c12" c12;
    "c13" c13;
    "c14" c14;
    "c15" c15;
    "c16" c16;
    "c17" c17;
    "c18" c18;
    "c19" c19;
    "c20" c20;
    "c21" c21;
    "c22" c22;
    "c23" c23;
    "c24" c24;
    "c25" c25;
    "c26" c26;
    "c28" c28;
    "c29" c29;
    "c30" c30;
}
