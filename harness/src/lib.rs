//! Property harnesses for mysql_cdc. Compiled to wasm64 they are executed symbolically by
//! /verif/engine; compiled natively they replay concrete inputs against the ordinary build.
#![allow(dead_code, unused_imports, static_mut_refs)]
pub mod api;
pub mod dump;
pub mod env;
pub mod out;
pub mod proto;
pub mod gen;

macro_rules! entries {
    ($($n:ident),* $(,)?) => {
        pub const ENTRIES: &[(&str, fn(u32))] = &[$((stringify!($n), $n)),*];
        #[cfg(target_arch = "wasm64")]
        mod exported {
            $(#[no_mangle] pub extern "C" fn $n(arg: u32) { crate::api::init(); super::$n(arg) })*
        }
    };
}
pub(crate) use entries;

macro_rules! modules {
    ($($m:ident $f:literal),* $(,)?) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub fn all_entries() -> Vec<(&'static str, fn(u32))> {
            #[allow(unused_mut)]
            let mut v: Vec<(&'static str, fn(u32))> = vec![];
            $(#[cfg(feature = $f)] v.extend_from_slice($m::ENTRIES);)*
            v
        }
    };
}
include!("mods.rs");
