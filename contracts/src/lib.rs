//! Contracts on firrtl-ast: every `vc_*` function is an obligation-generating harness over the real
//! code; every `nt_*` function is executed natively only (a bounded stand-in).
#![allow(clippy::all)]
pub mod env;
pub mod gen;
pub mod models;
pub mod vc;
pub mod types;
pub mod typing;
pub mod text;
pub mod print;
pub mod parse;
pub mod entity;
pub mod circuit;
pub mod robust;

pub type Harness = (&'static str, &'static str, fn());

#[macro_export]
macro_rules! harnesses {
    ($($prop:literal : $($name:ident),* $(,)?;)*) => {
        pub const HARNESSES: &[$crate::Harness] = &[$($(($prop, stringify!($name), $name as fn())),*),*];
    };
}

pub fn all() -> Vec<Harness> {
    let mut v = vec![];
    for h in [types::HARNESSES, typing::HARNESSES, text::HARNESSES, print::HARNESSES, parse::HARNESSES, entity::HARNESSES, circuit::HARNESSES, robust::HARNESSES] { v.extend_from_slice(h); }
    v
}
