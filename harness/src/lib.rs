//! Harnesses: each `h_*` function states one family of assertions over symbolic inputs.
//! The same functions are (a) executed symbolically by /verif/engine from the LLVM IR of this
//! crate linked with /repo, and (b) run natively by `replay` on concrete inputs.
#![allow(clippy::all)]
#[macro_use]
pub mod sx;
pub mod refm;

macro_rules! props {
    ($($f:literal $m:ident),* $(,)?) => {
        $( #[cfg(feature = $f)] pub mod $m; )*
        pub fn table() -> Vec<(&'static str, extern "C-unwind" fn())> {
            #[allow(unused_mut)]
            let mut v = Vec::new();
            $( #[cfg(feature = $f)] v.extend_from_slice($m::TABLE); )*
            v
        }
    };
}
include!("props.in");
