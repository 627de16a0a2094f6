//! Runtime of the obligation generator: symbolic numbers, path exploration, SMT dialogue and the
//! stand-ins for the operating system that the extracted code is linked against.
#![feature(specialization)]
#![allow(incomplete_features)]
pub mod engine;
pub mod env;
pub mod r;
pub mod snap;
pub mod z;
pub use engine::*;
pub use r::*;
pub use z::*;

/// stands for rvalue static promotion
pub fn leak<T>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}
/// stands for the copy a primitive operand undergoes
#[inline]
pub fn copied<T: Copy>(x: T) -> T {
    x
}
