//! Drivers that run the real scc containers and record what they do.
#![allow(clippy::all)]
pub mod alloc;
pub mod obj;
pub mod ops;
pub mod scn;
pub mod trace;
pub mod whole;

pub use loom::rt;

/// A scheduling point.
#[inline]
pub fn pt() {
    rt::point();
}
