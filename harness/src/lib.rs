//! Exhaustive exploration of the frozen-collections implementation.
#![allow(clippy::all)]
pub mod alloc;
pub mod engine;
pub mod hashers;
pub mod iters;
pub mod keys;
pub mod kinds;
pub mod maps;
pub mod pairs;
#[cfg(not(miri))]
pub mod sched;
pub mod sets;
pub mod spaces;
pub mod user;
pub mod zoo;
pub use lookalike;
pub use engine::{catch, Ctx, Cx, Tier, R};
