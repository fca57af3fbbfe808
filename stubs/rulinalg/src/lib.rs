//! Stand-in for rulinalg (a git dependency that cannot be fetched offline).
//!
//! Written from the public interface of rulinalg 0.4.x so that the *whole* of
//! rusty-machine type-checks; simple but functional, so that the crate's own
//! tests and the seeded demonstrations can also run against it.
#![allow(clippy::all)]
pub mod error;
pub mod matrix;
pub mod vector;
pub mod norm;
pub mod utils;
pub mod ulp;
#[macro_use]
pub mod macros;
pub mod convert {}
pub mod prelude {
    pub use crate::matrix::*;
    pub use crate::vector::*;
}
#[doc(hidden)]
pub use num_traits as _num;
