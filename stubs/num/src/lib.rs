//! Stand-in for the `num` facade crate (which is not in the offline cache): the
//! trait part of it is exactly `num-traits`, which is.
pub use num_traits::*;
pub mod traits { pub use num_traits::*; }
