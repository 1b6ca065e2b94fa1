#[cfg(feature = "heap")]
extern crate alloc;
pub mod model;
pub mod rng;
pub mod seam;
pub mod ops;
#[cfg(feature = "full")]
pub mod probe;
pub mod remote;
pub mod misc;
pub mod enums;
pub use model::*;
pub use ops::*;
