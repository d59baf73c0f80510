//! Exhaustive exploration engine and independent reference models.
//! Nothing in this crate depends on the code under test.
pub mod engine;
pub mod fault;
pub mod en;
pub mod q;
pub mod mat;
pub mod net;
pub use engine::*;
