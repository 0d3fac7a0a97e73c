//! Harness on the real Binius crates: end-to-end instances, coin sources and enumerated families.
pub use vcore::*;
pub mod coins;
pub mod e2e;
pub mod families;
