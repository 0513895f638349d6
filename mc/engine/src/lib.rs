//! Explicit-state exploration engine and the sequential reference model.
//!
//! This crate knows nothing about mockall.  `model` is the boring reference
//! model, `explore` enumerates histories and replays every one of them against
//! a real system under test implementing `Sut`.
pub mod explore;
pub mod model;
pub mod report;
pub mod sut;
pub use model::*;
pub use sut::*;

/// A logical clock (the real atomics, also where `std` is instrumented)
#[derive(Default)]
pub struct Clock(std::sync::atomic::AtomicUsize);
impl Clock { pub fn tick(&self) -> usize { self.0.fetch_add(1, std::sync::atomic::Ordering::SeqCst) } }
pub fn sut_clock() -> Clock { Clock::default() }
