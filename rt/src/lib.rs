//! Controlled runtime for DAM: every operation that contexts use to interact (channels, atomics, locks,
//! park/unpark, spawn/join) is a scheduling point of a deterministic scheduler that lets exactly one real
//! thread run at a time. Threads that do not belong to a controlled run behave as with the plain library.

pub mod atomic;
pub mod channel;
pub mod parking_lot;
pub mod sched;
mod shim;
pub mod sync;

pub use shim::*;
