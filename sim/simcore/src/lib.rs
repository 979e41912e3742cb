//! Deterministic simulation core.
//!
//! One OS thread, one virtual clock, one source of choices.  Everything that
//! happens in a run (which task runs next, where a task is preempted, how many
//! bytes a read returns, when a segment arrives, which fault fires) is decided
//! by `choose()`, so a run is a pure function of (program, choice source).

pub mod choice;
pub mod exec;
pub mod mem;
pub mod net;

pub use choice::{chance, choose, range, Rng, Source};
pub use exec::*;
