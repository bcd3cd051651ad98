//! Run-time of the model checker: scheduler, channels, and the engine that runs cases.
pub mod sched;
pub mod chan;
pub mod engine;
