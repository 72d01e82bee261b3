//! What stands in for the operating system: clock, randomness, file system hooks and thread schedules.
//! A crate of its own so that it carries no preemption points.
#![allow(dead_code)]
pub mod interpose;
#[cfg(sched)]
pub mod sched;
