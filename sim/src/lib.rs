//! Deterministic simulator core. Not instrumented; knows nothing of bongo.
#![allow(static_mut_refs)]
#![allow(clippy::missing_safety_doc)]
pub mod arena;
pub mod cfg;
pub mod graph;
pub mod lin;
pub mod orch;
pub mod plan;
pub mod rng;
pub mod sched;
pub mod sys;
