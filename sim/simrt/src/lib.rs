//! Deterministic simulation runtime.
//!
//! One simulated run lives on one fresh OS thread. Everything the code under test could observe as
//! nondeterminism is decided here: which task a simulated executor thread ("worker") polls next, where
//! inside a poll it is preempted, when timers fire, what the network does, what the clock shows and what
//! the operating system's random source returns.

pub mod alloc;
pub mod choice;
pub mod exec;
pub mod libc_hooks;
pub mod net;
pub mod time;
pub mod udp;

pub use choice::{Source, Stream};
pub use exec::*;
