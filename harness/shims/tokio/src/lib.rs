//! A drop-in tokio whose tasks, timers, network and signals are controlled by the model checker.
//! Synchronisation primitives, I/O traits and macros are tokio's own code.

#![allow(clippy::all)]

pub use tokio_real::io;
pub use tokio_real::sync;
pub use tokio_real::{join, pin, select, try_join};
pub use tokio_macros::{main, test};

pub mod macros {
    pub use tokio_real::macros::*;
}


mod task_local;
pub mod net;
pub mod runtime;
pub mod signal;
pub mod task;
pub mod time;

pub use task::spawn;
