//! Controlled stand-in for tokio 1.17 (see `/verif/DESIGN.md`).
#![allow(clippy::new_without_default)]

pub use tokio_real::io;
pub use tokio_real::sync;
pub use tokio_real::{join, pin, select, try_join};
pub use tokio_macros::{main, test};

#[doc(hidden)]
pub mod macros {
    pub use tokio_real::macros::*;
}

pub mod mc;
pub mod net;
pub mod runtime;
pub mod task;
pub mod time;

pub use task::spawn;

pub mod stream {}
