//! The standard library as the code under test sees it. Everything is the real one except locks, atomics,
//! lazily initialised statics and `thread::{spawn, yield_now, sleep}`-style operations, which report to a
//! controlled scheduler: at each such operation the running thread stops and the explorer picks who goes on.

pub use ::std::*;

pub mod ctl;
pub mod sync;

pub mod thread {
    pub use ::std::thread::*;
    pub fn yield_now() {
        crate::ctl::point("yield_now");
    }
    pub fn sleep(_: ::std::time::Duration) {
        crate::ctl::point("sleep");
    }
}

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        crate::ctl::point("spin_loop");
    }
}
