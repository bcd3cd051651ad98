//! Stand-in for `crossbeam`: scoped threads, channels and wait groups under the explorer's control;
//! the parts that never wait are those of crossbeam itself.
pub mod thread {
    pub use mcrt::sched::{scope, Scope, ScopedJoinHandle, ScopedThreadBuilder, Result};
}
pub use thread::scope;
pub mod channel {
    pub use mcrt::chan::*;
}
pub mod sync {
    pub use mcrt::chan::WaitGroup;
}
pub use crossbeam_utils::atomic;
pub use crossbeam_queue as queue;
pub mod utils {
    pub use crossbeam_utils::{Backoff, CachePadded};
}
