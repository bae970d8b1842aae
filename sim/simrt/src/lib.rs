//! Runtime of the simulator: everything that must stay outside the instrumented code.
//!
//! * `prng`   - the only source of randomness,
//! * `sys`    - the few system calls used,
//! * `seam`   - replacements of `getrandom` and `syscall(SYS_futex)`, callback points, fault arming,
//! * `sched`  - the baton scheduler for simulated threads,
//! * `alloc`  - counting and poisoning global allocator,
//! * `life`   - live bitmap of tracked coefficients,
//! * `shared` - the page through which a simulated process reports to its parent.
pub mod alloc;
pub mod life;
pub mod prng;
pub mod sched;
pub mod seam;
pub mod shared;
pub mod sys;

pub use prng::Rng;
pub use seam::{arm, disarm, hook, hook_k, quiet, Fault};
pub use shared::{rep, Shared};
