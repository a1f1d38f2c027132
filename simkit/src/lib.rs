//! Deterministic simulation kit shared by all checks. No dependencies.

mod case;
mod driver;
pub mod proc;
mod rng;
pub mod sched;
mod state;
pub mod track;

pub use case::{minimise, node, tree, Node};
pub use driver::{main, Check};
pub use rng::{hash_bytes, mix, Rng};
pub use state::*;
pub use track::{catch, inject_panic, Caught, Injected, TrackAlloc};
