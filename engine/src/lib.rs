//! Monitors for palc: reference model, workload generation, observation and verdicts.
pub mod agen;
pub mod clapcmp;
pub mod cost;
pub mod help;
pub mod ir;
pub mod model;
pub mod observe;
pub mod process;
pub mod pure;
pub mod rng;
pub mod types;
pub mod val;
pub mod worker;

pub use observe::{Entry, ErrObs, Outcome};
pub use val::*;
