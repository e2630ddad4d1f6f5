//! Deterministic simulator for types generated by bitfields-rs.
//!
//! One `u64` seed decides one run: the type under test, the swarm configuration, every task
//! switch, every operation and argument, and every fault. Runs are recorded as explicit step
//! lists, so that a failing run can be minimised and replayed without the PRNG.
#![feature(alloc_error_hook)]
pub mod bv;
pub mod driver;
pub mod fault;
#[macro_use]
pub mod glue;
pub mod meta;
pub mod model;
pub mod op;
pub mod opgen;
pub mod rng;
pub mod scen;
pub mod step;

pub use bv::Bv;
pub use fault::{arm, disarm};
pub use meta::{Acc, Cust, Dut, FK, Field, Meta, TypeEntry};
pub use scen::c13::FlagEntry;
pub use op::{K, Op, Out, St};
