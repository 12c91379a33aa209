//! Deterministic simulation of a DYNAMIXEL bus around the real `dynamixel2` crate.

pub mod bench;
pub mod bare;
pub mod choice;
pub mod diff;
pub mod meta;
pub mod motors;
pub mod ops;
#[cfg(feature = "full")]
pub mod os;
pub mod proto;
pub mod runner;
#[cfg(feature = "full")]
pub mod s_cli;
pub mod s_dev;
pub mod s_frame;
pub mod s_line;
pub mod s_model;
#[cfg(feature = "full")]
pub mod s_os;
pub mod s_val;
pub mod s_wire;
pub mod vals;
pub mod world;

pub use libc;
