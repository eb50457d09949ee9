//! Monitors, reference model, generators and workloads for aoc-parse.
#![recursion_limit = "65536"]
pub mod checks;
pub mod dynp;
pub mod engine;
pub mod gen;
pub mod many_rules;
pub mod model;
pub mod node;
pub mod nums;
pub mod rng;
pub mod stats;
pub mod value;
pub mod watch;
