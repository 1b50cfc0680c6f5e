//! Runtime monitors for veb-tree: configurations, workloads, reference model and oracles.
pub mod configs;
pub mod direct;
pub mod dynt;
pub mod engine;
pub mod gen;
pub mod host;
pub mod keys;
pub mod paint;
pub mod report;
pub mod rng;
pub mod tok;
