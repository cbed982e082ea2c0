//! The harness: plans, engines, oracles, runner.
pub mod gen;
pub mod model;
pub mod plan;
pub mod runner;
pub mod s1;
pub mod s2;
pub mod s3;
pub mod s4;
pub mod s5;
pub mod wgl;
pub mod world;
