//! Property-based tests for mp4ameta: engine, models, generators and properties.
pub mod access;
pub mod alloc;
pub mod big;
pub mod engine;
pub mod fault;
pub mod gen;
pub mod hostile;
pub mod model;
pub mod mp4;
pub mod props;
pub mod tagmodel;
pub mod util;
