pub mod cov;
pub mod engine;
pub mod gen;
pub mod model;
pub mod props;
pub mod sys;
pub mod tables;
pub mod tape;
pub mod types;
