//! Shared machinery: the generated-case runner, and an independent XML reader.
pub mod gen;
pub mod norm;
pub mod runner;
pub mod xml;
