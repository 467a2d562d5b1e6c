//! Oracles, generators and the runner of the property checks. Nothing here knows the code under
//! test.

pub mod big;
pub mod dict;
pub mod ev;
pub mod expr;
pub mod field;
pub mod gen;
pub mod laurent;
pub mod parse;
pub mod runner;
pub mod sample;
pub mod series;
