//! Engine, generators, reference models. Nothing here depends on the crate under test.
pub mod engine;
pub mod run;
pub mod dec;
pub mod gen;
pub mod model;
pub mod json;
pub mod bnf;
pub mod path;
