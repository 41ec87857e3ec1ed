//! Reference models and workload generators. Nothing here depends on the code under test.
pub mod elab;
pub mod gen;
pub mod heck_names;
pub mod lang;
pub mod pos;
pub mod rng;
pub mod syntax;
pub mod util;
