//! The symbolic engine: independent of the code under test.
pub mod ctx;
pub mod env;
pub mod explore;
pub mod inject;
pub mod prove;
pub mod roots;
pub mod runner;
pub mod solver;
pub mod symf;
