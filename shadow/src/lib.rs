//! The numeric modules of the repository, extracted on this run (see /verif/extract), on symbolic doubles.
#![allow(unused_imports, dead_code, unused_variables, unused_parens, clippy::all)]
pub mod geometry;
pub mod numeric;
pub mod operations;
pub mod shim;
pub mod stub;
pub mod world;
