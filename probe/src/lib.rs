#![allow(dead_code, unused_variables, unused_imports, unused_mut, clippy::all)]
pub mod laws;
pub mod marks;
pub mod models;
