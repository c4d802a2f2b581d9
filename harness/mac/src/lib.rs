#![allow(dead_code, unused_imports, unused_macros, unused_variables, unused_mut)]
//! The harnesses of frozen_map!.
#[cfg(feature = "c22")]
pub mod c22;
pub const TABLES: &[&[(&str, fn())]] = &[
    #[cfg(feature = "c22")]
    c22::TABLE,
];
