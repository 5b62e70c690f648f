//! Obligations of every property, as functions over arbitrary inputs. This crate is compiled
//! to MIR together with rangetools and interpreted abstractly; it is never run.
#![feature(try_trait_v2, macro_metavar_expr_concat, iter_advance_by)]
#![allow(dead_code, unused_imports, unused_variables, non_snake_case, clippy::all)]
pub mod models;
pub mod sv;
mod types;
pub mod algebra;
pub mod laws;
pub mod eq;
pub mod bounds;
pub mod canary;
pub mod iter;
pub mod step;
pub mod index;
pub mod std_ranges;
#[cfg(serde)]
pub mod ser;
