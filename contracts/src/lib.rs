#![allow(clippy::all)]
pub mod abs;
#[cfg(feature = "adaptive")]
pub mod adaptive;
#[cfg(feature = "files")]
pub mod files;
#[cfg(feature = "fixed")]
pub mod fixed;
#[cfg(feature = "histories")]
pub mod histories;
#[cfg(feature = "nets")]
pub mod nets;
pub mod ops;
#[cfg(feature = "pyo3")]
pub mod python;
#[cfg(feature = "real")]
pub mod real;
#[cfg(feature = "serial")]
pub mod serial;
#[cfg(feature = "systems")]
pub mod systems;
#[cfg(feature = "types")]
pub mod types;
#[cfg(feature = "utils")]
pub mod utils;
pub mod vrt;
#[cfg(feature = "whole")]
pub mod whole;
