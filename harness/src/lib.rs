//! Harnesses: the properties as assertions over symbolic inputs.
#![allow(clippy::missing_safety_doc)]
include!("modules.rs");
#[cfg(feature = "python")]
mod cpython;
