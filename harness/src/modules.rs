// Shared between the symbolic build (staticlib) and the native replay program.
#[macro_use]
pub mod sym;
pub mod spec;
#[cfg(feature = "set")]
pub mod set;
#[cfg(any(feature = "query", feature = "builder"))]
pub mod query;
#[cfg(feature = "tables")]
pub mod tables;
#[cfg(feature = "builder")]
pub mod builder;
#[cfg(any(feature = "iter", feature = "set"))]
pub mod iter;
#[cfg(feature = "algebra")]
pub mod algebra;
#[cfg(any(feature = "names", feature = "python"))]
pub mod names;
#[cfg(feature = "python")]
pub mod python;
