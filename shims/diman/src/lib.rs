//! Offline stand-in for the `diman` crate (a git dependency that is not available here).
//! Quantities are plain floating point numbers / vectors tagged with a compile time dimension.
pub use diman_macros::dimension;
pub use diman_macros::unit_system;
pub type Quotient<A, B> = <A as core::ops::Div<B>>::Output;
pub type Product<A, B> = <A as core::ops::Mul<B>>::Output;
