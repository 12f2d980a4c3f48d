//! Offline stand-in for `lambdaworks-math` (rev a17b951).
//! Same module paths, same arithmetic, same byte formats. Validated against
//! real proofs made with the original library (see harness `selfcheck`).
#![allow(clippy::all)]
pub mod errors;
pub mod fft;
pub mod field;
pub mod helpers;
pub mod polynomial;
pub mod sim;
pub mod traits;
pub mod unsigned_integer;
