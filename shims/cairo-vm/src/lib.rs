//! Offline stand-in for `cairo-vm` 0.6: the subset of the API that lambdaworks_cairo_prover uses,
//! over an actual (small) Cairo virtual machine with relocatable memory.
pub mod cairo_run;
pub mod felt;
pub mod hint_processor;
pub mod serde;
pub mod sim;
pub mod types;
pub mod vm;
pub mod without_std {}
