pub mod errors;
pub mod runners;
pub mod trace;
pub mod vm_core;
