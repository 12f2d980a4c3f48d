pub mod element;
pub mod traits;
