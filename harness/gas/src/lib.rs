vp::runtime!();
mod amount;
mod module;
mod price;

pub use parity_wasm::elements::{BlockType, BrTableData, Instruction as I};
pub use svm_gas::*;
pub use svm_program::*;
