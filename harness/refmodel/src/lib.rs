//! An independent model of the class file format: it knows nothing of cafebabe.
pub mod assemble;
pub mod generate;
pub mod mutate;
pub mod opcodes;
pub mod reference;
pub mod rng;
pub mod text;
pub mod value;
pub mod deep;
pub mod tables;
pub mod hostile;
