//! Runs the real program on the symbolic world of the specification: a small
//! emulation of the Solana runtime around `process_instruction`.
pub mod itf;
pub mod rt;
pub mod wire;
