//! JSON-RPC result types, as in tower-lsp 0.20.0 (`error.rs` is that crate's file).
pub use self::error::{Error, ErrorCode, Result};
#[allow(dead_code)]
mod error;
