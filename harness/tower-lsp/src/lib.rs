//! Environment model of tower-lsp 0.20.0: same trait, result types and client API;
//! the transport is replaced by a verification harness which calls the handlers.
#![allow(clippy::all, dead_code, unused_imports)]
pub extern crate lsp_types;
pub use async_trait::async_trait;
pub use self::client::{Client, ClientSocket, LspService, LspServiceBuilder, Server};
pub use self::server_trait::LanguageServer;
pub mod jsonrpc;
mod client;
mod server_trait;
pub(crate) mod hv;
mod harness;
mod ed;
mod doc;
mod oracle;
mod grammar;
mod md;
mod bt;
mod soup;
mod props;
