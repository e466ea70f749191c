//! The harness that `Server::serve` runs in place of the transport: it plays the
//! editor against the repository's `LanguageServer` implementation.
use crate::client::ClientState;
use crate::{hv, LanguageServer};
use std::sync::Mutex;

pub fn run<S: LanguageServer>(s: &S, c: &Mutex<ClientState>) {
    let cx = crate::ed::Editor::new(s, c);
    crate::props::run(&cx, hv::harness());
}
