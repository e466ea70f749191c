//! Undefined and duplicate symbols.
use crate::doc::*;
use crate::ed::*;
use crate::oracle::*;
use crate::LanguageServer;

pub fn run<S: LanguageServer>(e: &Editor<S>, h: u32) {
    let mut d = family(h);
    d.resolve();
    e.open(&d.text);
    diags(e, &d);
}
