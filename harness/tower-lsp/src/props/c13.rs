//! Outline, code lenses, folding ranges.
use crate::doc::*;
use crate::ed::*;
use crate::oracle::*;
use crate::{hv, LanguageServer};

pub fn run<S: LanguageServer>(e: &Editor<S>, h: u32) {
    let mut d = if h < 20 { family(h) } else { shapes() };
    d.resolve();
    e.open(&d.text);
    outline(e, &d);
    lenses(e, &d);
    folding(e, &d);
}

/// Functions of every small shape: blocks of 0-2 instructions, blank lines and comments.
fn shapes() -> Doc {
    let mut d = Doc::new();
    d.crlf = hv::flag();
    if hv::flag() { d.nl(); }
    d.fun("@f", &["%x"]);
    let first = hv::choose(3);
    for _ in 0..first { d.plain("nop 1"); }
    for i in 0..hv::choose(3) {
        d.blk(if i == 0 { "aa" } else { "b" });
        match hv::choose(4) {
            0 => {}
            1 => d.plain("ret"),
            2 => { d.plain("nop"); d.nl(); d.plain("ret int32 1 !3"); }
            _ => { d.ins(); d.a("nop"); d.fin_comment(" # c"); d.a("# d"); d.nl(); }
        }
    }
    d.end();
    if hv::flag() { d.var("@v"); d.a("1"); d.nl(); }
    if hv::flag() { d.fun("@g", &[]); d.plain("ret"); d.end(); }
    d
}
