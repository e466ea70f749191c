//! The symbol under the cursor, for every position.
use crate::doc::*;
use crate::ed::*;
use crate::oracle::*;
use crate::{hv, LanguageServer};

pub fn run<S: LanguageServer>(e: &Editor<S>, h: u32) {
    let mut d = match h {
        0 => all_kinds(false),
        1 => all_kinds(true),
        20 => returns(),
        n => family(n - 2),
    };
    d.resolve();
    e.open(&d.text);
    let mut p = (hv::u32(), hv::u32());
    // a long document: any column of any line with symbols
    if h == 13 { p.0 = d.occ[hv::choose(d.occ.len())].r.0; }
    cursor(e, &d, p);
    if h < 2 {
        // what the other requests at this cursor are about
        let o = d.under(p);
        let def = e.definition(p);
        hv::check(def.as_ref().map_or(true, |v| v.iter().all(|l| l.origin.map_or(true, |r| o.map_or(false, |o| o.r == r)))), 12);
        hv::check(o.is_some() || def.map_or(true, |v| v.is_empty()), 13);
        hv::check(e.rename(p, "zz").is_ok() == o.is_some(), 14);
    }
}

/// Lines that end with a lone carriage return, which LSP counts as a line break and the language does not know.
fn returns() -> Doc {
    let mut d = Doc::new();
    d.var("@v"); d.o(K::Var, Use, "@w");
    for n in [&s1("@")[..], "!1", "@w"] {
        if hv::flag() { d.a(" "); }
        d.text.push('\r');
        d.line += 1;
        d.col = 0;
        let k = if n == "!1" { K::Dbg } else { K::Var };
        d.o(k, Use, n);
    }
    d.nl();
    d.var("@u"); d.a("1");
    d
}
