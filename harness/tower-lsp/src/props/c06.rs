//! Renaming: exactly the symbol's occurrences, and only to names that stay symbols of that kind.
use crate::doc::*;
use crate::ed::*;
use crate::oracle::*;
use crate::{hv, LanguageServer};

/// The same document for any five names.
fn template(v: &str, f: &str, g: &str, l: &str, x: &str) -> Doc {
    let mut d = Doc::new();
    d.var(v); d.a("1"); d.nl();
    d.fun(f, &[x]);
    d.blk(l);
    d.ins(); d.a("call "); d.o(K::Func, Use, f); d.a("("); d.o(K::Func, Use, v); d.a(", "); d.usev(x); d.a(") "); d.o(K::Dbg, Use, g); d.fin();
    d.br(l);
    d.end();
    d.o(K::Dbg, Def, g); d.a(" = 5"); d.nl();
    d
}
const NAMES: [&str; 5] = ["@v9", "@f9", "!9x", "lbl9", "%x9"];
const RESERVED: [&str; 18] = ["void", "int1", "int8", "int16", "int32", "int64", "float32", "float64", "data128", "ptr",
    "declare", "define", "exported", "async", "memberfunc", "noreturn", "nosideeffects", "pure"];

/// Whether a name is acceptable; `None` where that is left open (a name that starts with colons).
fn valid(k: K, name: &str) -> Option<bool> {
    let n = name.strip_prefix(sigil(k)).unwrap_or(name);
    let first = match n.chars().next() { None => return Some(false), Some(c) => c };
    if n.chars().any(|c| !(c.is_alphanumeric() | (c == '_') | (c == ':'))) { return Some(false); }
    if n.ends_with(':') { return Some(false); }
    if k == K::Label && RESERVED.iter().any(|r| *r == n) { return Some(false); }
    if k == K::Label && !(first.is_alphabetic() || first == '_') { return Some(false); }
    if k != K::Dbg && first.is_numeric() { return Some(false); }
    if first == ':' { return None; }
    Some(true)
}

fn byte() -> char {
    let c = hv::u8();
    hv::assume(c < 0x80);
    c as char
}
fn new_name(h: u32) -> String {
    let mut s = String::new();
    match h {
        // up to two arbitrary ASCII characters
        0 => for _ in 0..hv::choose(3) { s.push(byte()); }
        // the sigil (maybe of another kind) first
        1 => { s.push(['@', '%', '!', ':'][hv::choose(4)]); for _ in 0..hv::choose(3) { s.push(byte()); } }
        // reserved words, and words next to them
        2 => { s.push_str(RESERVED[hv::choose(RESERVED.len())]); match hv::choose(3) { 0 => {} 1 => s.push(namechar()), _ => { s.pop(); } } }
        // any character of Unicode, alone or after a letter
        3 => { if hv::flag() { s.push('q'); } s.push_str(&anychar_n(hv::param(0) as usize).0); }
        // colons inside
        4 => { s.push(letter()); s.push(byte()); s.push(':'); if hv::flag() { s.push(byte()); } }
        // longer names
        _ => { s.push('n'); for _ in 0..12 { s.push(letter()); } s.push(byte()); }
    }
    s
}

pub fn run<S: LanguageServer>(e: &Editor<S>, h: u32) {
    if h >= 20 {
        // every occurrence of the symbol under the cursor, for symbolic names
        let mut d = family(h - 20);
        d.resolve();
        e.open(&d.text);
        let (o, p) = d.any();
        let got = e.rename(p, "zz");
        hv::check(got.is_ok(), 1);
        let got = got.ok().flatten().unwrap_or_default();
        let new = format!("{}zz", sigil(o.k));
        hv::reach(1);
        hv::check(same_by(&got, &d.all(o.id), |g, w| g.0 == *w && g.1 == new), 2);
        return;
    }
    let n = NAMES;
    let mut d = template(n[0], n[1], n[2], n[3], n[4]);
    d.resolve();
    e.open(&d.text);
    let which = hv::choose(5);
    let k = [K::Var, K::Func, K::Dbg, K::Label, K::Local][which];
    let o = d.occ.iter().find(|o| o.name == n[which]).unwrap();
    let name = new_name(h);
    hv::text(&name);
    if let Some(c) = name.bytes().next() { hv::assume((c != b'+') & (c != b'-')); }
    let got = e.rename((o.r.0, o.r.1), &name);
    let want = valid(k, &name);
    match got {
        Err(_) => { hv::reach(2); hv::check(want != Some(true), 3); }
        Ok(None) => { hv::reach(2); hv::check(want != Some(true), 3); }
        Ok(Some(edits)) => {
            hv::reach(3);
            hv::check(want != Some(false), 4);
            let new = format!("{}{}", sigil(k), name.strip_prefix(sigil(k)).unwrap_or(&name));
            hv::check(same_by(&edits, &d.all(o.id), |g, w| g.0 == *w && g.1 == new), 5);
            if h == 3 { return; }
            // the document after the edits is the same with the new name, and the new name works
            let mut m = n;
            m[which] = &new;
            let mut w = template(m[0], m[1], m[2], m[3], m[4]);
            let text = apply(&d.text, &edits);
            hv::check(text == w.text, 6);
            if n.iter().any(|x| *x == new) { return; }
            w.resolve();
            let e2 = e.at("file:///w/u.hir");
            e2.open(&text);
            hv::reach(4);
            let o = w.occ.iter().find(|o| o.name == new && o.role == Use).unwrap();
            nav(&e2, &w, (o.r.0, o.r.1), false);
            hv::check(e2.diags().is_empty(), 7);
        }
    }
}
