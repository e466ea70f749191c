//! Positions and ranges count UTF-16 units, whatever characters precede them.
use crate::doc::*;
use crate::ed::*;
use crate::oracle::*;
use crate::{hv, LanguageServer};

/// A character before every symbol of a document, in strings and comments.
fn sprinkled(c: &(String, u32), mask: u32, crlf: bool) -> Doc {
    let mut d = Doc::new();
    d.crlf = crlf;
    let u = |d: &mut Doc, i: u32| if mask >> i & 1 == 1 { d.u(c) };
    d.a("# "); u(&mut d, 0); d.nl();
    d.var("@v"); d.a("\""); u(&mut d, 1); d.a("\", "); d.o(K::Func, Use, "@w"); d.nl();
    d.fun("@f", &["%x"]);
    d.ins(); d.a("call "); d.o(K::Func, Use, "@w"); d.a("(\""); u(&mut d, 2); d.a("\", "); d.usev("%y"); d.a(") "); d.o(K::Dbg, Use, "!1"); d.fin_comment(" # ");
    d.blk("a");
    d.br("a");
    d.end();
    d.o(K::Dbg, Def, "!1"); d.a(" = \""); u(&mut d, 3); d.a("\""); d.nl();
    d.var("@v"); d.a("2"); d.nl();
    d.decl("@d");
    d
}

/// Names made of letters outside ASCII.
fn foreign() -> Doc {
    let w = ["é", "ß1", "名", "𝒳", "ñ_", "x²٣"];
    let n = w[hv::choose(w.len())];
    let m = w[hv::choose(w.len())];
    let mut d = Doc::new();
    let g = format!("@{}", n);
    let l = format!("%{}", m);
    d.a("define void "); 
    let name_r = d.ou(K::Func, Def, &g);
    d.func = 1;
    d.a("(int32 "); d.ou(K::Local, Def, &l); d.a(") {"); d.nl();
    d.funs.push(Fun { name: g.clone(), name_r, r: (0, 0, 0, 0), blks: vec![] });
    let r = d.ou(K::Label, Def, n);
    d.a(":");
    let colon = d.pos();
    d.nl();
    d.funs[0].blks.push(Blk { label: Some((n.to_string(), r)), colon, start: (r.0, r.1), end: (r.2, r.3), ..Default::default() });
    d.ins(); d.a("call "); d.ou(K::Func, Use, &g); d.a("(int32 "); d.ou(K::Local, Use, &l); d.a(", int32 "); d.ou(K::Local, Use, &format!("%{}", n)); d.a(") "); d.ou(K::Dbg, Use, &format!("!{}", m)); d.fin();
    d.ins(); d.a("br ");
    d.funs[0].blks[0].outs.push(m.to_string());
    d.ou(K::Label, Use, m); d.fin();
    d.end();
    d
}

pub fn run<S: LanguageServer>(e: &Editor<S>, h: u32) {
    if h >= 80 { return faulty(e, h); }
    if h >= 70 { return annotated(e, h); }
    let mut d = match h % 10 {
        0 => sprinkled(&anychar(), 0b1111, false),
        1 => sprinkled(&anychar(), 1 << hv::choose(4), hv::flag()),
        _ => foreign(),
    };
    d.resolve();
    e.open(&d.text);
    match h / 10 {
        0 => nav(e, &d, d.any().1, true),
        1 => cursor(e, &d, { let o = d.occ[hv::choose(d.occ.len())].r; (o.0, if hv::flag() { o.3 } else { o.1 }) }),
        2 => diags(e, &d),
        3 => { outline(e, &d); lenses(e, &d); folding(e, &d); }
        4 => hints(e, &d),
        6 => tokens(e, &d),
        _ => {
            let (o, p) = d.any();
            let got = e.rename(p, "zz").ok().flatten().unwrap_or_default();
            hv::reach(60);
            hv::check(same_by(&got, &d.all(o.id), |g, w| g.0 == *w), 60);
        }
    }
}

/// Each global and local name has its token.
fn tokens<S: LanguageServer>(e: &Editor<S>, d: &Doc) {
    let toks = e.semantic_tokens().unwrap_or_default();
    let (mut l, mut c) = (0, 0);
    let mut got: Vec<R> = vec![];
    for t in toks {
        if t.delta_line > 0 { c = 0; }
        l += t.delta_line;
        c += t.delta_start;
        got.push((l, c, l, c + t.length));
    }
    for o in &d.occ {
        if o.k == K::Dbg || o.k == K::Label { continue; }
        hv::reach(70);
        hv::check(got.iter().filter(|g| **g == o.r).count() == 1, 70);
    }
}

/// The edits of a code action, and the place of a backtrace hint.
fn annotated<S: LanguageServer>(e: &Editor<S>, h: u32) {
    let c = if h == 70 { anychar() } else { (["é", "名", "𝒳"][hv::choose(3)].to_string(), 0) };
    let c = if h == 70 { c } else { let n = c.0.encode_utf16().count() as u32; (c.0, n) };
    let mut d = Doc::new();
    d.a("# "); d.u(&c); d.nl();
    d.fun("@f", &["%x1"]);
    d.ins(); d.a("call "); d.o(K::Func, Use, "@f"); d.a("(\""); d.u(&c); d.a("\", ");
    if h != 70 { let n = format!("%{}2", c.0); d.ou(K::Local, Use, &n); d.a(", "); }
    d.usev("%x1"); d.a(") "); d.o(K::Dbg, Use, "!1");
    let p = d.pos();
    d.fin();
    d.end();
    d.o(K::Dbg, Def, "!1"); d.a(" = {\"backtrace\": [[\"m\", \"A.cpp:1\"]], \"x\": \""); if h != 70 { d.u(&c); } d.a("\"}"); d.nl();
    d.resolve();
    e.open(&d.text);
    let got = e.hints().unwrap_or_default().iter().filter(|h| parts(h).iter().any(|p| p.tooltip.is_some())).map(|h| (h.position.line, h.position.character)).collect::<Vec<_>>();
    hv::reach(71);
    hv::check(got == vec![p], 71);
    let o = &d.occ[hv::choose(d.occ.len())];
    if number(&o.name.replace(&c.0, "n")).is_none() { return; }
    let got = e.code_actions((o.r.0, o.r.1, o.r.0, o.r.1)).ok().flatten().unwrap_or_default();
    let start = number(&o.name.replace(&c.0, "n")).unwrap().1;
    let want: Vec<R> = d.occ.iter().filter(|x| x.k == o.k && number(&x.name.replace(&c.0, "n")).map_or(false, |n| n.1 >= start)).map(|x| x.r).collect();
    let edits = got.get(0).and_then(|a| a.edit.as_ref()).map(|x| e.edits(x)).unwrap_or_default();
    hv::reach(72);
    hv::check(same_by(&edits, &want, |a, b| a.0 == *b), 72);
}

/// Syntax diagnostics start and end where lexemes do.
fn faulty<S: LanguageServer>(e: &Editor<S>, h: u32) {
    let c = if h == 80 { anychar() } else { anychar_n(4) };
    let mut d = Doc::new();
    let mut b: Vec<P> = vec![];
    d.a("# "); d.u(&c); d.nl();
    b.push(d.pos());
    macro_rules! lex { ($d:ident, $($s:expr),*) => { $( b.push($d.pos()); $d.a($s); b.push($d.pos()); $d.a(" "); )* } }
    macro_rules! string { ($d:ident) => { b.push($d.pos()); $d.a("\""); $d.u(&c); $d.a("\""); b.push($d.pos()); $d.a(" "); } }
    match hv::choose(6) {
        0 => { string!(d); lex!(d, "@v", "="); }
        1 => { lex!(d, "declare"); string!(d); lex!(d, "void"); }
        2 => { lex!(d, "declare", "void", "@d", "(", "int32", "%x", ")", "="); string!(d); lex!(d, "5"); }
        3 => { lex!(d, "define", "void", "@d", "(", ")", "{"); b.push(d.pos()); d.nl(); lex!(d, "call"); string!(d); lex!(d, ",", "!1", "}", "7"); b.push(d.pos()); d.nl(); lex!(d, "}"); }
        4 => { lex!(d, "@v", "depends", "on", "@f", ",", "5"); string!(d); }
        // an unfinished string: the error is at the end of the text
        _ => { lex!(d, "@v", "="); string!(d); lex!(d, "x"); b.push(d.pos()); d.a("\""); d.u(&c); }
    }
    b.push(d.pos());
    d.nl();
    b.push(d.pos());
    e.open(&d.text);
    let got = e.diags();
    hv::check(!got.is_empty(), 80);
    hv::reach(80);
    for g in got {
        if g.message.contains("undefined") { continue; }
        let r = rng(&g.range);
        hv::check(b.contains(&(r.0, r.1)) && b.contains(&(r.2, r.3)), 81);
    }
}
