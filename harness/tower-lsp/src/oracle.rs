//! What the answers about a document built by `doc` have to be.
#![allow(dead_code)]
use crate::doc::*;
use crate::ed::*;
use crate::{hv, LanguageServer};
use lsp_types::*;
use serde_json::Value;

/// Definition, declaration and references of whatever is under the cursor. Codes 1-6.
pub fn nav<S: LanguageServer>(e: &Editor<S>, d: &Doc, p: P, include_declaration: bool) {
    let def = e.definition(p);
    let decl = e.declaration(p);
    let refs = e.references(p, include_declaration);
    match d.under(p) {
        None => {
            hv::reach(1);
            hv::check(def.map_or(true, |v| v.is_empty()), 1);
            hv::check(decl.map_or(true, |v| v.is_empty()), 2);
            hv::check(refs.map_or(true, |v| v.is_empty()), 3);
        }
        Some(o) => {
            hv::reach(2);
            let me = e.uri.to_string();
            let is = |l: &Link, r: &R| l.uri == me && l.target == *r && l.selection == *r && l.origin.map_or(true, |x| x == o.r);
            let (defs, decls, uses) = (d.ranges(o.id, Def), d.ranges(o.id, Decl), d.ranges(o.id, Use));
            if !uses.is_empty() && !defs.is_empty() { hv::reach(3); }
            if !decls.is_empty() { hv::reach(4); }
            if defs.len() > 1 { hv::reach(5); }
            if defs.is_empty() && decls.is_empty() { hv::reach(6); }
            hv::check(def.map_or(defs.is_empty(), |v| same_by(&v, &defs, is)), 4);
            hv::check(decl.map_or(decls.is_empty(), |v| same_by(&v, &decls, is)), 5);
            hv::check(refs.map_or(uses.is_empty(), |v| same_by(&v, &uses, |x, y| x.0 == me && x.1 == *y)), 6);
        }
    }
}

/// The symbol under the cursor, as renaming sees it. Codes 10-11.
pub fn cursor<S: LanguageServer>(e: &Editor<S>, d: &Doc, p: P) {
    let r = e.prepare_rename(p);
    match d.under(p) {
        None => { hv::reach(10); hv::check(r.is_none(), 10) }
        Some(o) => { hv::reach(11); hv::check(r == Some(o.r), 11) }
    }
}

/// An expected diagnostic: where, what it must name, and the first definition it refers to.
#[derive(Debug)]
pub struct Want<'a> { pub r: R, pub name: &'a str, pub first: Option<R> }
pub fn wanted(d: &Doc) -> Vec<Want> {
    let mut w = vec![];
    for o in &d.occ {
        let defs = d.ranges(o.id, Def);
        let decls = d.ranges(o.id, Decl);
        if o.role == Use && defs.is_empty() && decls.is_empty() {
            w.push(Want { r: o.r, name: &o.name, first: None });
        }
        if o.role == Def && defs[0] != o.r {
            w.push(Want { r: o.r, name: &o.name, first: Some(defs[0]) });
        }
    }
    w
}
pub fn is_wanted(uri: &Url, g: &Diagnostic, w: &Want) -> bool {
    rng(&g.range) == w.r
        && g.message.contains(w.name)
        && match (&g.related_information, w.first) {
            (None, None) => true,
            (Some(v), None) => v.is_empty(),
            (Some(v), Some(f)) => v.len() == 1 && v[0].location.uri.as_str() == uri.as_str() && rng(&v[0].location.range) == f,
            (None, Some(_)) => false,
        }
}
/// Undefined / duplicate symbols, and branches without targets: exactly those. Codes 20-22.
pub fn diags<S: LanguageServer>(e: &Editor<S>, d: &Doc) {
    let got = e.diags();
    let want = wanted(d);
    let bad: Vec<R> = d.funs.iter().flat_map(|f| f.blks.iter()).flat_map(|b| b.bad.iter().copied()).collect();
    if !want.is_empty() { hv::reach(20) } else { hv::reach(21) }
    if want.iter().any(|w| w.first.is_some()) { hv::reach(22) }
    if !bad.is_empty() { hv::reach(23) }
    // Diagnostics of the two kinds are told apart by their ranges: they never coincide.
    let (b, s): (Vec<Diagnostic>, Vec<Diagnostic>) = got.into_iter().partition(|g| bad.contains(&rng(&g.range)));
    hv::check(same_by(&s, &want, |g, w| is_wanted(&e.uri, g, w)), 20);
    hv::check(same_by(&b, &bad, |g, r| rng(&g.range) == *r), 21);
}

/// The outline. Codes 30-31.
pub fn outline<S: LanguageServer>(e: &Editor<S>, d: &Doc) {
    let got = e.symbols();
    hv::check(got.is_some(), 30);
    let got = got.unwrap_or_default();
    let mut want: Vec<(String, SymbolKind, R, R)> = vec![];
    for o in &d.occ {
        if o.k == K::Var && o.role == Def { want.push((o.name.clone(), SymbolKind::CONSTANT, o.r, o.r)); }
    }
    for f in &d.funs { want.push((f.name.clone(), SymbolKind::FUNCTION, f.r, f.name_r)); }
    if !want.is_empty() { hv::reach(30) }
    hv::check(same_by(&got, &want, |g, w| g.name == w.0 && g.kind == w.1 && rng(&g.range) == w.2 && rng(&g.selection_range) == w.3), 31);
}
/// Code lenses: one for each function with exactly one definition. Codes 32-33.
pub fn lenses<S: LanguageServer>(e: &Editor<S>, d: &Doc) {
    let got = e.lenses();
    hv::check(got.is_some(), 32);
    let got = got.unwrap_or_default();
    let mut want: Vec<(&str, R)> = vec![];
    for o in &d.occ {
        if o.k == K::Func && o.role == Def && d.ranges(o.id, Def).len() == 1 { want.push((&o.name, o.r)); }
    }
    if !want.is_empty() { hv::reach(31) }
    if want.len() < d.funs.len() { hv::reach(32) }
    hv::check(same_by(&got, &want, |g, w| {
        rng(&g.range) == w.1 && g.command.as_ref().map_or(false, |c| {
            c.command == "visualize-cfg" && match c.arguments.as_deref() {
                Some([Value::String(u), Value::String(n)]) => u == e.uri.as_str() && n == w.0,
                _ => false,
            }
        })
    }), 33);
}
/// Folding ranges of functions and basic blocks. Codes 34-35.
pub fn folding<S: LanguageServer>(e: &Editor<S>, d: &Doc) {
    let got = e.folding();
    hv::check(got.is_some(), 34);
    let got = got.unwrap_or_default();
    let mut want: Vec<(u32, u32)> = vec![];
    for f in &d.funs {
        want.push((f.r.0, f.r.2));
        for b in &f.blks { want.push((b.start.0, b.end.0)); }
    }
    if d.funs.iter().any(|f| f.blks.len() > 1) { hv::reach(33) }
    hv::check(same_by(&got, &want, |g, w| g.start_line == w.0 && g.end_line == w.1), 35);
    // the collapsed text of a block tells its number of instructions, that of a function its blocks
    let says = |g: &FoldingRange, n: usize| g.collapsed_text.as_ref().map_or(true, |t| t.split(' ').next() == Some(&n.to_string()[..]));
    for f in &d.funs {
        for g in &got {
            if g.start_line == f.r.0 && g.end_line == f.r.2 { hv::check(says(g, f.blks.len()), 37); }
        }
        for b in &f.blks {
            if b.start.0 == f.r.0 { continue; }
            for g in &got {
                if g.start_line == b.start.0 {
                    hv::check(says(g, b.instrs), 36);
                }
            }
        }
    }
}

pub fn parts(h: &InlayHint) -> Vec<InlayHintLabelPart> {
    match &h.label {
        InlayHintLabel::LabelParts(v) => v.clone(),
        InlayHintLabel::String(s) => vec![InlayHintLabelPart { value: s.clone(), ..Default::default() }],
    }
}
/// The hint parts that lead somewhere: (position, value, target)
pub fn hint_links(h: &[InlayHint], uri: &Url) -> Vec<(P, String, R)> {
    let mut v = vec![];
    for x in h {
        for p in parts(x) {
            if let Some(l) = &p.location {
                hv::check(l.uri.as_str() == uri.as_str(), 40);
                v.push(((x.position.line, x.position.character), p.value.clone(), rng(&l.range)));
            }
        }
    }
    v
}
/// Incoming edges at every block label, and the function's name at its end. Codes 40-42.
pub fn hints<S: LanguageServer>(e: &Editor<S>, d: &Doc) {
    let got = e.hints();
    hv::check(got.is_some(), 41);
    let got = hint_links(&got.unwrap_or_default(), &e.uri);
    let mut want: Vec<(P, String, R)> = vec![];
    for f in &d.funs {
        want.push(((f.r.2, f.r.3), f.name.clone(), f.name_r));
        for b in &f.blks {
            let l = match &b.label { Some(l) => l, None => continue };
            let mut first = true;
            for p in &f.blks {
                if let Some(pl) = &p.label {
                    if p.outs.iter().any(|t| *t == l.0) {
                        if first { hv::reach(40) } else { hv::reach(41) }
                        first = false;
                        want.push((b.colon, pl.0.clone(), pl.1));
                    }
                }
            }
            if first { hv::reach(42) }
        }
    }
    hv::check(same(&got, &want), 42);
}

/// The hints of any part of the document: at least those of the whole document that lie in it,
/// nothing but hints of the document. Codes 43-45.
pub fn hints_part<S: LanguageServer>(e: &Editor<S>, r: R) {
    let all = e.hints().unwrap_or_default();
    let part = e.hints_in(r);
    hv::check(part.is_some(), 43);
    let part = part.unwrap_or_default();
    let key = |h: &InlayHint| ((h.position.line, h.position.character), parts(h).iter().map(|p| (p.value.clone(), p.location.as_ref().map(|l| rng(&l.range)), p.tooltip.is_some())).collect::<Vec<_>>());
    let part: Vec<_> = part.iter().map(key).collect();
    let all: Vec<_> = all.iter().map(key).collect();
    for k in &all {
        let inside = (k.0 >= (r.0, r.1)) & (k.0 <= (r.2, r.3));
        if inside { hv::reach(43) } else { hv::reach(44) }
        hv::check(!inside || part.contains(k), 44);
    }
    hv::check(part.iter().all(|k| all.contains(k)) && part.len() <= all.len(), 45);
}

/// A lexeme of DOT: a name (quoted or not) or an operator.
#[derive(Clone, Debug, PartialEq)]
enum Dot { Id(String), Kw(String), Op(String) }
/// Splits a DOT text into lexemes, `None` if it is malformed.
fn dot_lex(dot: &str) -> Option<Vec<Dot>> {
    let b = dot.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b'/' if b.get(i + 1) == Some(&b'/') => while i < b.len() && b[i] != b'\n' { i += 1 },
            b'/' if b.get(i + 1) == Some(&b'*') => i = i + 2 + dot[i + 2..].find("*/")? + 2,
            b'#' if i == 0 || b[i - 1] == b'\n' => while i < b.len() && b[i] != b'\n' { i += 1 },
            b'"' => {
                let mut s = vec![];
                i += 1;
                loop {
                    match *b.get(i)? {
                        b'"' => break,
                        b'\\' if b.get(i + 1) == Some(&b'"') => { s.push(b'"'); i += 1 }
                        c => s.push(c),
                    }
                    i += 1;
                }
                i += 1;
                v.push(Dot::Id(String::from_utf8(s).ok()?));
            }
            b'-' if b.get(i + 1) == Some(&b'>') => { v.push(Dot::Op("->".into())); i += 2 }
            b'{' | b'}' | b';' | b',' | b'[' | b']' | b'=' => { v.push(Dot::Op((b[i] as char).to_string())); i += 1 }
            c if c.is_ascii_alphanumeric() || c == b'_' || c >= 0x80 => {
                let n = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] >= 0x80) { i += 1 }
                let w = &dot[n..i];
                // a name that starts with a digit has to be a number
                if w.as_bytes()[0].is_ascii_digit() && !w.bytes().all(|c| c.is_ascii_digit()) { return None; }
                let k = ["strict", "digraph", "graph", "node", "edge", "subgraph"].iter().any(|k| k.eq_ignore_ascii_case(w));
                v.push(if k { Dot::Kw(w.to_ascii_lowercase()) } else { Dot::Id(w.to_string()) });
            }
            _ => return None,
        }
    }
    Some(v)
}
/// Edges `from -> to` of a DOT text, and whether parallel edges are drawn as one.
fn dot_edges(dot: &str) -> Option<(bool, Vec<(String, String)>)> {
    let v = dot_lex(dot)?;
    let op = |i: usize, o: &str| v.get(i) == Some(&Dot::Op(o.to_string()));
    let kw = |i: usize, o: &str| v.get(i) == Some(&Dot::Kw(o.to_string()));
    let mut i = 0;
    let strict = kw(0, "strict");
    if strict { i += 1 }
    if !kw(i, "digraph") { return None; }
    i += 1;
    if let Some(Dot::Id(_)) = v.get(i) { i += 1 }
    if !op(i, "{") { return None; }
    i += 1;
    let mut edges = vec![];
    while !op(i, "}") {
        if op(i, ";") { i += 1; continue; }
        let mut chain = vec![];
        if kw(i, "node") || kw(i, "edge") || kw(i, "graph") {
            i += 1;
        } else {
            loop {
                match v.get(i)? {
                    Dot::Id(s) => chain.push(s.clone()),
                    _ => return None,
                }
                i += 1;
                if !op(i, "->") { break; }
                i += 1;
            }
            if op(i, "=") {
                if chain.len() != 1 { return None; }
                match v.get(i + 1)? { Dot::Id(_) => i += 2, _ => return None }
            }
        }
        for w in chain.windows(2) { edges.push((w[0].clone(), w[1].clone())); }
        // attributes
        while op(i, "[") {
            while !op(i, "]") { if i >= v.len() { return None; } i += 1; }
            i += 1;
        }
    }
    if i + 1 != v.len() { return None; }
    Some((strict, edges))
}
/// The graph of the n-th function: exactly its branch edges. Codes 50-56.
pub fn cfg<S: LanguageServer>(e: &Editor<S>, d: &Doc, n: usize) {
    let f = &d.funs[n];
    e.c.lock().unwrap().answer = Some(Ok(Value::Object(Default::default())));
    let before = e.c.lock().unwrap().requests.len();
    let r = e.command("visualize-cfg", vec![Value::String(e.uri.to_string()), Value::String(f.name.clone())]);
    hv::check(r.is_ok(), 50);
    let req = e.c.lock().unwrap().requests.clone();
    hv::check(req.len() == before + 1, 51);
    let (m, v) = &req[before];
    hv::check(m == "hyperir/showDot", 52);
    let dot = v.get("dotGraph").and_then(|x| x.as_str());
    let title = v.get("title").and_then(|x| x.as_str());
    hv::check(dot.is_some() && title.map_or(false, |t| t.contains(&f.name)), 53);
    let g = dot_edges(dot.unwrap_or(""));
    hv::check(g.is_some(), 55);
    let (strict, got) = g.unwrap_or_default();
    let mut want: Vec<(String, String)> = vec![];
    for b in &f.blks {
        if let Some(l) = &b.label {
            for t in &b.outs {
                want.push((l.0.clone(), t.clone()));
            }
        }
    }
    if !want.is_empty() { hv::reach(50) } else { hv::reach(51) }
    // parallel edges are one edge
    hv::check(got.iter().all(|g| want.contains(g)) && want.iter().all(|w| got.contains(w)), 54);
    hv::check(strict || got.iter().enumerate().all(|(i, g)| !got[..i].contains(g)), 56);
}

/// The sigil of a symbol kind.
pub fn sigil(k: K) -> &'static str { match k { K::Var | K::Func => "@", K::Dbg => "!", K::Label => "", K::Local => "%" } }

/// Splits off the number at the end of a name of ASCII characters.
pub fn number(name: &str) -> Option<(&str, i64)> {
    let b = name.as_bytes();
    let mut i = b.len();
    while i > 0 && b[i - 1].is_ascii_digit() { i -= 1; }
    if i == b.len() { return None; }
    let mut n: i64 = 0;
    for c in &b[i..] {
        n = n.checked_mul(10)?.checked_add((c - b'0') as i64)?;
    }
    Some((&name[..i], n))
}
/// The edits that shift the numbers of all symbols like `o` whose number is at least its own;
/// `None` if a number would not fit.
pub fn shifted(d: &Doc, o: &Occ, shift: i64) -> Option<Vec<(R, String)>> {
    let start = number(&o.name)?.1;
    let k = d.kind(o.id);
    let mut v = vec![];
    for x in &d.occ {
        if d.kind(x.id) != k || x.scope != o.scope { continue; }
        if let Some((p, n)) = number(&x.name) {
            if n >= start {
                let m = n.checked_add(shift)?.checked_abs()?;
                v.push((x.r, format!("{}{}", p, m)));
            }
        }
    }
    Some(v)
}
/// Applies edits that do not overlap to a text of ASCII characters and line feeds.
pub fn apply(text: &str, edits: &[(R, String)]) -> String {
    let mut out = String::new();
    let (mut l, mut c) = (0u32, 0u32);
    let b = text.as_bytes();
    let mut i = 0;
    while i <= b.len() {
        for (r, t) in edits {
            if (r.0, r.1) == (l, c) {
                out.push_str(t);
                let n = (r.3 - r.1) as usize;
                i += n;
                c += n as u32;
                break;
            }
        }
        if i >= b.len() { break; }
        out.push(b[i] as char);
        if b[i] == b'\n' { l += 1; c = 0; } else { c += 1; }
        i += 1;
    }
    out
}
