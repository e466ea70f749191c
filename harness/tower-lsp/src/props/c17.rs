//! Histories: answers and diagnostics follow the latest text of each document.
use crate::doc::*;
use crate::ed::*;
use crate::oracle::*;
use crate::{hv, LanguageServer};
use lsp_types::*;
use serde_json::Value;

const URIS: [&str; 3] = ["file:///w/t.hir", "file:///w/u.hir", "untitled:Untitled-1"];

/// Small texts of different structure; one letter of each is symbolic.
pub fn text(kind: usize) -> Doc {
    let mut d = Doc::new();
    match kind {
        0 => { d.var("@a"); d.o(K::Func, Use, &s1("@")); d.nl(); }
        1 => { d.nl(); d.fun("@a", &["%x"]); d.blk("l"); d.br(&s1("")); d.end(); }
        2 => { d.nl(); d.nl(); d.decl("@a"); d.a(" = 0x1 "); d.o(K::Dbg, Use, &s1("!")); d.nl(); d.o(K::Dbg, Def, "!k"); d.a(" = 5"); d.nl(); }
        _ => {}
    }
    d.resolve();
    d
}

/// Everything that can be asked about a document. Codes 1-6, 20-42, 90-95.
pub fn ask<S: LanguageServer>(e: &Editor<S>, d: &Doc) {
    outline(e, d);
    lenses(e, d);
    folding(e, d);
    hints(e, d);
    let toks = e.semantic_tokens();
    hv::check(toks.is_some(), 90);
    // one colour for each global or local name of the document
    let names = d.occ.iter().filter(|o| o.k == K::Var || o.k == K::Func || o.k == K::Local).count();
    let (mut l, mut c) = (0, 0);
    let mut n = 0;
    for t in toks.unwrap_or_default() {
        if t.delta_line > 0 { c = 0; }
        l += t.delta_line;
        c += t.delta_start;
        if d.occ.iter().any(|o| (o.r.0, o.r.1) == (l, c)) { n += 1; }
    }
    hv::check(n == names, 91);
    if d.occ.is_empty() {
        nav(e, d, (0, 0), false);
        return;
    }
    let o = &d.occ[d.occ.len() - 1];
    nav(e, d, (o.r.0, o.r.1), false);
    cursor(e, d, (o.r.0, o.r.1));
    let r = e.rename((o.r.0, o.r.1), "q");
    let want: Vec<(R, String)> = d.all(o.id).into_iter().map(|r| (r, format!("{}q", sigil(d.kind(o.id))))).collect();
    hv::check(r.ok().flatten().map_or(false, |v| same(&v, &want)), 92);
    if !d.funs.is_empty() { cfg(e, d, 0); }
}
/// A document that the server has never seen. Codes 80-89.
pub fn unknown<S: LanguageServer>(e: &Editor<S>) {
    let p = (0, 0);
    hv::check(e.definition(p).map_or(true, |v| v.is_empty()), 80);
    hv::check(e.declaration(p).map_or(true, |v| v.is_empty()), 81);
    hv::check(e.references(p, true).map_or(true, |v| v.is_empty()), 82);
    hv::check(e.semantic_tokens().map_or(true, |v| v.is_empty()), 83);
    hv::check(e.symbols().map_or(true, |v| v.is_empty()), 84);
    hv::check(e.prepare_rename(p).is_none(), 85);
    hv::check(e.rename(p, "q").map_or(true, |v| v.map_or(true, |v| v.is_empty())), 86);
    hv::check(e.folding().map_or(true, |v| v.is_empty()), 87);
    hv::check(e.hints().map_or(true, |v| v.is_empty()), 87);
    hv::check(e.lenses().map_or(true, |v| v.is_empty()), 88);
    hv::check(e.code_actions((0, 0, 0, 0)).map_or(true, |v| v.map_or(true, |v| v.is_empty())), 88);
    let n = e.c.lock().unwrap().requests.len();
    hv::check(e.command("visualize-cfg", vec![Value::String(e.uri.to_string()), Value::String("@a".into())]).is_err(), 89);
    hv::check(e.c.lock().unwrap().requests.len() == n, 89);
}
/// What the n-th publication has to be. Codes 93-95, 20-21.
fn publication<S: LanguageServer>(e: &Editor<S>, n: usize, uri: &str, version: i32, d: &Doc) {
    let all = e.c.lock().unwrap().diagnostics.clone();
    hv::check(all.len() == n, 93);
    let last = &all[n - 1];
    hv::check(last.uri.as_str() == uri && last.version == Some(version), 94);
    let want = wanted(d);
    if want.is_empty() { hv::reach(91) } else { hv::reach(92) }
    let u = url(uri);
    hv::check(same_by(&last.diagnostics, &want, |g, w| is_wanted(&u, g, w)), 95);
}

const TEXTS: [&str; 13] = ["", "\n", "@V = 1\n", "@V = @w\n5\n@u = @V\n", "declare\n", "5", "\"", "define void @f(int32 %V) {\nb:\n  br b\n}\n", "define void @f(int32 %x) {\nb:\n  br V\n",
    "!1 = \"x\"\ndeclare void @V() !1\n", "define void @V() {\n  nop\n}\n!1 = {\n", "}\n@V = 1\n", "# V"];
/// Two documents of the same text. Codes 96-99, 60-69.
fn agree<S: LanguageServer>(x: &Editor<S>, y: &Editor<S>) {
    hv::check(same_by(&x.diags(), &y.diags(), |a, b| a.range == b.range && a.message == b.message && a.severity == b.severity), 60);
    hv::check(x.semantic_tokens() == y.semantic_tokens(), 61);
    let (a, b) = (x.symbols().unwrap_or_default(), y.symbols().unwrap_or_default());
    hv::check(same_by(&a, &b, |a, b| a.name == b.name && a.kind == b.kind && a.range == b.range && a.selection_range == b.selection_range), 62);
    let (a, b) = (x.folding().unwrap_or_default(), y.folding().unwrap_or_default());
    hv::check(same_by(&a, &b, |a, b| a == b), 63);
    let (a, b) = (x.hints().unwrap_or_default(), y.hints().unwrap_or_default());
    hv::check(same_by(&a, &b, |a, b| a.position == b.position), 64);
    let (a, b) = (x.lenses().unwrap_or_default(), y.lenses().unwrap_or_default());
    hv::check(same_by(&a, &b, |a, b| a.range == b.range), 65);
    let p = (hv::choose(3) as u32, [0, 5, 8, 15, 22][hv::choose(5)]);
    let r = |v: Option<Vec<Link>>| v.unwrap_or_default().into_iter().map(|l| l.target).collect::<Vec<R>>();
    hv::check(same(&r(x.definition(p)), &r(y.definition(p))), 66);
    hv::check(same(&r(x.declaration(p)), &r(y.declaration(p))), 67);
    let r = |v: Option<Vec<(String, R)>>| v.unwrap_or_default().into_iter().map(|l| l.1).collect::<Vec<R>>();
    hv::check(same(&r(x.references(p, true)), &r(y.references(p, true))), 68);
    hv::check(x.prepare_rename(p) == y.prepare_rename(p), 69);
}

pub fn run<S: LanguageServer>(e: &Editor<S>, h: u32) {
    let steps = hv::param(0) as usize;
    match h {
        // any history of notifications over three documents, then every question about each
        0 | 1 => {
            let mut now: [Option<Doc>; 3] = [None, None, None];
            let mut n = 0;
            for i in 0..steps {
                let u = if h == 0 { hv::choose(2) } else { 0 };
                let x = e.at(URIS[u]);
                let v = hv::u32() as i32;
                let d = text((i + u) % 4);
                match hv::choose(4) {
                    0 => x.open_v(&d.text, v),
                    1 => x.change(&[&d.text], v),
                    2 => { let o = text(3 - i % 2); x.change(&[&o.text, &d.text], v) }
                    // no content: nothing changes
                    _ => {
                        x.change(&[], v);
                        hv::check(e.c.lock().unwrap().diagnostics.len() == n, 93);
                        hv::reach(93);
                        continue;
                    }
                }
                n += 1;
                publication(e, n, URIS[u], v, &d);
                now[u] = Some(d);
            }
            let u = hv::choose(3);
            let x = e.at(URIS[u]);
            match &now[u] {
                Some(d) => { hv::reach(94); ask(&x, d); }
                None => { hv::reach(95); unknown(&x); }
            }
        }
        // a slow client: the latest text counts as soon as its notification is being handled
        2 => {
            let d0 = text(hv::choose(3));
            let d1 = text(hv::choose(3));
            let other = text(0);
            let y = e.at(URIS[1]);
            e.open(&d0.text);
            y.open(&other.text);
            e.c.lock().unwrap().slow = true;
            let (v, w) = (hv::u32() as i32, hv::u32() as i32);
            let change = |x: &Editor<S>, d: &Doc, v: i32| DidChangeTextDocumentParams {
                text_document: VersionedTextDocumentIdentifier { uri: x.uri.clone(), version: v },
                content_changes: vec![TextDocumentContentChangeEvent { range: None, range_length: None, text: d.text.clone() }],
            };
            hv::text(&d1.text);
            let mut f = e.s.did_change(change(e, &d1, v));
            let done = poll(&mut f).is_some();
            if !done { hv::reach(96) }
            ask(e, &d1);
            ask(&y, &other);
            publication(e, 3, URIS[0], v, &d1);
            let d2 = text(hv::choose(3));
            hv::text(&d2.text);
            let z = if hv::flag() { e.at(URIS[0]) } else { e.at(URIS[1]) };
            let mut g = e.s.did_change(change(&z, &d2, w));
            let done2 = poll(&mut g).is_some();
            ask(&z, &d2);
            publication(e, 4, z.uri.as_str(), w, &d2);
            e.c.lock().unwrap().slow = false;
            if !done { hv::check(poll(&mut f).is_some(), PENDING); }
            if !done2 { hv::check(poll(&mut g).is_some(), PENDING); }
            ask(&z, &d2);
            hv::check(e.c.lock().unwrap().diagnostics.len() == 4, 93);
        }
        // two changes under way at once, polled in any order after the first got its turn
        4 => {
            e.open(&text(2).text);
            e.c.lock().unwrap().slow = hv::flag();
            let change = |d: &Doc, v: i32| DidChangeTextDocumentParams {
                text_document: VersionedTextDocumentIdentifier { uri: e.uri.clone(), version: v },
                content_changes: vec![TextDocumentContentChangeEvent { range: None, range_length: None, text: d.text.clone() }],
            };
            let (d1, d2) = (text(hv::choose(3)), text(hv::choose(3)));
            hv::text(&d1.text);
            hv::text(&d2.text);
            let (v, w) = (hv::u32() as i32, hv::u32() as i32);
            let mut f = e.s.did_change(change(&d1, v));
            let mut g = e.s.did_change(change(&d2, w));
            let mut done = [poll1(&mut f).is_some(), false];
            for _ in 0..4 {
                if done[0] && done[1] { break; }
                let i = if done[0] { 1 } else if done[1] { 0 } else { hv::choose(2) };
                if !done[i] { done[i] = if i == 0 { poll1(&mut f).is_some() } else { poll1(&mut g).is_some() }; }
            }
            e.c.lock().unwrap().slow = false;
            let first = hv::choose(2);
            for i in [first, 1 - first] {
                if !done[i] { hv::check(if i == 0 { poll(&mut f).is_some() } else { poll(&mut g).is_some() }, PENDING); }
            }
            hv::reach(97);
            publication(e, 3, URIS[0], w, &d2);
            ask(e, &d2);
        }
        // documents whose URIs are almost the same
        5 => {
            let uris = ["file:///w/t.hir", "file:///w/T.hir", "file:///W/t.hir", "file:///w/v/t.hir", "file:///w/t.hir2", "file:///w/t", "file:///t.hir",
                "file:///w/t.hir?a", "file:///w/t.hir#a", "file://h/w/t.hir", "untitled:w/t.hir", "git:/w/t.hir", "vscode-vfs://h/w/t.hir", "file:///w/%20t.hir", "untitled:Untitled-1", "untitled:Untitled-11"];
            let i = [0, 15, 1][hv::choose(3)];
            let j = hv::choose(16);
            hv::assume(i != j);
            let (x, y) = (e.at(uris[i]), e.at(uris[j]));
            let (d, o) = (text(hv::choose(3)), text(1));
            x.open_v(&d.text, 7);
            unknown(&y);
            y.open_v(&o.text, 3);
            publication(e, 2, uris[j], 3, &o);
            ask(&x, &d);
            ask(&y, &o);
        }
        // any history of texts, faulty ones too: the same answers as about the last text in a new document
        7 => {
            let mut t = String::new();
            for i in 0..steps {
                t = TEXTS[hv::choose(TEXTS.len())].replace('V', &letter().to_string());
                if hv::flag() { e.open_v(&t, i as i32) } else { e.change(&[&t], i as i32) }
            }
            let y = e.at(URIS[1]);
            y.open(&t);
            hv::reach(99);
            agree(e, &y);
        }
        // many documents at once
        6 => {
            let n = 150;
            let d = text(1);
            e.open(&d.text);
            let (mut a, mut b) = (Doc::new(), Doc::new());
            a.var("@i"); a.a("1"); a.nl();
            b.nl(); b.var("@j"); b.a("1"); b.nl(); b.var("@k"); b.a("2"); b.nl();
            for i in 0..n {
                e.at(&format!("file:///w/{}.hir", i)).open_v(if i % 2 == 0 { &a.text } else { &b.text }, i);
            }
            ask(e, &d);
            let i = [0, 1, n / 2, n - 2, n - 1][hv::choose(5)];
            let v = e.at(&format!("file:///w/{}.hir", i)).symbols().unwrap_or_default();
            hv::check(v.len() == 1 + (i % 2) as usize, 96);
            hv::reach(98);
        }
        // any letters, many times: old names are gone
        _ => {
            let mut d = text(0);
            for i in 0..4 + hv::choose(3) {
                d = Doc::new();
                for _ in 0..i % 3 { d.nl(); }
                d.var(&s1("@")); d.o(K::Func, Use, "@m"); d.nl();
                d.resolve();
                if i == 0 { e.open_v(&d.text, 1) } else { e.change(&[&d.text], i as i32 + 1) }
                publication(e, i + 1, URIS[0], i as i32 + 1, &d);
            }
            ask(e, &d);
        }
    }
}
