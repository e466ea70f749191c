//! Progress: while one handler waits for the client, everything else goes on.
use super::c17::{ask, text};
use crate::doc::*;
use crate::ed::*;
use crate::jsonrpc;
use crate::{hv, LanguageServer};
use lsp_types::*;
use serde_json::Value;

fn params(uri: &Url, f: &str) -> ExecuteCommandParams {
    ExecuteCommandParams {
        command: "visualize-cfg".into(),
        arguments: vec![Value::String(uri.to_string()), Value::String(f.into())],
        work_done_progress_params: Default::default(),
    }
}
/// One more thing the editor does meanwhile; returns the latest text of the document.
fn step<S: LanguageServer>(x: &Editor<S>, d: Doc, v: i32) -> Doc {
    match hv::choose(4) {
        0 => { let d = text(1); x.change(&[&d.text], v); d }
        1 => { let d = text(0); x.open_v(&d.text, v); d }
        2 => { quiet(x, &d); d }
        _ => { let d = text(2); x.change(&[&d.text], v); quiet(x, &d); d }
    }
}
/// All questions but the one that waits for the client.
fn quiet<S: LanguageServer>(x: &Editor<S>, d: &Doc) {
    let mut e = Doc::new();
    std::mem::swap(&mut e.text, &mut d.text.clone());
    e.occ = d.occ.clone();
    e.funs = d.funs.clone();
    crate::oracle::outline(x, &e);
    crate::oracle::folding(x, &e);
    crate::oracle::hints(x, &e);
    crate::oracle::lenses(x, &e);
    if let Some(o) = e.occ.last() {
        crate::oracle::nav(x, &e, (o.r.0, o.r.1), false);
        hv::check(x.rename((o.r.0, o.r.1), "q").is_ok(), 102);
        hv::check(x.code_actions((o.r.0, o.r.1, o.r.0, o.r.1)).is_ok(), 103);
    }
    hv::check(x.semantic_tokens().is_some(), 104);
}
fn fun() -> Doc { text(1) }

pub fn run<S: LanguageServer>(e: &Editor<S>, h: u32) {
    let y = e.at("file:///w/u.hir");
    let mut d = fun();
    let mut o = text(0);
    e.open(&d.text);
    y.open(&o.text);
    match h {
        // the client takes its time to show a graph
        0 | 1 => {
            let mut f = e.s.execute_command(params(&e.uri, "@a"));
            hv::check(poll(&mut f).is_none(), 100);
            hv::check(e.c.lock().unwrap().requests.len() == 1, 101);
            hv::reach(100);
            // another message is taken up meanwhile
            hv::check(e.c.lock().unwrap().level >= 2, 109);
            for i in 0..hv::param(0) {
                if h == 0 || hv::flag() { d = step(e, d, 2 + i as i32) } else { o = step(&y, o, 2 + i as i32) }
                // it keeps waiting
                hv::check(poll(&mut f).is_none(), 100);
            }
            finish(e, f, 1);
            ask(e, &d);
            ask(&y, &o);
        }
        // two graphs at once, answered in either order, and a change in between
        2 => {
            let mut f = e.s.execute_command(params(&e.uri, "@a"));
            hv::check(poll(&mut f).is_none(), 100);
            let d2 = fun();
            if hv::flag() { e.change(&[&d2.text], 7); d = d2; }
            let mut g = e.s.execute_command(params(&e.uri, "@a"));
            hv::check(poll(&mut g).is_none(), 100);
            hv::check(e.c.lock().unwrap().requests.len() == 2, 101);
            hv::check(e.c.lock().unwrap().level >= 3, 109);
            d = step(e, d, 9);
            hv::reach(102);
            let kind = hv::choose(3);
            answer(e, kind);
            let (a, b) = if hv::flag() { (poll(&mut f), poll(&mut g)) } else { let b = poll(&mut g); (poll(&mut f), b) };
            for r in [a, b] {
                hv::check(r.is_some(), 105);
                hv::check(r.unwrap().is_ok() == (kind == 0), 106);
            }
            e.c.lock().unwrap().answer = None;
            quiet(e, &d);
        }
        // the client is slow to take diagnostics
        3 => {
            e.c.lock().unwrap().slow = true;
            let n = fun();
            hv::text(&n.text);
            let x = if hv::flag() { e.at("file:///w/t.hir") } else { e.at("file:///w/u.hir") };
            let mut f = e.s.did_change(DidChangeTextDocumentParams {
                text_document: VersionedTextDocumentIdentifier { uri: x.uri.clone(), version: 5 },
                content_changes: vec![TextDocumentContentChangeEvent { range: None, range_length: None, text: n.text.clone() }],
            });
            let wait = poll(&mut f).is_none();
            if wait { hv::reach(103) }
            quiet(&x, &n);
            quiet(if x.uri == e.uri { &y } else { e }, if x.uri == e.uri { &o } else { &d });
            // another change of the same document, and of the other one
            let m = text(hv::choose(3));
            let z = if hv::flag() { &y } else { e };
            let mut g = e.s.did_change(DidChangeTextDocumentParams {
                text_document: VersionedTextDocumentIdentifier { uri: z.uri.clone(), version: 6 },
                content_changes: vec![TextDocumentContentChangeEvent { range: None, range_length: None, text: m.text.clone() }],
            });
            let wait2 = poll(&mut g).is_none();
            quiet(z, &m);
            // a graph is asked for meanwhile
            let mut k = e.s.execute_command(params(&x.uri, "@a"));
            let r = poll(&mut k);
            if x.uri != z.uri { hv::check(r.is_none(), 100); }
            e.c.lock().unwrap().slow = false;
            if wait { hv::check(poll(&mut f).is_some(), 107); }
            if wait2 { hv::check(poll(&mut g).is_some(), 107); }
            answer(e, 0);
            if r.is_none() { hv::check(poll(&mut k).map_or(false, |r| r.is_ok()), 105); }
            hv::check(e.c.lock().unwrap().diagnostics.len() == 4, 108);
        }
        // the request is cancelled while the client shows the graph
        _ => {
            let mut f = e.s.execute_command(params(&e.uri, "@a"));
            hv::check(poll(&mut f).is_none(), 100);
            if hv::flag() { d = step(e, d, 4); }
            drop(f);
            hv::reach(104);
            d = step(e, d, 5);
            ask(e, &d);
            ask(&y, &o);
        }
    }
}
fn answer<S: LanguageServer>(e: &Editor<S>, kind: usize) {
    e.c.lock().unwrap().answer = Some(match kind {
        0 => Ok(Value::Object(Default::default())),
        1 => Err(jsonrpc::Error::internal_error()),
        _ => Err(jsonrpc::Error::method_not_found()),
    });
}
/// The client answers: the command ends, as the answer says.
fn finish<S: LanguageServer>(e: &Editor<S>, mut f: std::pin::Pin<Box<dyn std::future::Future<Output = jsonrpc::Result<Option<Value>>> + Send + '_>>, n: usize) {
    let kind = hv::choose(3);
    answer(e, kind);
    let r = poll(&mut f);
    hv::check(r.is_some(), 105);
    hv::check(r.unwrap().is_ok() == (kind == 0), 106);
    if kind == 0 { hv::reach(105) } else { hv::reach(106) }
    hv::check(e.c.lock().unwrap().requests.len() == n, 101);
    let _ = f;
}
