//! Nothing crashes, hangs or blocks the server. The executor itself reports panics, aborts,
//! arithmetic overflows, memory errors, endless loops and deadlocks; the assertions here only
//! say that every handler has answered.
use crate::doc::*;
use crate::ed::*;
use crate::soup::*;
use crate::{hv, LanguageServer};
use lsp_types::*;
use serde_json::{json, Value};

/// Every request about a document, with a cursor at `p`.
fn all<S: LanguageServer>(e: &Editor<S>, p: P) {
    let _ = e.symbols();
    let _ = e.semantic_tokens();
    let _ = e.folding();
    let _ = e.hints();
    at(e, p);
    for l in e.lenses().unwrap_or_default() {
        if let Some(c) = l.command {
            hv::reach(3);
            show(e, &c.command, c.arguments.unwrap_or_default());
        }
    }
}
/// Every request about a position.
fn at<S: LanguageServer>(e: &Editor<S>, p: P) {
    let _ = e.definition(p);
    let _ = e.declaration(p);
    let _ = e.references(p, true);
    if e.prepare_rename(p).is_some() { hv::reach(1) } else { hv::reach(2) }
    let _ = e.rename(p, "q");
    let _ = e.rename(p, "+1");
    for a in e.code_actions((p.0, p.1, p.0, p.1)).ok().flatten().unwrap_or_default() {
        let _ = e.resolve(a);
    }
}
/// A command, to which the client answers at once.
fn show<S: LanguageServer>(e: &Editor<S>, c: &str, args: Vec<Value>) {
    e.c.lock().unwrap().answer = Some(Ok(json!({})));
    let _ = e.command(c, args);
    e.c.lock().unwrap().answer = None;
}
fn values() -> Vec<Value> {
    vec![
        json!(null), json!(true), json!(-1), json!(1.5e300), json!(""), json!("@f"), json!("file:///w/t.hir"), json!([]), json!(["file:///w/t.hir", "@f"]),
        json!({}), json!({"uri": "file:///w/t.hir"}), json!("\u{1f600}"),
    ]
}

pub fn run<S: LanguageServer>(e: &Editor<S>, h: u32) {
    let n = hv::param(0) as usize;
    match h {
        // short texts of any ASCII characters
        0 => {
            let mut s = String::new();
            for _ in 0..n { ascii(&mut s); }
            e.open(&s);
            all(e, (hv::choose(n + 2) as u32 / 2, hv::choose(n + 1) as u32));
        }
        // ... inserted into documents
        1 => {
            let (a, b) = CTX[1 + hv::choose(CTX.len() - 1)];
            let mut s = String::from(a);
            for _ in 0..n { ascii(&mut s); }
            s.push_str(b);
            e.open(&s);
            let l = a.matches('\n').count() as u32;
            let c = a.rsplit('\n').next().unwrap().len() as u32;
            all(e, (l, c));
        }
        // one character of n bytes in a context
        2 => {
            let (a, b) = CTX[if n < 3 { hv::choose(CTX.len()) } else { 2 }];
            let mut s = String::from(a);
            any(&mut s, n);
            s.push_str([" ", "\n", "x", ""][if n < 3 { hv::choose(4) } else { 2 }]);
            s.push_str(b);
            e.open(&s);
            all(e, (a.matches('\n').count() as u32, a.rsplit('\n').next().unwrap().len() as u32));
        }
        // n lexemes in a context
        3 => {
            let (a, _) = CTX[hv::param(1) as usize];
            let s = lexemes(n, hv::param(1) as usize);
            e.open(&s);
            all(e, (a.matches('\n').count() as u32, a.rsplit('\n').next().unwrap().len() as u32));
        }
        // a document that ends anywhere
        4 => {
            let s = prefix();
            e.open(&s);
            all(e, (s.matches('\n').count() as u32, 0));
        }
        // a document with one character replaced by any ASCII character, or removed
        5 => {
            let (s, k) = damaged(hv::param(1) as usize, hv::param(2) as usize);
            e.open(&s);
            let l = FULL.chars().take(k).filter(|c| *c == '\n').count() as u32;
            all(e, (l, hv::choose(2) as u32 * 4));
        }
        // positions anywhere
        6 => {
            let s = [FULL, "", "\n", "\r\n\r", "%x", "\u{1f600}@a\u{1f600}"][hv::choose(6)];
            e.open(s);
            let p = (hv::u32(), hv::u32());
            match hv::choose(3) {
                0 => at(e, p),
                1 => { let _ = e.code_actions((p.0, p.1, hv::u32(), hv::u32())); }
                _ => { let _ = e.hints_in((p.0, p.1, hv::u32(), hv::u32())); }
            }
        }
        // commands
        7 => {
            e.open(FULL);
            let v = values();
            let mut args = vec![];
            for _ in 0..hv::choose(4) { args.push(v[hv::choose(v.len())].clone()); }
            if args.len() == 2 { hv::reach(4) }
            show(e, ["visualize-cfg", "", "x"][hv::choose(3)], args);
        }
        // the client refuses the graph, in any way
        8 => {
            e.open(FULL);
            let v = values();
            e.c.lock().unwrap().answer = Some(Ok(v[hv::choose(v.len())].clone()));
            let _ = e.command("visualize-cfg", vec![json!("file:///w/t.hir"), json!("@f")]);
            hv::reach(5);
        }
        // code actions that never came from the server
        9 => {
            let _ = e.init(hv::flag(), &[]);
            e.open(FULL);
            let kinds = ["GlobalVar", "Function", "DbgAnnotation", "Label", "LocalVar", "Other", "label", ""];
            let uri = ["file:///w/t.hir", "file:///w/u.hir", "", "x"][hv::choose(4)];
            let nr = hv::u64();
            let id: Value = match hv::choose(5) { 0 => json!(null), 1 => json!(0), 2 => json!(hv::u64()), 3 => json!(-1), _ => json!("0") };
            let k = kinds[hv::choose(kinds.len())];
            let mut fields = json!({"uri": uri, "symbolKind": k, "symbol_kind": k, "funcBodyId": id, "func_body_id": id, "renamedNr": nr as i64, "renamed_nr": nr as i64});
            if hv::flag() { fields.as_object_mut().unwrap().remove("renamed_nr"); }
            let data = json!({"shiftNumbering": fields});
            if e.resolve(CodeAction { title: "x".into(), data: Some(data), ..Default::default() }).is_ok() { hv::reach(6) } else { hv::reach(7) }
        }
        10 => {
            e.open(FULL);
            let v = values();
            let mut x = v[hv::choose(v.len())].clone();
            if hv::flag() { x = json!({"shiftNumbering": x}); }
            let data = if hv::flag() { Some(x) } else { None };
            hv::check(e.resolve(CodeAction { title: "x".into(), data, ..Default::default() }).is_err(), 1);
            hv::reach(7);
        }
        // new names
        11 => {
            e.open(FULL);
            let p = [(0, 0), (0, 5), (1, 20), (2, 15), (2, 31), (4, 0), (12, 0)][hv::choose(7)];
            let mut s = String::from(["", "+", "-", "%", "\u{e4}", "+\u{20ac}", "-9223372036854775808", "+9223372036854775807", "99999999999999999999"][hv::choose(9)]);
            for _ in 0..hv::choose(n + 1) { ascii(&mut s); }
            if e.rename(p, &s).is_ok() { hv::reach(8) } else { hv::reach(9) }
        }
        // workspace folders of every kind
        12 => {
            let roots = ["file:///tmp/hv-replay-root/r", "file:///", "http://x/y", "untitled:z", "data:,a", "file://host/share/", "mailto:a@b"];
            let mut p = InitializeParams::default();
            let a = url(roots[hv::choose(roots.len())]);
            let b = url(roots[hv::choose(roots.len())]);
            match hv::choose(3) {
                0 => p.root_uri = Some(a),
                1 => p.workspace_folders = Some(vec![WorkspaceFolder { uri: a, name: "".into() }, WorkspaceFolder { uri: b, name: "x".into() }]),
                _ => { p.root_uri = Some(a); p.workspace_folders = Some(vec![]); }
            }
            let _ = now(e.s.initialize(p));
            now(e.s.initialized(InitializedParams {}));
            let loc = ["a/b.c:3", "", ":", "/:0", "a:b:c", "..:1", "a%2fb:4294967295", "\\\\x:7", "?#:1"][hv::choose(9)];
            let s = format!("declare void @d() !1\ndefine void @f() {{\n  nop !1\n}}\n!1 = {{\"backtrace\": [[\"n\", \"{}\"]], \"file\": \"{}\"}}\n", loc, loc);
            e.open(&s);
            let _ = e.hints();
            let _ = e.definition((0, 21));
            let _ = e.definition((0, 14));
            hv::reach(10);
            let _ = now(e.s.shutdown());
        }
        // annotations of any JSON, well formed or not
        13 => {
            const J: [&str; 16] = ["{", "}", "[", "]", ",", ":", "\"backtrace\"", "\"\"", "null", "1", "true", "\"a:1\"", "\\", "-", "{\"backtrace\":", "[["];
            let mut s = String::from("declare void @d() = 0x1 !1\ndefine void @f() {\n  nop !1\n}\n!1 = ");
            s.push_str(["", "{\"backtrace\": [", "{\"backtrace\": [["][hv::choose(3)]);
            for _ in 0..n { s.push_str(J[hv::choose(J.len())]); s.push(' '); }
            s.push_str(["\n", "]}\n"][hv::choose(2)]);
            e.open(&s);
            let _ = e.hints();
            let _ = e.definition((0, 14));
            let _ = e.definition((2, 6));
            hv::reach(11);
        }
        // any characters inside an annotation
        14 => {
            let mut s = String::from("declare void @d() = 0x1 !1\ndefine void @f() {\n  nop !1\n}\n!1 = ");
            let k = hv::choose(4);
            s.push_str(["{", "\"", "{\"backtrace\": [[\"", "{\"backtrace\": [[\"a\", \""][k]);
            for _ in 0..n { ascii(&mut s); }
            s.push_str(["}", "\"", "\"]]}", "\"]]}"][k]);
            s.push('\n');
            e.open(&s);
            let _ = e.hints();
            let _ = e.definition((0, 14));
            hv::reach(11);
        }
        // any order of notifications and requests, over known and unknown documents
        15 => {
            let u = ["file:///w/t.hir", "file:///w/u.hir", "untitled:x"];
            for _ in 0..n {
                let x = e.at(u[hv::choose(3)]);
                match hv::choose(6) {
                    0 => x.open_v(FULL, hv::u32() as i32),
                    1 => x.change(&["@a = @b"], hv::u32() as i32),
                    2 => x.change(&[], 0),
                    3 => x.change(&["\"", "define"], -1),
                    4 => at(&x, (0, 1)),
                    _ => { now(x.s.did_close(DidCloseTextDocumentParams { text_document: TextDocumentIdentifier { uri: x.uri.clone() } })); }
                }
            }
            all(e, (hv::choose(3) as u32, 0));
            hv::reach(12);
        }
        // long numbers and names everywhere
        17 => {
            const C: [(&str, &str, P); 12] = [
                ("@v = ", "\n", (0, 0)), ("declare void @d() = 0x", " !1\n", (0, 14)), ("declare void @d(int", " %x)\n", (0, 14)), ("define void @f(int32 %x", ") {\n  ret int32 %x1\n}\n", (0, 22)),
                ("define void @f() {\nb", ":\n  br b1\n}\n", (1, 0)), ("!", " = 5\n!1 = 6\n", (0, 0)), ("@g", " = 1\n@g1 = 2\n", (0, 1)), ("define void @f", "() {\n}\n", (0, 14)),
                ("define void @f() {\n  switch int32 ", ", default=b\n}\n", (0, 14)), ("# ", "\n@v = 1\n", (1, 0)), ("@v = \"", "\"\n", (0, 0)), ("define void @f() {\n  nop !1\n}\n!1 = {\"backtrace\": [[\"m\", \"a:", "\"]], \"file\": \"b:1\"}\n", (1, 6)),
            ];
            let (a, b, p) = C[hv::choose(C.len())];
            let k = [1, 8, 9, 10, 11, 16, 17, 19, 20, 21, 39, 40, 64, 150][hv::choose(14)];
            let u = ["0", "1", "9", "f", "_", "\u{e4}", "::"][hv::choose(7)];
            let mut s = String::from(a);
            for _ in 0..k { s.push_str(u); }
            s.push_str(b);
            e.open(&s);
            all(e, p);
            hv::reach(13);
        }
        // many lines, long lines, deep brackets
        _ => {
            let k = [1, 16, 64, 200][hv::choose(4)];
            let u = ["@a\n", "[", "{\n", "(", "%x ", "\"", "#\n", "b:\n", "br b\n", "\r\n", "\u{1f600}", "define void @f() {\n", "}\n", "!1 = [\n", ",", "!1 "][hv::choose(16)];
            let (a, b) = CTX[hv::choose(CTX.len())];
            let mut s = String::from(a);
            for _ in 0..k { s.push_str(u); }
            s.push_str(b);
            e.open(&s);
            all(e, (k as u32 / 2, 0));
        }
    }
}
