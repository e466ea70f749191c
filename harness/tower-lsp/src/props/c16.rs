//! External definitions.
use crate::doc::*;
use crate::ed::*;
use crate::{bt, hv, md, LanguageServer};

/// A workspace root: its URI, and the directory it stands for if it is one.
type Root = (&'static str, Option<&'static str>);
const ROOTS: [Root; 6] = [
    ("file:///tmp/hv-replay-root/a", Some("/tmp/hv-replay-root/a")),
    ("file:///tmp/hv-replay-root/b/", Some("/tmp/hv-replay-root/b")),
    ("untitled:x", None),
    ("vscode-remote://host/tmp/hv-replay-root/a", None),
    ("file:///tmp/hv-replay-root/%41%20c", Some("/tmp/hv-replay-root/A c")),
    ("http://h", None),
];

/// An annotation: its name and, if it has the form path:line, what it says.
struct Ann { name: String, at: Option<(String, u32)> }
/// The declared functions and their references.
struct Dcl { name: String, dbg: Option<String> }

/// Which file a path leads to: the first root under which it exists.
fn find(roots: &[Root], files: &[String], path: &str) -> Option<String> {
    let rel = path.strip_prefix("./").unwrap_or(path);
    roots.iter().filter_map(|r| r.1).map(|r| format!("{}/{}", r, rel)).find(|f| files.contains(f))
}
/// Codes 70-75. `external`: the (file, line) pairs, lines counted from zero.
fn expect<S: LanguageServer>(e: &Editor<S>, d: &Doc, o: &Occ, p: P, external: &[(String, u32)]) {
    let def = e.definition(p).unwrap_or_default();
    let me = e.uri.to_string();
    let defs = d.ranges(o.id, Def);
    let (here, there): (Vec<Link>, Vec<Link>) = def.into_iter().partition(|l| l.uri == me);
    hv::check(same_by(&here, &defs, |l, r| l.target == *r), 70);
    if external.is_empty() { hv::reach(70) } else { hv::reach(71) }
    let got: Vec<(String, u32)> = there
        .iter()
        .map(|l| {
            hv::check((l.target.1, l.target.2, l.target.3) == (0, l.target.0, 0) && l.selection == l.target, 71);
            let u: Vec<char> = l.uri.chars().collect();
            let b = md::unpercent(&u);
            hv::check(b.is_some(), 72);
            (String::from_utf8_lossy(&b.unwrap_or_default()).to_string(), l.target.0)
        })
        .collect();
    let want: Vec<(String, u32)> = external.iter().map(|(f, l)| (format!("file://{}", f), *l)).collect();
    hv::check(got.iter().all(|g| want.contains(g)), 73);
    hv::check(want.iter().all(|w| got.contains(w)), 74);
    // neither declarations nor references lead outside
    hv::check(e.declaration(p).unwrap_or_default().iter().all(|l| l.uri == me), 75);
    hv::check(e.references(p, true).unwrap_or_default().iter().all(|l| l.0 == me), 76);
}
fn decl(d: &mut Doc, x: &Dcl) {
    d.decl(&x.name);
    if let Some(r) = &x.dbg { d.a(" = 0x1f "); d.o(K::Dbg, Use, r); }
    d.nl();
}
/// What the annotations say about a function.
fn external(dcls: &[&Dcl], anns: &[&Ann], roots: &[Root], files: &[String], name: &str) -> Vec<(String, u32)> {
    let mut v = vec![];
    for x in dcls {
        if x.name != *name { continue; }
        for a in anns {
            if let (Some(r), Some((p, l))) = (&x.dbg, &a.at) {
                if *r == a.name {
                    if let Some(f) = find(roots, files, p) { v.push((f, l.max(&1) - 1)); }
                }
            }
        }
    }
    v
}
fn init<S: LanguageServer>(e: &Editor<S>, roots: &[Root]) {
    let u: Vec<&str> = roots.iter().map(|r| r.0).collect();
    hv::check(e.init(hv::param(1) == 1, &u).is_ok(), 77);
}
fn exist(files: &[String]) { for f in files { hv::file(f); } }

/// One declaration `@d` with the annotation `value`, used once; asks at both places.
fn single<S: LanguageServer>(e: &Editor<S>, value: &(String, String), roots: &[Root], files: &[String]) {
    init(e, roots);
    initialised(e, value, roots, files)
}
fn initialised<S: LanguageServer>(e: &Editor<S>, value: &(String, String), roots: &[Root], files: &[String]) {
    let mut d = Doc::new();
    decl(&mut d, &Dcl { name: "@d".into(), dbg: Some("!1".into()) });
    d.fun("@f", &[]);
    d.ins(); d.a("call "); d.o(K::Func, Use, "@d"); d.a("()"); d.fin();
    d.end();
    d.o(K::Dbg, Def, "!1"); d.a(" = "); d.t(&value.0); d.nl();
    d.resolve();
    exist(files);
    e.open(&d.text);
    let (o, p) = { let v: Vec<&Occ> = d.occ.iter().filter(|o| o.name == "@d").collect(); let o = v[hv::choose(v.len())]; (o, on(o.r)) };
    let a = Ann { name: "!1".into(), at: bt::location(&value.1).map(|(p, l)| (p.to_string(), l)) };
    let x = Dcl { name: "@d".into(), dbg: Some("!1".into()) };
    let ext = external(&[&x], &[&a], roots, files, "@d");
    expect(e, &d, o, p, &ext);
}
fn quoted(s: String) -> (String, String) { (format!("\"{}\"", s), s) }

pub fn run<S: LanguageServer>(e: &Editor<S>, h: u32) {
    match h {
        // which functions an annotation belongs to
        0 => {
            let x = Dcl { name: "@d".into(), dbg: Some(s1("!")) };
            let y = Dcl { name: s1("@"), dbg: Some(s1("!")) };
            let z = Dcl { name: "@e".into(), dbg: None };
            let a = Ann { name: "!a".into(), at: Some(("x.c".into(), 3)) };
            let b = Ann { name: s1("!"), at: Some(("./k/y.c".into(), 7)) };
            let c = Ann { name: "!c".into(), at: None };
            let mut d = Doc::new();
            d.o(K::Dbg, Def, &a.name); d.a(" = \"x.c:3\""); d.nl();
            decl(&mut d, &x);
            decl(&mut d, &y);
            d.o(K::Dbg, Def, &c.name); d.a(" = {\"a\": \"x.c:3\"}"); d.nl();
            decl(&mut d, &z);
            d.o(K::Dbg, Def, &b.name); d.a(" = \"./k/y.c:7\""); d.nl();
            d.fun("@f", &[]);
            d.ins(); d.a("call "); d.o(K::Func, Use, "@d"); d.a("("); d.o(K::Func, Use, "@e"); d.a(") "); d.o(K::Dbg, Use, "!a"); d.fin();
            d.end();
            d.resolve();
            let roots = [ROOTS[0]];
            let files = [format!("{}/a/x.c", hv::ROOT), format!("{}/a/k/y.c", hv::ROOT)];
            exist(&files);
            init(e, &roots);
            e.open(&d.text);
            let v: Vec<&Occ> = d.occ.iter().filter(|o| o.k == K::Func || o.k == K::Var).collect();
            let o = v[hv::choose(v.len())];
            let ext = external(&[&x, &y, &z], &[&a, &b, &c], &roots, &files, &o.name);
            if ext.len() > 1 { hv::reach(72) }
            expect(e, &d, o, on(o.r), &ext);
        }
        // roots and files
        1 => {
            let mut roots = vec![];
            for _ in 0..hv::choose(4) { roots.push(ROOTS[hv::choose(if roots.len() < 2 { 6 } else { 2 })]); }
            let path = "s/x.c";
            let mut files = vec![];
            for r in ["a", "b", "A c"] {
                if hv::flag() { files.push(format!("{}/{}/{}", hv::ROOT, r, path)); }
            }
            single(e, &quoted(format!("{}:5", path)), &roots, &files);
        }
        // lines of symbolic digits
        2 => {
            let mut l = String::from("x.c:");
            for _ in 0..1 + hv::choose(4) { l.push(digit()); }
            single(e, &quoted(l), &ROOTS[..1], &[format!("{}/a/x.c", hv::ROOT)]);
        }
        // other annotations
        3 => {
            let v = ["\"x.c\"", "\"x.c:\"", "\"x.c:1:2\"", "\"x.c:a\"", "\"x.c:-1\"", "\"x.c: 1\"", "\"x.c:1 \"", "5", "\"x.c:1\" 3", "{\"a\": \"x.c:1\"}", "", "\"\"", "\":\"", "\":1\"", "x.c:1", "[\"x.c:1\"]",
                "\"x.c:4294967296\"", "\"x.c:99999999999999999999\"", "\"x.c:1.0\"", "\"x.c:0x1\"", "3 \"x.c:1\"", "\"x.c:1\" !2", "\"x.c:1\" \"x.c:2\""];
            let s = v[hv::choose(v.len())].to_string();
            single(e, &(s, String::new()), &ROOTS[..1], &[format!("{}/a/x.c", hv::ROOT)]);
        }
        // lines at the limits
        4 => {
            let v = ["x.c:0", "x.c:00", "x.c:1", "x.c:4294967295", "x.c:0004294967295", "./x.c:2147483648", "x.c:65536"];
            single(e, &quoted(v[hv::choose(v.len())].to_string()), &ROOTS[..1], &[format!("{}/a/x.c", hv::ROOT)]);
        }
        // a symbolic character in the path
        5 => {
            let c = if hv::param(0) <= 2 { anychar_n(hv::param(0) as usize).0 } else { some_char() };
            if c.len() == 1 { let b = c.as_bytes()[0]; hv::assume(b != b':'); }
            let path = if hv::flag() { format!("{}x", c) } else { format!("s/x{}.c", c) };
            hv::assume(path != "./x");
            let files = [format!("{}/a/{}", hv::ROOT, path)];
            single(e, &quoted(format!("{}:5", path)), &ROOTS[..1], &files);
        }
        // paths with dots: nothing outside of the roots, nothing that does not exist
        6 => {
            let v = ["../x.c", "s/../x.c", "./../x.c", "/x.c", "//x.c", "", ".", "..", "../../../../etc/passwd", "s/./x.c", "%2e%2e/x.c", "x.c/"];
            let path = v[hv::choose(v.len())];
            let files = [format!("{}/x.c", hv::ROOT), format!("{}/a/x.c", hv::ROOT), format!("{}/a/s/x.c", hv::ROOT)];
            let mut d = Doc::new();
            decl(&mut d, &Dcl { name: "@d".into(), dbg: Some("!1".into()) });
            d.o(K::Dbg, Def, "!1"); d.a(" = "); d.a(&format!("\"{}:5\"", path)); d.nl();
            exist(&files);
            init(e, &ROOTS[..1]);
            e.open(&d.text);
            let got = e.definition((0, 13)).unwrap_or_default();
            hv::reach(73);
            for l in got {
                let u: Vec<char> = l.uri.chars().collect();
                let f = String::from_utf8_lossy(&md::unpercent(&u).unwrap_or_default()).to_string();
                let f = f.strip_prefix("file://").unwrap_or("").replace("//", "/");
                hv::check(f.starts_with("/tmp/hv-replay-root/a") && !f.contains("/../"), 78);
                hv::check(l.target == (4, 0, 4, 0), 79);
            }
        }
        // a client with a root URI: what counts without workspace folders, and only then
        8 => {
            let root = ROOTS[hv::choose(6)];
            let folders: Vec<Root> = (0..hv::choose(3)).map(|i| ROOTS[hv::choose(if i == 0 { 6 } else { 1 })]).collect();
            let u: Vec<&str> = folders.iter().map(|r| r.0).collect();
            hv::check(e.init_root(hv::param(1) == 1, &u, Some(root.0)).is_ok(), 77);
            let mut files = vec![];
            for r in ["a", "b", "A c"] {
                if hv::flag() { files.push(format!("{}/{}/x.c", hv::ROOT, r)); }
            }
            let roots = if folders.is_empty() { hv::reach(74); vec![root] } else { hv::reach(75); folders };
            initialised(e, &quoted("x.c:5".into()), &roots, &files);
        }
        // the annotation is repeated, with another value or the same; the function is also defined
        _ => {
            let x = Dcl { name: "@d".into(), dbg: Some("!1".into()) };
            let y = Dcl { name: "@d".into(), dbg: [None, Some("!1".to_string()), Some("!2".to_string())][hv::choose(3)].clone() };
            let vals = ["x.c:3", "x.c:9", "y.c:3", "z.c:1", "n"];
            let mk = |n: &str, v: &str| Ann { name: n.into(), at: bt::location(v).map(|(p, l)| (p.to_string(), l)) };
            let (v1, v2, v3) = (vals[hv::choose(5)], vals[hv::choose(5)], vals[hv::choose(3)]);
            let (a, b, c) = (mk("!1", v1), mk("!1", v2), mk("!2", v3));
            let mut d = Doc::new();
            d.crlf = hv::flag();
            d.o(K::Dbg, Def, "!1"); d.a(&format!(" = \"{}\"", v1)); d.nl();
            decl(&mut d, &x);
            d.o(K::Dbg, Def, "!1"); d.a(&format!(" = \"{}\"", v2)); d.nl();
            decl(&mut d, &y);
            if hv::flag() { d.fun("@d", &[]); d.plain("ret"); d.end(); }
            d.o(K::Dbg, Def, "!2"); d.a(&format!(" = \"{}\"", v3)); d.nl();
            d.resolve();
            let roots = [ROOTS[1], ROOTS[0]];
            let files = [format!("{}/a/x.c", hv::ROOT), format!("{}/b/y.c", hv::ROOT)];
            exist(&files);
            init(e, &roots);
            e.open(&d.text);
            let o = d.occ.iter().find(|o| o.name == "@d").unwrap();
            let ext = external(&[&x, &y], &[&a, &b, &c], &roots, &files, "@d");
            expect(e, &d, o, on(o.r), &ext);
        }
    }
}
