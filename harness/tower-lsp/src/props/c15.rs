//! Tooltips stay what they are meant to be, whatever characters the frames contain.
use crate::bt::*;
use crate::doc::*;
use crate::ed::*;
use crate::{hv, LanguageServer};

/// JSON escapes and what they stand for.
const ESC: [(&str, &str); 16] = [
    ("\\n", "\n"), ("\\r", "\r"), ("\\t", "\t"), ("\\\\", "\\"), ("\\/", "/"), ("\\b", "\u{8}"), ("\\f", "\u{c}"), ("\\u0060", "`"), ("\\u2028", "\u{2028}"), ("\\u0000", "\0"),
    ("\\u005b", "["), ("\\n\\n", "\n\n"), ("\\r\\n", "\r\n"), ("\\u0085", "\u{85}"), ("\\u001b", "\u{1b}"), ("\\n* ", "\n* "),
];
/// Text that is markup when it is not escaped.
const NASTY: [&str; 14] = [
    "`", "``", "](x)", "[a](b)", "<b>", "&lt;", "*a*", "_a_", "<!--", "![a](b)", "www.a.b", "~~a~~", "a@b.c", "|",
];

fn doc(d: &mut Doc, v: &[String]) -> P {
    d.fun("@f", &[]);
    d.ins(); d.a("nop "); d.o(K::Dbg, Use, "!1");
    let p = d.pos();
    d.fin();
    d.end();
    d.o(K::Dbg, Def, "!1"); d.a(" = "); d.t(&bt(v)); d.nl();
    p
}
/// A character which stands for itself in JSON.
fn chr(n: usize) -> String {
    let c = anychar_n(n).0;
    if n == 1 { hv::assume(c.as_bytes()[0] != b'\\'); }
    c
}

pub fn run<S: LanguageServer>(e: &Editor<S>, h: u32) {
    let mut d = Doc::new();
    let n = hv::param(0) as usize;
    // (text in the document, text it stands for)
    let name: (String, String);
    let loc: (String, String);
    let same = |s: String| (s.clone(), s);
    let mut files: Option<&str> = None;
    match h {
        // a symbolic character in the name
        0 => {
            let c = chr(n);
            name = same(if hv::flag() { c } else { format!("a{}b", c) });
            loc = same("q.c:3".into());
        }
        // ... in the file name
        1 => {
            let c = chr(n);
            hv::assume(n > 1 || c.as_bytes()[0] != b':');
            name = same("n".into());
            loc = same(if hv::flag() { format!("{}:3", c) } else { format!("d/a{}b:3", c) });
        }
        // two ASCII characters in the name or in the file name
        2 => {
            let c = format!("{}{}", chr(1), chr(1));
            name = same(c);
            loc = same("q.c:3".into());
        }
        3 => {
            let c = format!("{}{}", chr(1), chr(1));
            hv::assume((c.as_bytes()[0] != b':') & (c.as_bytes()[1] != b':'));
            name = same("n".into());
            loc = same(format!("{}:3", c));
        }
        // escapes and markup in both
        4 => {
            let x = ESC[hv::choose(ESC.len())];
            let y = ESC[hv::choose(ESC.len())];
            name = (format!("a{}b", x.0), format!("a{}b", x.1));
            loc = (format!("d/c{}e:3", y.0), format!("d/c{}e:3", y.1));
        }
        5 => {
            let x = NASTY[hv::choose(NASTY.len())];
            let y = NASTY[hv::choose(NASTY.len())];
            name = same(format!("{}{}", if hv::flag() { "a" } else { "" }, x));
            loc = same(format!("{}{}:3", if hv::flag() { "a" } else { "" }, y));
        }
        // a file that exists, with a symbolic character in its name
        6 => {
            let c = if n <= 2 { chr(n) } else {
                some_char()
            };
            if n == 1 { let b = c.as_bytes()[0]; hv::assume((b != b':') & (b != b'/') & (b != b'.')); }
            name = same("n".into());
            loc = same(format!("d/a{}b:3", c));
            files = Some("");
        }
        // a file that exists, with markup in its path
        _ => {
            let x = ["(", ")", "()", ")(", "a)[b](c", "<b>", "&lt;", "*a*", "_a_", "`", "a b", "#1", "?x", "%20", "%"];
            let f = x[hv::choose(x.len())];
            name = same("n".into());
            loc = same(if hv::flag() { format!("{}/a:12", f) } else { format!("{}:12", f) });
            files = Some("");
        }
    }
    let root = hv::ROOT;
    if files.is_some() { let _ = e.init(false, &[&format!("file://{}", root)]); }
    let f = Fr { name: Some(name.1.clone()), loc: Some(loc.1.clone()) };
    let target = |p: &str| if files.is_some() { Some(format!("{}/{}", root, p)) } else { None };
    let s = shown(&f, target);
    if let Some(t) = &s.target { hv::file(t); }
    let v = format!("[\"{}\", \"{}\"]", name.0, loc.0);
    let other = "[\"k\", \"z.c:4\"]".to_string();
    let o = shown(&Fr { name: Some("k".into()), loc: Some("z.c:4".into()) }, |_| None);
    let p = doc(&mut d, &[v, other]);
    e.open(&d.text);
    check(e, p, Some(&[s, o]));
}
