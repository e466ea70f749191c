//! Syntax diagnostics: none for documents of the grammar, at least one otherwise, and
//! the statements around an error stay usable.
use crate::doc::*;
use crate::ed::*;
use crate::grammar::*;
use crate::oracle::*;
use crate::{hv, LanguageServer};
use lsp_types::*;

const FORMS: [&[&str]; 9] = [
    &["@v", "=", "int8", "[", "0", ",", "4", "]", "\n"],
    &["declare", "void", "@d", "(", "int32", "%x", ",", "ptr", "%", ")", "=", "0x1f", "!f1", "\n"],
    &["declare", "exported", "pure", "int1", "@d", "(", ")", "\n"],
    &["define", "void", "@g", "(", "ptr", "%x", ")", "{", "\n", "b", ":", "\n", "ret", "!1", "\n", "}", "\n"],
    &["define", "ptr", "@g", "(", ")", "{", "\n", "nop", "7", "\n", "b", ":", "\n", "\n", "br", "c", "\n", "c", ":", "\n", "}", "\n"],
    &["define", "ptr", "@g", "(", ")", "{", "\n", "int32", "%y", "=", "saddbr", "int32", "1", ",", "cont", "=", "b", ",", "overflow", "=", "b", "!2", "\n", "}", "\n"],
    &["define", "int8", "@g", "(", ")", "{", "\n", "b", ":", "\n", "switch", "int32", "%y", ",", "default", "=", "b", ",", "int32", "0", "label", "=", "b", "\n", "ptr", "%p", "=", "phi", "[", "b", ",", "%y", "]", "\n", "}", "\n"],
    &["!1", "=", "{", "\"a\"", ":", "1", "}", "\n"],
    &["@v", "depends", "on", "@d", ",", "@e", "\n"],
];

fn is_syntax(g: &Diagnostic) -> bool {
    !(g.message.contains("undefined symbol") || g.message.contains("already defined") || g.message.contains("basic block references"))
}
pub fn syntax<S: LanguageServer>(e: &Editor<S>) -> Vec<Diagnostic> { e.diags().into_iter().filter(is_syntax).collect() }

/// A symbolic ASCII character which is a lexeme of its own between blanks.
fn lone() -> String {
    let c = hv::u8();
    hv::assume((c < 0x80) & (c != b'"') & (c != b' ') & (c != b'\t') & (c != b'\n') & (c != b'\r'));
    String::from(c as char)
}

/// One statement, changed in one place.
fn mutated(h: u32) -> Vec<String> {
    let form = FORMS[hv::param(0) as usize];
    let mut v: Vec<String> = form.iter().map(|s| s.to_string()).collect();
    let n = v.len();
    match h {
        0 => {}
        1 => { v.remove(hv::choose(n - 1)); }
        2 => { let i = hv::choose(n - 1); let x = v[i].clone(); v.insert(i, x); }
        3 => { let i = hv::choose(n - 1); v[i] = lone(); }
        4 => { let i = hv::choose(n); v.insert(i, lone()); }
        5 => { v.truncate(1 + hv::choose(n - 1)); }
        6 => { let i = hv::choose(n - 2); v.swap(i, i + 1); }
        // a string without an end
        8 => { v.insert(hv::choose(n), "\"".to_string()); }
        // a character that the language does not know
        9 => {
            let c = ["\u{a0}", "\u{85}", "\u{2028}", "\u{3000}", "\u{feff}", "\u{200b}", "\u{20ac}", "\u{1f600}", "\u{b2}", "\u{201c}"][hv::choose(10)];
            v.insert(hv::choose(n), c.to_string());
        }
        // a word of any letters
        _ => {
            let i = hv::choose(n - 1);
            let mut w = String::new();
            for _ in 0..4 + hv::choose(4) { w.push(letter()); }
            v[i] = w;
        }
    }
    v
}

fn known(d: &mut Doc) {
    d.fun("@zz", &["%u"]);
    d.blk("k");
    d.ins(); d.a("call "); d.o(K::Func, Use, "@aa"); d.a("("); d.usev("%u"); d.a(")"); d.fin();
    d.br("k");
    d.end();
}

/// Two faulty statements, with correct ones before, in between and after.
fn two<S: LanguageServer>(e: &Editor<S>) {
    const BAD: [&str; 10] = [
        "declare void (int32 %x)\n", "@q 5\n", "define void @h(int32 %x) {\n", "!7 7\n", "5\n", "declare\n", "define\n", "}\n", "nop\n  ret\n", "$ @q = 1\n",
    ];
    let v = mutated(1);
    let t: Vec<T> = v.iter().map(|s| class(s)).collect();
    let want = accepts(&t);
    hv::assume(want.is_some());
    let want = want.unwrap();
    let mut d = Doc::new();
    d.var("@aa"); d.a("1"); d.nl();
    let a = d.pos();
    for (i, s) in v.iter().enumerate() {
        if i > 0 && s != "\n" && v[i - 1] != "\n" && s != ":" { d.a(" "); }
        if s == "\n" { d.nl(); } else { d.a(s); }
    }
    let b = d.pos();
    if hv::flag() { d.var("@bb"); d.a("2"); d.nl(); } else { d.decl("@bb"); d.nl(); }
    d.fun("@cc", &["%w"]);
    d.ins(); d.a("call "); d.o(K::Func, Use, "@bb"); d.a("("); d.usev("%w"); d.a(")"); d.fin();
    d.end();
    let f = d.pos();
    d.t(BAD[hv::choose(BAD.len())]);
    let g = d.pos();
    known(&mut d);
    d.resolve();
    e.open(&d.text);
    let got: Vec<R> = syntax(e).iter().map(|g| rng(&g.range)).collect();
    let within = |r: &R, x: P, y: P| (r.0, r.1) >= x && (r.0, r.1) <= y;
    if want { hv::reach(1) } else { hv::reach(2) }
    hv::check(got.iter().any(|r| within(r, a, b)) != want, 6);
    hv::check(got.iter().any(|r| within(r, f, g)), 7);
    hv::check(got.iter().all(|r| within(r, a, b) || within(r, f, g)), 8);
    hv::reach(3);
    let o = ["@aa", "%u", "k", "@bb", "%w"][hv::choose(5)];
    let o = d.occ.iter().find(|x| x.role == Use && x.name == o).unwrap().r;
    nav(e, &d, (o.0, o.1), false);
}

pub fn run<S: LanguageServer>(e: &Editor<S>, h: u32) {
    if h == 20 { return two(e); }
    let v = mutated(h % 10);
    // what follows a comment sign on its line is no lexeme
    let mut t: Vec<T> = vec![];
    let mut comment = false;
    for s in &v {
        let c = class(s);
        if c == T::Nl { comment = false; }
        if !comment { t.push(c.clone()); }
        if c == T::Comment { comment = true; }
    }
    let mut d = Doc::new();
    // correct statements follow, unless the text ends with the faulty one
    let around = h < 10 && h != 5;
    d.var("@aa"); d.a("1"); d.nl();
    if !around { known(&mut d); }
    let start = d.pos();
    let mut blank = " ";
    let mut tail = "";
    if h == 0 {
        d.crlf = hv::flag();
        blank = [" ", "\t", "   \t"][hv::choose(3)];
        tail = ["", " ", "\t # c }", "#"][hv::choose(4)];
    }
    for (i, s) in v.iter().enumerate() {
        if i > 0 && s != "\n" && v[i - 1] != "\n" && s != ":" { d.a(blank); }
        if s == "\n" { d.a(tail); d.nl(); } else if h % 10 == 9 { d.t(s); } else { d.a(s); }
    }
    let next = d.pos();
    let end = d.pos();
    if around { known(&mut d); }
    let want = if h % 10 == 8 { Some(false) } else { accepts(&t) };
    hv::assume(want.is_some());
    let want = want.unwrap();
    // an open comment or an accepted `= ...` without its line break would swallow what follows
    if around { hv::assume(!comment); }
    d.resolve();
    e.open(&d.text);
    let got = syntax(e);
    if want { hv::reach(1) } else { hv::reach(2) }
    hv::check(got.is_empty() == want, if want { 1 } else { 2 });
    for g in &got {
        let r = rng(&g.range);
        hv::check((r.0, r.1) <= (r.2, r.3), 3);
        let last = if around { next } else { end };
        if !around { hv::check((r.2, r.3) <= end, 4); }
        hv::check((r.0, r.1) >= start && (r.0, r.1) <= last, 5);
    }
    if !want {
        // the statements around the error are known
        hv::reach(3);
        let o = ["@aa", "%u", "k"][hv::choose(3)];
        let o = d.occ.iter().find(|x| x.role == Use && x.name == o).unwrap().r;
        nav(e, &d, (o.0, o.1), false);
    }
}
