//! Semantic tokens: every lexeme, exactly once, with its type.
use crate::doc::*;
use crate::ed::*;
use crate::{hv, LanguageServer};
use lsp_types::*;

const MOD: [&str; 6] = ["exported", "async", "memberfunc", "noreturn", "nosideeffects", "pure"];
const TYP: [&str; 10] = ["void", "int1", "int8", "int16", "int32", "int64", "float32", "float64", "data128", "ptr"];
/// The token type of a word.
fn word_type(w: &str) -> Option<&'static str> {
    if w == "declare" || w == "define" { return Some("keyword"); }
    if MOD.iter().any(|m| *m == w) { return Some("modifier"); }
    if TYP.iter().any(|m| *m == w) { return Some("type"); }
    None
}

struct Lex { d: Doc, want: Vec<(u32, u32, u32, &'static str)> }
impl Lex {
    fn new() -> Lex { Lex { d: Doc::new(), want: vec![] } }
    fn sep(&mut self, s: &str) { self.d.t(s); }
    fn tok(&mut self, s: &str, ty: Option<&'static str>) {
        let r = self.d.a(s);
        if let Some(ty) = ty { self.want.push((r.0, r.1, r.3 - r.1, ty)); }
    }
    /// A lexeme of UTF-16 length `n`.
    fn utok(&mut self, cs: &[&(String, u32)], ty: &'static str) {
        let p = self.d.pos();
        for c in cs { self.d.u(c); }
        let n = self.d.col - p.1;
        if n > 0 { self.want.push((p.0, p.1, n, ty)); }
    }
    fn any(&mut self) {
        const L: [(&str, Option<&str>); 22] = [
            ("7", Some("number")), ("120", Some("number")), ("0x1fB", Some("number")), ("\"a b\"", Some("string")), ("\"\"", Some("string")),
            ("%v_1", Some("variable")), ("%", Some("variable")), ("@n::m", Some("variable")), ("@", Some("variable")),
            ("!3", None), ("!f3", None), ("lbl", None), ("_x", None), ("declare", Some("keyword")), ("define", Some("keyword")),
            ("pure", Some("modifier")), ("data128", Some("type")), ("=", None), ("[", None), (":", None), ("ptr2", None), ("defin", None),
        ];
        let (t, k) = L[hv::choose(L.len())];
        self.tok(t, k);
    }
    fn comment(&mut self) { self.tok("# declare @x \"1", Some("comment")); }
}

fn check<S: LanguageServer>(e: &Editor<S>, l: &Lex, legend: &[SemanticTokenType]) {
    e.open(&l.d.text);
    let got = e.semantic_tokens();
    hv::check(got.is_some(), 1);
    let got = got.unwrap_or_default();
    if l.want.len() > 1 { hv::reach(1) }
    hv::check(got.len() == l.want.len(), 2);
    let (mut line, mut col) = (0u32, 0u32);
    for (g, w) in got.iter().zip(l.want.iter()) {
        if g.delta_line > 0 { col = 0; hv::reach(2) }
        line += g.delta_line;
        col += g.delta_start;
        hv::check((line, col, g.length) == (w.0, w.1, w.2), 3);
        hv::check(legend.get(g.token_type as usize).map_or(false, |t| t.as_str() == w.3), 4);
        hv::check(g.token_modifiers_bitset == 0, 5);
    }
}

const SEP: [&str; 6] = [" ", "\t", "\n", "\r\n", "  \n ", " \t "];
pub fn run<S: LanguageServer>(e: &Editor<S>, h: u32) {
    let init = e.init(false, &[]).unwrap();
    let legend = match init.capabilities.semantic_tokens_provider {
        Some(SemanticTokensServerCapabilities::SemanticTokensRegistrationOptions(o)) => o.semantic_tokens_options.legend.token_types,
        Some(SemanticTokensServerCapabilities::SemanticTokensOptions(o)) => o.legend.token_types,
        None => vec![],
    };
    let mut l = Lex::new();
    match h {
        // one word of up to 14 characters
        0 => {
            let n = 1 + hv::choose(14);
            let k = hv::choose(4);
            let mut w = String::new();
            for _ in 0..n { w.push(letter()); }
            for _ in 0..k { w.push(digit()); }
            let k = word_type(&w);
            if k.is_some() { hv::reach(10) } else { hv::reach(11) }
            l.tok("x", None); l.sep(" "); l.tok(&w, k); l.sep(" "); l.tok("int8", Some("type"));
        }
        // the reserved words themselves
        1 => {
            for w in MOD.iter().chain(TYP.iter()).chain(["declare", "define"].iter()) {
                l.tok(w, word_type(w)); l.sep(" ");
            }
        }
        // two lexemes of any kind and any white space
        2 => {
            l.sep(["", " ", "\n"][hv::choose(3)]);
            l.any();
            l.sep(SEP[hv::choose(SEP.len())]);
            l.any();
        }
        // three lexemes, with a comment
        3 => {
            l.any(); l.sep(" "); l.comment(); l.sep(["\n", "\r\n"][hv::choose(2)]); l.any();
            if hv::flag() { l.sep("\r\n"); l.comment(); if hv::flag() { l.sep("\n"); } }
        }
        // any characters inside a string or a comment
        4 => {
            let (a, b) = (anychar(), anychar());
            let q = ("\"".to_string(), 1);
            let hash = ("#".to_string(), 1);
            match hv::choose(4) {
                0 => { l.utok(&[&q, &a, &b, &q], "string"); l.sep(" "); l.any(); }
                1 => { l.utok(&[&hash, &a, &b], "comment"); l.sep("\r\n"); l.tok("%x", Some("variable")); }
                2 => { l.utok(&[&hash, &a, &b], "comment"); l.sep("\n"); l.tok("12", Some("number")); }
                _ => { l.tok("@g", Some("variable")); l.sep(" "); l.utok(&[&hash, &a, &b], "comment"); }
            }
        }
        // strings that span lines
        5 => {
            let q = ("\"".to_string(), 1);
            let a = anychar();
            let nl = ["\n", "\r\n"][hv::choose(2)];
            match hv::choose(3) {
                0 => { l.utok(&[&q, &a], "string"); l.sep(nl); l.utok(&[&q], "string"); }
                1 => { l.utok(&[&q], "string"); l.sep(nl); l.sep(nl); l.utok(&[&a, &q], "string"); }
                _ => { l.utok(&[&q], "string"); l.sep(nl); l.utok(&[&a, &a], "string"); l.sep(nl); l.utok(&[&a, &q], "string"); }
            }
            l.sep(" "); l.tok("%x", Some("variable")); l.sep("\n"); l.tok("pure", Some("modifier"));
        }
        // names of any characters
        6 => {
            let s = ["@", "%", "!"][hv::choose(3)];
            let mut n = String::from(s);
            for _ in 0..hv::choose(3) { n.push(namechar()); }
            match hv::choose(3) { 0 => {} 1 => { n.push(':'); n.push(namechar()); } _ => { n.push_str("::"); n.push(namechar()); n.push(namechar()); } }
            l.tok(&n, if s == "!" { None } else { Some("variable") });
            match hv::choose(4) { 0 => l.sep(" "), 1 => { l.tok(":", None); l.sep(" ") } 2 => l.tok(",", None), _ => l.tok("(", None) }
            l.tok("ptr", Some("type"));
        }
        // numbers
        7 => {
            let mut n = String::new();
            let hex = hv::flag();
            if hex { n.push_str("0x"); }
            let c = if hex { namechar() } else { digit() };
            hv::assume((c != '0') & c.is_ascii_hexdigit());
            n.push(c);
            for _ in 0..hv::choose(4) {
                let c = namechar();
                hv::assume(if hex { c.is_ascii_hexdigit() } else { c.is_ascii_digit() });
                n.push(c);
            }
            l.tok(&n, Some("number")); l.tok(",", None); l.tok("0", Some("number")); l.tok("]", None); l.sep(" "); l.tok("float64", Some("type"));
        }
        // short words of any characters
        8 => {
            let w = word(1 + hv::choose(5));
            let k = word_type(&w);
            l.tok(&w, k); l.sep(" "); l.tok("@y", Some("variable"));
        }
        // long lexemes
        10 => {
            let n = [6usize, 9, 16, 17, 20, 33, 64, 100, 255, 256, 300][hv::choose(11)];
            let w = |head: &str, c: &str, tail: &str| { let mut s = String::from(head); for _ in 0..n { s.push_str(c); } s.push_str(tail); s };
            l.tok("@a", Some("variable")); l.sep(" ");
            match hv::choose(10) {
                0 => l.tok(&w("1", "0", ""), Some("number")),
                1 => l.tok(&w("0x1", "f", ""), Some("number")),
                2 => l.tok(&w("%", "b", ""), Some("variable")),
                3 => l.tok(&w("@", "c::", "d"), Some("variable")),
                4 => l.tok(&w("!", "7", ""), None),
                5 => l.tok(&w("\"", " x", "\""), Some("string")),
                6 => l.tok(&w("e", "_", ""), None),
                7 => l.tok(&w("#", "#", ""), Some("comment")),
                8 => for _ in 0..n { l.tok("(", None); },
                _ => for _ in 0..n { l.tok("ptr", Some("type")); l.sep(" "); l.tok(",", None); },
            }
            l.sep("\n"); l.tok("declare", Some("keyword")); l.sep(" "); l.tok("int8", Some("type"));
        }
        // very far down and very far right
        12 => {
            l.tok("int1", Some("type"));
            match hv::choose(5) {
                0 => { for _ in 0..66000 { l.sep(" "); } }
                1 => { l.tok("\"", Some("string")); l.want.pop(); let (line, col) = l.d.pos(); for i in 0..66000u32 { l.d.nl(); l.want.push((line + i, if i == 0 { col - 1 } else { 0 }, if i == 0 { 1 } else { 0 }, "string")); } l.tok("\"", Some("string")); l.want.retain(|w| w.2 > 0); }
                2 => { let s = " ".repeat(66000); l.tok(&format!("\"{}\"", s), Some("string")); }
                3 => { let s = "#".repeat(66000); l.tok(&s, Some("comment")); l.sep("\n"); }
                _ => { let s = "b".repeat(66000); l.tok(&format!("%{}", s), Some("variable")); }
            }
            l.sep(" ");
            l.tok("@x", Some("variable")); l.sep("\n"); l.tok("void", Some("type"));
        }
        // characters that belong to no lexeme
        11 => {
            let bad = || {
                let c = hv::u8();
                hv::assume((c < 0x80) & !c.is_ascii_alphanumeric() & !b" \t\r\n\"#@%!_[]{}()<>=,;:*.".contains(&c));
                (c as char).to_string()
            };
            l.tok("@x", Some("variable"));
            l.sep([" ", "\n", "\t"][hv::choose(3)]);
            l.sep(&bad());
            match hv::choose(3) { 0 => {} 1 => l.sep(&bad()), _ => l.sep(" ") }
            if hv::flag() { l.any(); l.sep("\n"); l.tok("%y", Some("variable")); }
        }
        // far down and far right
        _ => {
            let n = [0usize, 1, 255, 256, 300][hv::choose(5)];
            for _ in 0..n { l.sep("\n"); }
            l.tok("int1", Some("type"));
            let n = [1usize, 250, 251, 252, 300][hv::choose(5)];
            for _ in 0..n { l.sep(" "); }
            l.any(); l.sep(" "); l.tok("@x", Some("variable")); l.sep("\n"); l.tok("void", Some("type"));
        }
    }
    check(e, &l, &legend);
}
