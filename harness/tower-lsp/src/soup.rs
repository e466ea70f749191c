//! Texts that need not be well-formed.
#![allow(dead_code)]
use crate::doc::*;
use crate::hv;

pub const LEX: [&str; 24] = [
    "\n", "@a", "=", "declare", "define", "void", "(", ")", "{", "}", "%x", "b", ":", "br", "switch", "phi", "[", "]", ",", "!1", "#", "0x1", "\"{", "\u{e4}$",
];
/// Texts in which the interesting part is inserted.
pub const CTX: [(&str, &str); 6] = [
    ("", ""),
    ("define void @f() {\n", "\n}\n"),
    ("define void @f(int32 %x) {\nb:\n  ", "\n}\n!1 = 5\n"),
    ("declare void @f(", ")\n@g = 1\n"),
    ("@v = 5\n!1 = ", "\n"),
    ("define void @f() {\nb:\n  br ", "\n"),
];
/// A document with one construct of every kind.
pub const FULL: &str = "@v1 = \"\u{e4}\" # c\ndeclare pure int8 @d(ptr %) = 0x1f !1\ndefine void @f(int32 %x, ptr %y1) {\n  nop\nb:\n  int32 %z = saddbr int32 %x, int32 1, cont=b, overflow=c !1\nc:\n  switch int32 %x, default=b, int32 0 label=c\n  int8 %p = phi [b, int32 %x]\n  br int1 %z, b, c\r\n}\n@d depends on @f, @v1\n!1 = {\"backtrace\": [[\"a\", \"b:1\"]], \"file\": \"x\"}\n";

/// A symbolic ASCII character.
pub fn ascii(s: &mut String) {
    let c = hv::u8();
    hv::assume(c < 0x80);
    s.push(c as char);
}
/// Any character of `n` bytes in UTF-8, control characters and quotes included.
pub fn any(s: &mut String, n: usize) {
    if n == 1 { ascii(s) } else { s.push_str(&anychar_n(n).0) }
}
/// `n` lexemes in a context.
pub fn lexemes(n: usize, ctx: usize) -> String {
    let (a, b) = CTX[ctx];
    let mut s = String::from(a);
    for _ in 0..n {
        s.push_str(LEX[hv::choose(LEX.len())]);
        s.push(' ');
    }
    s.push_str(b);
    s
}
/// A prefix of the document with every construct.
pub fn prefix() -> String {
    let cs: Vec<char> = FULL.chars().collect();
    let k = hv::choose(cs.len() / 2 + 1) * 2 + hv::choose(2);
    hv::assume(k <= cs.len());
    cs[..k].iter().collect()
}
/// The document with one character (at places `rest` modulo `parts`) replaced by any ASCII character, or removed;
/// returns the place as well.
pub fn damaged(parts: usize, rest: usize) -> (String, usize) {
    let cs: Vec<char> = FULL.chars().collect();
    let k = hv::choose(cs.len() / parts + 1) * parts + rest;
    hv::assume(k < cs.len());
    let mut s: String = cs[..k].iter().collect();
    if hv::flag() { ascii(&mut s) }
    s.extend(&cs[k + 1..]);
    (s, k)
}
