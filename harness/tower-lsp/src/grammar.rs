//! A reference recogniser for the statement grammar of Hyper IR.
#![allow(dead_code)]

#[derive(Clone, Debug, PartialEq)]
pub enum T { Nl, Num, Hex, Str, L, G, D, Ty, Id(String), Mod, P(u8), Declare, Define, Comment, Junk }
use T::*;

/// The class of a lexeme.
pub fn class(s: &str) -> T {
    let b = s.as_bytes();
    match b[0] {
        b'\n' | b'\r' => Nl,
        b'"' => Str,
        b'%' => L,
        b'@' => G,
        b'!' => D,
        b'#' => Comment,
        b'0' if b.len() > 1 && b[1] == b'x' => Hex,
        c if c.is_ascii_digit() => Num,
        c if c.is_ascii_alphabetic() | (c == b'_') => match s {
            "declare" => Declare,
            "define" => Define,
            "exported" | "async" | "memberfunc" | "noreturn" | "nosideeffects" | "pure" => Mod,
            "void" | "int1" | "int8" | "int16" | "int32" | "int64" | "float32" | "float64" | "data128" | "ptr" => Ty,
            _ => Id(s.to_string()),
        },
        c if b"[]{}()<>=,;:*.".iter().any(|x| *x == c) => P(c),
        _ => Junk,
    }
}

struct Rec<'a> { t: &'a [T], i: usize, unsure: bool }
impl<'a> Rec<'a> {
    fn peek(&self) -> Option<&'a T> { self.t.get(self.i) }
    fn eat(&mut self, x: &T) -> bool {
        if self.peek() == Some(x) { self.i += 1; true } else { false }
    }
    fn p(&mut self, c: u8) -> bool { self.eat(&P(c)) }
    fn id(&mut self) -> bool {
        if matches!(self.peek(), Some(Id(_))) { self.i += 1; true } else { false }
    }
    fn word(&mut self, w: &str) -> bool {
        match self.peek() { Some(Id(x)) if x == w => { self.i += 1; true } _ => false }
    }
    fn eol(&mut self) -> bool { self.peek().is_none() || self.eat(&Nl) }
    fn soup(&mut self) { while !matches!(self.peek(), None | Some(Nl)) { self.i += 1; } }
    fn sig(&mut self) -> bool {
        while self.eat(&Mod) {}
        if !(self.eat(&Ty) && self.eat(&G) && self.p(b'(')) { return false; }
        if self.p(b')') { return true; }
        loop {
            if !(self.eat(&Ty) && self.eat(&L)) { return false; }
            if self.p(b')') { return true; }
            if !self.p(b',') { return false; }
        }
    }
    /// One instruction up to (not including) its line break. What else the branches with
    /// named targets put up with is left open.
    fn instr(&mut self) -> bool {
        let save = self.i;
        let ok = self.any_instr();
        if !ok {
            let named = self.t[save..].iter().take_while(|t| **t != Nl).any(|t| match t { Id(x) => x == "switch" || x == "phi" || x.ends_with("br"), _ => false });
            let odd = self.t[save..].iter().take_while(|t| **t != Nl).any(|t| *t == D || *t == P(b':'));
            if named && odd { self.unsure = true; }
        }
        ok
    }
    fn any_instr(&mut self) -> bool {
        let save = self.i;
        if self.eat(&Ty) {
            if !(self.eat(&L) && self.p(b'=')) { self.i = save; return false; }
        }
        if !self.id() || self.peek() == Some(&P(b':')) { self.i = save; return false; }
        while !matches!(self.peek(), None | Some(Nl) | Some(D)) { self.i += 1; }
        self.eat(&D);
        if self.peek() == Some(&Nl) { true } else { self.i = save; false }
    }
    fn instrs(&mut self) -> usize {
        let mut n = 0;
        loop {
            let save = self.i;
            while self.eat(&Nl) {}
            if self.instr() { n += 1; while self.eat(&Nl) {} } else { self.i = save; return n; }
        }
    }
    fn stmt(&mut self) -> bool {
        if self.eat(&G) {
            if self.p(b'=') { self.soup(); return self.eol(); }
            if !(self.word("depends") && self.word("on")) { return false; }
            if self.eat(&G) {
                while self.p(b',') { if !self.eat(&G) { return false; } }
            }
            // what may follow on the same line is left open
            if !matches!(self.peek(), None | Some(Nl)) { self.unsure = true; }
            return true;
        }
        if self.eat(&D) {
            if !self.p(b'=') { return false; }
            self.soup();
            return self.eol();
        }
        if self.eat(&Declare) {
            if !self.sig() { return false; }
            if self.p(b'=') && !self.eat(&Hex) { return false; }
            self.eat(&D);
            return self.eol();
        }
        if self.eat(&Define) {
            if !(self.sig() && self.p(b'{') && self.eat(&Nl)) { return false; }
            while self.eat(&Nl) {}
            self.instrs();
            while self.eat(&Nl) {}
            while self.id() {
                if !(self.p(b':') && self.eat(&Nl)) { return false; }
                while self.eat(&Nl) {}
                self.instrs();
                while self.eat(&Nl) {}
            }
            return self.p(b'}') && self.eol();
        }
        false
    }
}
/// Whether a sequence of lexemes is a document; `None` where this is left open.
pub fn accepts(t: &[T]) -> Option<bool> {
    if t.iter().any(|x| *x == Junk) { return Some(false); }
    let t: Vec<T> = t.iter().filter(|x| **x != Comment).cloned().collect();
    let mut r = Rec { t: &t, i: 0, unsure: false };
    loop {
        while r.eat(&Nl) {}
        if r.peek().is_none() { return if r.unsure { None } else { Some(true) }; }
        if !r.stmt() { return if r.unsure { None } else { Some(false) }; }
    }
}
