//! Documents whose meaning is known by construction: while a text is put together,
//! every symbol occurrence, function, block and branch is written down.
#![allow(dead_code)]
use crate::ed::{P, R};
use crate::hv;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K { Var, Func, Dbg, Label, Local }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Role { Decl, Def, Use }
pub use Role::*;

#[derive(Clone, Debug)]
pub struct Occ {
    pub k: K,
    /// 0 = the whole document, otherwise the number of the function
    pub scope: usize,
    pub name: String,
    pub role: Role,
    pub r: R,
    /// Occurrences of one symbol share this number (set by `Doc::resolve`).
    pub id: usize,
}
/// A basic block.
#[derive(Clone, Debug, Default)]
pub struct Blk {
    pub label: Option<(String, R)>,
    /// just after the colon of the label
    pub colon: P,
    pub start: P,
    /// end of the last instruction (of the label, if there is none)
    pub end: P,
    pub instrs: usize,
    /// branch targets, in order
    pub outs: Vec<String>,
    /// names of branch / phi instructions without recognisable targets
    pub bad: Vec<R>,
}
/// A function definition.
#[derive(Clone, Debug, Default)]
pub struct Fun {
    pub name: String,
    pub name_r: R,
    pub r: R,
    pub blks: Vec<Blk>,
}

#[derive(Default)]
pub struct Doc {
    pub text: String,
    pub line: u32,
    pub col: u32,
    pub occ: Vec<Occ>,
    pub func: usize,
    pub funs: Vec<Fun>,
    /// line break used by the structured methods (default "\n")
    pub crlf: bool,
    start: P,
}

impl Doc {
    pub fn new() -> Doc { Doc::default() }
    pub fn pos(&self) -> P { (self.line, self.col) }
    /// Concrete text; returns its range.
    pub fn t(&mut self, s: &str) -> R {
        let (l, c) = self.pos();
        for ch in s.chars() {
            if ch == '\n' {
                self.line += 1;
                self.col = 0;
            } else {
                self.col += ch.len_utf16() as u32;
            }
        }
        self.text.push_str(s);
        (l, c, self.line, self.col)
    }
    pub fn nl(&mut self) {
        self.text.push_str(if self.crlf { "\r\n" } else { "\n" });
        self.line += 1;
        self.col = 0;
    }
    /// Text of ASCII characters without line breaks (may be symbolic); returns its range.
    pub fn a(&mut self, s: &str) -> R {
        let (l, c) = self.pos();
        self.text.push_str(s);
        self.col += s.len() as u32;
        (l, c, l, self.col)
    }
    /// A (symbolic) character other than a line break, with its length in UTF-16 units.
    pub fn u(&mut self, c: &(String, u32)) {
        self.text.push_str(&c.0);
        self.col += c.1;
    }
    /// A symbol occurrence. Names are ASCII here (may be symbolic).
    pub fn o(&mut self, k: K, role: Role, name: &str) -> R {
        let r = self.a(name);
        self.note(k, role, name, r);
        r
    }
    /// A symbol occurrence with a concrete name of any characters.
    pub fn ou(&mut self, k: K, role: Role, name: &str) -> R {
        let r = self.t(name);
        self.note(k, role, name, r);
        r
    }
    fn note(&mut self, k: K, role: Role, name: &str, r: R) {
        let scope = if k == K::Label || k == K::Local { self.func } else { 0 };
        self.occ.push(Occ { k, scope, name: name.to_string(), role, r, id: 0 });
    }

    // ---- statements
    pub fn var(&mut self, name: &str) { self.o(K::Var, Def, name); self.a(" = "); }
    /// `declare void NAME(int32 %x)`, without the line break
    pub fn decl(&mut self, name: &str) {
        self.a("declare void ");
        self.o(K::Func, Decl, name);
        self.a("(int32 %x)");
    }
    /// `define void NAME(int32 ARG, ...) {`
    pub fn fun(&mut self, name: &str, args: &[&str]) {
        let s = self.pos();
        self.func = self.funs.len() + 1;
        self.a("define void ");
        let name_r = self.o(K::Func, Def, name);
        self.a("(");
        for (i, x) in args.iter().enumerate() {
            self.a(if i == 0 { "int32 " } else { ", ptr " });
            self.o(K::Local, Def, x);
        }
        self.a(") {");
        self.nl();
        self.funs.push(Fun { name: name.to_string(), name_r, r: (s.0, s.1, 0, 0), blks: vec![] });
    }
    pub fn end(&mut self) {
        self.a("}");
        let p = self.pos();
        let f = self.funs.last_mut().unwrap();
        f.r.2 = p.0;
        f.r.3 = p.1;
        self.func = 0;
        self.nl();
    }
    pub fn blk(&mut self, label: &str) {
        let r = self.o(K::Label, Def, label);
        self.a(":");
        let colon = self.pos();
        self.nl();
        self.funs.last_mut().unwrap().blks.push(Blk { label: Some((label.to_string(), r)), colon, start: (r.0, r.1), end: (r.2, r.3), ..Default::default() });
    }
    /// Starts an instruction; `fin` ends it.
    pub fn ins(&mut self) {
        self.a("  ");
        self.start = self.pos();
        let s = self.start;
        let f = self.funs.last_mut().unwrap();
        if f.blks.is_empty() {
            f.blks.push(Blk { start: s, ..Default::default() });
        }
    }
    pub fn fin(&mut self) {
        let p = self.pos();
        let b = self.funs.last_mut().unwrap().blks.last_mut().unwrap();
        b.instrs += 1;
        b.end = p;
        self.nl();
    }
    /// Ends an instruction that is followed by a comment.
    pub fn fin_comment(&mut self, c: &str) {
        let p = self.pos();
        self.a(c);
        self.fin();
        self.funs.last_mut().unwrap().blks.last_mut().unwrap().end = p;
    }
    pub fn out(&mut self, l: &str) -> R {
        self.funs.last_mut().unwrap().blks.last_mut().unwrap().outs.push(l.to_string());
        self.o(K::Label, Use, l)
    }
    /// An instruction without any symbols.
    pub fn plain(&mut self, s: &str) { self.ins(); self.a(s); self.fin(); }
    pub fn assign(&mut self, x: &str) { self.a("int32 "); self.o(K::Local, Def, x); self.a(" = "); }
    pub fn usev(&mut self, x: &str) { self.a("int32 "); self.o(K::Local, Use, x); }
    pub fn br(&mut self, l: &str) { self.ins(); self.a("br "); self.out(l); self.fin(); }
    pub fn condbr(&mut self, x: &str, a: &str, b: &str) {
        self.ins();
        self.a("br int1 ");
        self.o(K::Local, Use, x);
        self.a(", ");
        self.out(a);
        self.a(", ");
        self.out(b);
        self.fin();
    }
    pub fn ovf(&mut self, x: &str, y: &str, a: &str, b: &str) {
        self.ins();
        self.assign(x);
        self.a("saddbr ");
        self.usev(y);
        self.a(", int32 1, cont=");
        self.out(a);
        self.a(", overflow=");
        self.out(b);
        self.fin();
    }
    pub fn switch(&mut self, x: &str, def: &str, cases: &[&str]) {
        self.ins();
        self.a("switch ");
        self.usev(x);
        self.a(", default=");
        self.out(def);
        for c in cases {
            self.a(", int32 7 label=");
            self.out(c);
        }
        self.fin();
    }
    pub fn phi(&mut self, x: &str, ls: &[&str]) {
        self.ins();
        self.assign(x);
        self.a("phi ");
        for (i, l) in ls.iter().enumerate() {
            self.a(if i == 0 { "[" } else { ", [" });
            self.o(K::Label, Use, l);
            self.a(", int32 3]");
        }
        self.fin();
    }
    /// A branching (or phi) instruction whose targets cannot be recognised.
    pub fn bad(&mut self, name: &str, rest: &str) {
        self.ins();
        let r = self.a(name);
        self.a(rest);
        self.funs.last_mut().unwrap().blks.last_mut().unwrap().bad.push(r);
        self.fin();
    }

    fn space(k: K) -> u8 { match k { K::Var | K::Func => 0, K::Dbg => 1, K::Label => 2, K::Local => 3 } }
    /// Decides which occurrences name the same symbol. Global names: functions and
    /// variables share one namespace; a document where one name is both is excluded.
    pub fn resolve(&mut self) {
        for i in 0..self.occ.len() {
            let mut id = i;
            for j in 0..i {
                let (a, b) = (&self.occ[i], &self.occ[j]);
                if b.id != j || Self::space(a.k) != Self::space(b.k) || a.scope != b.scope {
                    continue;
                }
                if a.name == b.name {
                    id = j;
                    break;
                }
            }
            self.occ[i].id = id;
        }
        for i in 0..self.occ.len() {
            for j in 0..i {
                let (a, b) = (&self.occ[i], &self.occ[j]);
                if a.id == b.id && a.role != Use && b.role != Use {
                    hv::assume(a.k == b.k);
                }
            }
        }
    }
    pub fn ranges(&self, id: usize, role: Role) -> Vec<R> {
        self.occ.iter().filter(|o| o.id == id && o.role == role).map(|o| o.r).collect()
    }
    pub fn all(&self, id: usize) -> Vec<R> { self.occ.iter().filter(|o| o.id == id).map(|o| o.r).collect() }
    /// The occurrence under a cursor.
    pub fn under(&self, p: P) -> Option<&Occ> {
        self.occ.iter().find(|o| p.0 == o.r.0 && p.1 >= o.r.1 && p.1 < o.r.3)
    }
    /// Any occurrence, and any cursor on it.
    pub fn any(&self) -> (&Occ, P) {
        let n = self.occ.len();
        if n > 60 {
            // a large document: a few occurrences of every kind
            let mut few = vec![0, n / 3, n - 4, n - 2, n - 1];
            for (k, role) in [(K::Var, Def), (K::Func, Use), (K::Func, Def), (K::Dbg, Use), (K::Dbg, Def), (K::Label, Use), (K::Label, Def), (K::Local, Use), (K::Local, Def)] {
                if let Some(i) = self.occ.iter().rposition(|o| o.k == k && o.role == role) { few.push(i); }
            }
            // and the symbol of each kind that occurs most often
            let mut count = vec![0; n];
            for o in &self.occ { count[o.id] += 1; }
            for k in [K::Var, K::Func, K::Label, K::Local] {
                let mut best: Option<usize> = None;
                for i in 0..n { if self.occ[i].k == k && best.map_or(true, |b| count[self.occ[i].id] > count[self.occ[b].id]) { best = Some(i); } }
                few.extend(best);
            }
            let o = &self.occ[few[hv::choose(few.len())]];
            return (o, (o.r.0, if hv::flag() { o.r.1 } else { o.r.3 - 1 }));
        }
        let o = &self.occ[hv::choose(n)];
        (o, on(o.r))
    }
    /// The kind of symbol an id stands for: what its definitions / declarations say.
    pub fn kind(&self, id: usize) -> K {
        self.occ.iter().find(|o| o.id == id && o.role != Use).map_or_else(|| {
            let k = self.occ[id].k;
            if k == K::Func { K::Var } else { k }
        }, |o| o.k)
    }
}

/// Any cursor on the characters of a range within one line.
pub fn on(r: R) -> P {
    if r.3 == r.1 + 1 {
        return (r.0, r.1);
    }
    let c = hv::u32();
    hv::assume((c >= r.1) & (c < r.3));
    (r.0, c)
}

/// Equality of two lists up to order.
pub fn same<T: PartialEq>(a: &[T], b: &[T]) -> bool { same_by(a, b, |x, y| x == y) }
pub fn same_by<T, U>(a: &[T], b: &[U], eq: impl Fn(&T, &U) -> bool) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut used = vec![false; b.len()];
    for x in a {
        let mut hit = false;
        for (i, y) in b.iter().enumerate() {
            if !used[i] && eq(x, y) {
                used[i] = true;
                hit = true;
                break;
            }
        }
        if !hit {
            return false;
        }
    }
    true
}

/// A symbolic letter.
pub fn letter() -> char {
    let c = hv::u8();
    hv::assume((c >= b'a') & (c <= b'z'));
    c as char
}
/// A symbolic character that may occur anywhere after the sigil of a name.
pub fn namechar() -> char {
    let c = hv::u8();
    hv::assume(c.is_ascii_alphanumeric() | (c == b'_'));
    c as char
}
pub fn digit() -> char {
    let c = hv::u8();
    hv::assume((c >= b'0') & (c <= b'9'));
    c as char
}
/// `prefix` followed by one symbolic letter.
pub fn s1(prefix: &str) -> String {
    let mut s = String::from(prefix);
    s.push(letter());
    s
}

/// A fixed document with every kind of symbol, for cursors anywhere.
pub fn all_kinds(crlf: bool) -> Doc {
    let mut d = Doc::new();
    d.crlf = crlf;
    d.var("@v"); d.a("1"); d.nl();
    d.decl("@d"); d.nl();
    d.nl();
    d.fun("@f", &["%x"]);
    d.blk("lbl");
    d.ins(); d.assign("%yy"); d.a("call "); d.o(K::Func, Use, "@d"); d.a("("); d.o(K::Func, Use, "@v"); d.a(", "); d.usev("%x"); d.a(") "); d.o(K::Dbg, Use, "!1"); d.fin();
    d.br("lbl");
    d.end();
    d.o(K::Dbg, Def, "!1"); d.a(" = 5");
    d
}

// ------------------------------------------------------------------ document families
/// Documents with symbolic names; every property that talks about symbols runs on them.
pub const FAMILIES: u32 = 8;
pub fn family(n: u32) -> Doc {
    let mut d = Doc::new();
    match n {
        // local names in two functions
        0 => {
            d.fun("@f", &[&s1("%")]);
            d.ins(); d.assign(&s1("%")); d.a("add "); d.usev(&s1("%")); d.a(", int32 1"); d.fin();
            d.plain("ret");
            d.end();
            d.var("@k"); d.a("%q"); d.nl();
            d.fun("@g", &[&s1("%")]);
            d.blk("b");
            d.ins(); d.a("ret "); d.usev(&s1("%")); d.fin();
            d.end();
        }
        // global variables, declared and defined functions, dependencies
        1 => {
            d.var(&s1("@")); d.a("1"); d.nl();
            d.decl(&s1("@")); d.nl();
            d.fun(&s1("@"), &[]);
            d.blk("b");
            d.ins(); d.a("call "); d.o(K::Func, Use, &s1("@")); d.a("(ptr "); d.o(K::Func, Use, "@z"); d.a(")"); d.fin();
            d.end();
            d.o(K::Func, Use, "@z"); d.a(" depends on "); d.o(K::Func, Use, &s1("@")); d.nl();
        }
        // labels of branches and conditional branches in two functions
        2 => {
            d.fun("@f", &["%x"]);
            d.blk(&s1(""));
            d.condbr("%x", &s1(""), "m");
            d.blk("m");
            d.br(&s1(""));
            d.end();
            d.fun("@g", &[]);
            d.blk(&s1(""));
            d.br(&s1(""));
            d.end();
        }
        // labels of overflow branches, switches and phis
        3 => {
            let w = s1("");
            d.fun("@f", &["%x"]);
            d.blk(&w);
            d.ovf("%y", "%x", &s1(""), "k");
            d.blk("k");
            d.switch("%x", "m", &["k", &s1("")]);
            d.blk("m");
            d.phi("%p", &[&w, "k"]);
            d.end();
        }
        // debug references
        4 => {
            d.decl("@e"); d.a(" = 0x1f "); d.o(K::Dbg, Use, &s1("!")); d.nl();
            d.fun("@f", &[]);
            d.blk("b");
            d.ins(); d.a("call "); d.o(K::Func, Use, "@e"); d.a("() "); d.o(K::Dbg, Use, &s1("!")); d.fin();
            d.ins(); d.a("ret "); d.o(K::Dbg, Use, "!7"); d.fin();
            d.end();
            d.o(K::Dbg, Def, &s1("!")); d.a(" = {\"a\": 1}"); d.nl();
            d.o(K::Dbg, Def, &s1("!")); d.a(" = \"x\""); d.nl();
            d.o(K::Dbg, Def, "!7"); d.a(" = 1"); d.nl();
        }
        // longer names of every character a name may contain
        5 => {
            let mut a = String::from("%a");
            a.push(namechar());
            a.push('b');
            let mut b = String::from("%a");
            b.push(namechar());
            b.push('b');
            let mut c = String::from("@n::");
            c.push(namechar());
            let mut u = String::from("@n::");
            u.push(namechar());
            d.fun(&c, &[&a]);
            d.ins(); d.a("call "); d.o(K::Func, Use, &u); d.a("("); d.usev(&b); d.a(")"); d.fin_comment("  # %a0b @n::x");
            d.end();
        }
        // duplicate definitions of everything, two functions with one name
        6 => {
            let f = s1("@");
            let g = s1("@");
            d.fun(&f, &["%x", &s1("%")]);
            d.blk("a");
            d.ins(); d.assign(&s1("%")); d.a("load "); d.usev("%x"); d.fin();
            d.blk(&s1(""));
            d.br("a");
            d.end();
            d.fun(&g, &["%x"]);
            d.blk("a");
            d.ins(); d.a("ret "); d.usev("%x"); d.fin();
            d.end();
            d.var("@v"); d.a("1"); d.nl();
            d.var("@v"); d.o(K::Func, Use, &f); d.nl();
        }
        // any sequence of statements / of instructions, labels and functions
        8 => globals(&mut d, hv::param(0)),
        9 => locals(&mut d, hv::param(0)),
        10 => big(&mut d, hv::param(0) as usize),
        11 => far(&mut d, hv::param(0) as usize, hv::param(1) == 1),
        // declared and defined, used before the definition, functions around annotations
        _ => {
            let f = s1("@");
            d.fun("@m", &[]);
            d.ins(); d.a("call "); d.o(K::Func, Use, &s1("@")); d.a("()"); d.fin();
            d.end();
            d.nl();
            d.decl(&f); d.nl();
            d.decl(&s1("@")); d.nl();
            d.fun(&f, &["%"]);
            d.plain("ret void");
            d.end();
        }
    }
    d
}

/// Any sequence of `n` statements over two names of each kind.
fn globals(d: &mut Doc, n: u32) {
    for i in 0..n {
        let c = hv::choose(14);
        let (f, v, a) = if c % 2 == 0 { ("@f1", "@v1", "!1") } else { ("@f2", "@v2", "!2") };
        let other = if c % 2 == 0 { "@f2" } else { "@f1" };
        match c / 2 {
            0 => { d.var(v); d.a("1"); d.nl(); }
            1 => { d.decl(f); d.nl(); }
            2 => { d.fun(f, &[]); d.end(); }
            3 => { d.var(&format!("@w{}", i)); d.o(K::Func, Use, f); d.nl(); }
            4 => { d.o(K::Func, Use, f); d.a(" depends on "); d.o(K::Func, Use, v); d.a(", "); d.o(K::Func, Use, other); d.nl(); }
            5 => { d.decl(&format!("@e{}", i)); d.a(" "); d.o(K::Dbg, Use, a); d.nl(); }
            _ => { d.o(K::Dbg, Def, a); d.a(" = 5"); d.nl(); }
        }
    }
}
/// A function (or several) of any `n` pieces over two names of each kind.
fn locals(d: &mut Doc, n: u32) {
    d.fun("@f1", &["%v1"]);
    for _ in 0..n {
        let c = hv::choose(18);
        let (f, v, l, a) = if c % 2 == 0 { ("@f1", "%v1", "b1", "!1") } else { ("@f2", "%v2", "b2", "!2") };
        let (w, m) = if c % 2 == 0 { ("%v2", "b2") } else { ("%v1", "b1") };
        match c / 2 {
            0 => { d.ins(); d.assign(v); d.a("load "); d.usev(w); d.fin(); }
            1 => d.blk(l),
            2 => d.br(l),
            3 => { d.ins(); d.a("call "); d.o(K::Func, Use, f); d.a("("); d.usev(v); d.a(")"); d.fin(); }
            4 => d.phi("%v3", &[l, m]),
            5 => d.condbr(v, l, m),
            6 => { d.end(); d.fun(f, &[v]); }
            7 => { d.ins(); d.a("ret "); d.o(K::Dbg, Use, a); d.fin_comment(" # b1 %v1"); }
            _ => { if c == 16 { d.a("  # b1: br b1 %v1"); } d.nl(); }
        }
    }
    d.end();
}

/// A large document: `n` of everything.
fn big(d: &mut Doc, n: usize) {
    for i in 0..n { d.var(&format!("@v{}", i)); d.a("\"value\""); d.nl(); }
    for _ in 0..n / 4 { d.decl("@callee"); d.nl(); d.var("@twin"); d.a("1"); d.nl(); }
    let args: Vec<String> = (0..n).map(|i| format!("%arg{}", i)).collect();
    d.fun("@big", &args.iter().map(|s| &s[..]).collect::<Vec<_>>());
    let blocks: Vec<String> = (0..n).map(|i| format!("block{}", i)).collect();
    d.plain("nop");
    d.blk("start");
    d.switch("%arg0", "block0", &blocks.iter().map(|s| &s[..]).collect::<Vec<_>>());
    for i in 0..n {
        d.blk(&blocks[i]);
        d.ins(); d.assign(&format!("%x{}", i)); d.a("call "); d.o(K::Func, Use, "@callee"); d.a("("); d.usev("%arg0"); d.a(", ptr "); d.o(K::Func, Use, &format!("@v{}", i)); d.a(") "); d.o(K::Dbg, Use, &format!("!{}", i)); d.fin();
        d.br(if i % 2 == 0 { "block0" } else { &blocks[n - 1 - i / 2] });
    }
    for i in 0..n { d.plain(&format!("nop {}", i)); }
    d.end();
    for i in 0..n { d.o(K::Dbg, Def, &format!("!{}", i)); d.a(" = 5"); d.nl(); }
    for i in 0..n { d.fun(&format!("@f{}", i), &["%x"]); d.ins(); d.a("ret "); d.usev("%x"); d.fin(); d.end(); }
    // one duplicate symbol and one of any name at the very end
    d.fun("@f0", &["%y"]);
    d.ins(); d.a("ret "); d.usev(&s1("%")); d.fin();
    d.end();
}
/// Symbols far down (behind `n` lines) or far right (behind `n` characters).
fn far(d: &mut Doc, n: usize, right: bool) {
    d.var("@v"); d.a("1"); d.nl();
    d.fun("@f", &["%x"]);
    d.ins(); d.a("call \"");
    if right { d.a(&"s".repeat(n)); } else { d.t(&"\n".repeat(n)); }
    d.a("\", "); d.usev(&s1("%")); d.a(", "); d.o(K::Func, Use, "@v"); d.fin();
    d.blk("b");
    d.br("b");
    d.end();
    d.var("@v"); d.usev("%x"); d.nl();
    d.occ.pop();
}

/// Any Unicode scalar value except the ASCII control characters and `"`, as a string;
/// the second component is its length in UTF-16 units.
pub fn anychar() -> (String, u32) { anychar_n(1 + hv::choose(4)) }
/// ... of `n` bytes in UTF-8
pub fn anychar_n(n: usize) -> (String, u32) {
    let mut b = vec![hv::u8()];
    for _ in 1..n {
        let c = hv::u8();
        hv::assume((c >= 0x80) & (c <= 0xbf));
        b.push(c);
    }
    let a = b[0];
    match n {
        1 => hv::assume((a >= 0x20) & (a < 0x7f) & (a != b'"')),
        2 => hv::assume((a >= 0xc2) & (a <= 0xdf)),
        3 => hv::assume((a >= 0xe0) & (a <= 0xef) & ((a != 0xe0) | (b[1] >= 0xa0)) & ((a != 0xed) | (b[1] < 0xa0))),
        _ => hv::assume((a >= 0xf0) & (a <= 0xf4) & ((a != 0xf0) | (b[1] >= 0x90)) & ((a != 0xf4) | (b[1] < 0x90))),
    }
    (unsafe { String::from_utf8_unchecked(b) }, if n == 4 { 2 } else { 1 })
}
/// `n` characters that may each be any name character, the first of them a letter.
pub fn word(n: usize) -> String {
    let mut s = String::new();
    s.push(letter());
    for _ in 1..n {
        s.push(namechar());
    }
    s
}
/// A character of 2-4 bytes, the last of which is symbolic: U+0080-00FF, U+2000-203F, U+3000-303F,
/// U+FF00-FF3F, U+1F600-1F63F.
pub fn some_char() -> String {
    let mut b: Vec<u8> = [&[0xc2u8][..], &[0xc3], &[0xe2, 0x80], &[0xe3, 0x80], &[0xef, 0xbc], &[0xf0, 0x9f, 0x98]][hv::choose(6)].to_vec();
    let x = hv::u8();
    hv::assume((x >= 0x80) & (x < 0xc0));
    b.push(x);
    unsafe { String::from_utf8_unchecked(b) }
}
