//! The answers about any text, well-formed or not, agree with the text and with each other.
use crate::doc::*;
use crate::ed::*;
use crate::oracle::*;
use crate::soup::*;
use crate::{hv, LanguageServer};
use serde_json::{json, Value};

pub fn run<S: LanguageServer>(e: &Editor<S>, h: u32) {
    let n = hv::param(0) as usize;
    let (what, text) = (h % 10, h / 10);
    let mut near = None;
    let s = match text {
        0 => lexemes(n, hv::param(1) as usize),
        1 => prefix(),
        2 => {
            let (s, k) = damaged(hv::param(1) as usize, hv::param(2) as usize);
            near = Some(FULL.chars().take(k).filter(|c| *c == '\n').count());
            s
        }
        3 => {
            let (a, b) = CTX[hv::choose(CTX.len())];
            let mut s = String::from(a);
            any(&mut s, n);
            s.push_str(b);
            s
        }
        _ => {
            let mut s = FULL.to_string();
            s.push_str(LEX[hv::choose(LEX.len())]);
            s
        }
    };
    e.open(&s);
    let t = Text::new(&s);
    match what {
        0 => document(e, &t),
        1 => symbol(e, &t, (hv::u32(), hv::u32())),
        _ => {
            // the first or second character of any word (of the damaged line, if one is)
            let mut at = vec![];
            for (i, l) in t.0.iter().enumerate() {
                if what == 2 && near.map_or(false, |n| n != i) { continue; }
                let mut word = false;
                for (j, c) in l.iter().enumerate() {
                    let w = *c == 95 || *c == 58 || *c > 127 || (*c as u8).is_ascii_alphanumeric();
                    if !word || !w { at.push((i as u32, j as u32)); }
                    word = w || [64, 37, 33].contains(c);
                }
            }
            hv::assume(!at.is_empty());
            symbol(e, &t, at[hv::choose(at.len())])
        }
    }
}

/// The lines of a text in UTF-16 code units, and the line breaks between them.
struct Text(Vec<Vec<u16>>, Vec<String>);
impl Text {
    fn new(s: &str) -> Text {
        let mut v = vec![vec![]];
        let mut br: Vec<String> = vec![];
        let mut cr = false;
        for c in s.chars() {
            if c == '\n' && cr { cr = false; br.last_mut().unwrap().push(c); continue; }
            cr = c == '\r';
            if c == '\n' || cr { v.push(vec![]); br.push(c.to_string()); continue; }
            let mut b = [0; 2];
            v.last_mut().unwrap().extend_from_slice(c.encode_utf16(&mut b));
        }
        Text(v, br)
    }
    /// A position of the text, the end of a line with a line break included.
    fn has(&self, p: P) -> bool {
        self.0.get(p.0 as usize).map_or(false, |l| {
            let c = p.1 as usize;
            c <= l.len() && (c == 0 || c == l.len() || !(0xdc00..0xe000).contains(&l[c]))
        })
    }
    fn holds(&self, r: R) -> bool { (r.0, r.1) <= (r.2, r.3) && self.has((r.0, r.1)) && self.has_end((r.2, r.3)) }
    /// An end may also lie behind the line break of its line.
    fn has_end(&self, p: P) -> bool {
        self.has(p) || self.0.get(p.0 as usize).map_or(false, |l| p.0 as usize + 1 < self.0.len() && p.1 as usize <= l.len() + 2)
    }
    /// The text of a range within a line.
    fn get(&self, r: R) -> Option<String> {
        if r.0 != r.2 || r.1 > r.3 || !self.has((r.0, r.1)) || !self.has((r.2, r.3)) { return None; }
        String::from_utf16(&self.0[r.0 as usize][r.1 as usize..r.3 as usize]).ok()
    }
}

/// What is said about the document as a whole. Codes 110-125.
fn document<S: LanguageServer>(e: &Editor<S>, t: &Text) {
    for x in e.symbols().unwrap_or_default() {
        hv::reach(110);
        let (r, n) = (rng(&x.range), rng(&x.selection_range));
        hv::check(t.holds(r), 110);
        hv::check((r.0, r.1) <= (n.0, n.1) && (n.2, n.3) <= (r.2, r.3), 111);
        hv::check(t.get(n).as_ref() == Some(&x.name), 112);
    }
    for l in e.lenses().unwrap_or_default() {
        hv::reach(111);
        let c = l.command.clone();
        let name = match c.as_ref().and_then(|c| c.arguments.as_deref()) {
            Some([Value::String(_), Value::String(n)]) => Some(n.clone()),
            _ => None,
        };
        hv::check(name.is_some() && t.get(rng(&l.range)) == name, 113);
        e.c.lock().unwrap().answer = Some(Ok(json!({})));
        let before = e.c.lock().unwrap().requests.len();
        hv::check(c.map_or(false, |c| e.command(&c.command, c.arguments.unwrap_or_default()).is_ok()), 114);
        hv::check(e.c.lock().unwrap().requests.len() == before + 1, 115);
        e.c.lock().unwrap().answer = None;
    }
    for f in e.folding().unwrap_or_default() {
        hv::reach(112);
        hv::check(f.start_line <= f.end_line && (f.end_line as usize) < t.0.len(), 116);
    }
    for x in e.hints().unwrap_or_default() {
        hv::reach(113);
        hv::check(t.has((x.position.line, x.position.character)), 117);
        for p in parts(&x) {
            if let Some(l) = &p.location {
                hv::check(l.uri.as_str() == e.uri.as_str() && t.get(rng(&l.range)).as_ref() == Some(&p.value), 118);
            }
        }
    }
    for d in e.diags() {
        hv::reach(114);
        let r = rng(&d.range);
        hv::check(t.holds(r), 119);
        for i in d.related_information.unwrap_or_default() {
            hv::reach(115);
            hv::check(i.location.uri.as_str() == e.uri.as_str(), 120);
            let o = rng(&i.location.range);
            hv::check(t.get(o).is_some() && t.get(o) == t.get(r) && (o.0, o.1) < (r.0, r.1), 121);
        }
    }
    let (mut l, mut c, mut end) = (0, 0, 0);
    for k in e.semantic_tokens().unwrap_or_default() {
        hv::reach(116);
        if k.delta_line > 0 { l += k.delta_line; c = 0; end = 0; }
        c += k.delta_start;
        hv::check(c >= end && k.length > 0, 122);
        end = c + k.length;
        hv::check(t.get((l, c, l, end)).is_some(), 123);
    }
}

/// What is said about the symbol under a cursor. Codes 130-145.
fn symbol<S: LanguageServer>(e: &Editor<S>, t: &Text, p: P) {
    let me = e.uri.to_string();
    type Places = (Vec<R>, Vec<R>, Vec<R>);
    let ask = |p: P| -> Places {
        let at = |v: Option<Vec<Link>>| v.unwrap_or_default().into_iter().map(|l| { hv::check(l.uri == me, 130); l.target }).collect::<Vec<_>>();
        let (def, decl) = (at(e.definition(p)), at(e.declaration(p)));
        (def, decl, e.references(p, false).unwrap_or_default().into_iter().map(|l| l.1).collect())
    };
    let (def, decl, refs) = ask(p);
    let r = match e.prepare_rename(p) {
        None => {
            hv::reach(130);
            hv::check(def.is_empty() && decl.is_empty() && refs.is_empty(), 131);
            hv::check(!matches!(e.rename(p, "qq"), Ok(Some(v)) if !v.is_empty()), 132);
            return;
        }
        Some(r) => r,
    };
    hv::reach(131);
    hv::check(r.0 == p.0 && r.2 == p.0 && r.1 <= p.1 && p.1 < r.3, 133);
    let name = t.get(r);
    hv::check(name.is_some(), 134);
    let name = name.unwrap_or_default();
    let all: Vec<R> = def.iter().chain(&decl).chain(&refs).copied().collect();
    hv::check(all.iter().all(|x| t.get(*x).as_ref() == Some(&name)), 135);
    hv::check(all.contains(&r) && all.iter().enumerate().all(|(i, x)| !all[..i].contains(x)), 136);
    // the same from every occurrence
    if all.len() > 1 {
        hv::reach(132);
        let o = all[hv::choose(all.len())];
        let (d2, c2, r2) = ask((o.0, o.1));
        hv::check(same(&d2, &def) && same(&c2, &decl) && same(&r2, &refs), 137);
        hv::check(e.prepare_rename((o.0, o.1)) == Some(o), 138);
    }
    // diagnostics
    let diags = e.diags();
    let told = |x: &R, first: Option<R>| diags.iter().any(|d| rng(&d.range) == *x && first == d.related_information.as_ref().and_then(|v| v.first()).map(|i| rng(&i.location.range)));
    if def.is_empty() && decl.is_empty() {
        hv::reach(133);
        hv::check(refs.iter().all(|x| told(x, None)), 139);
    }
    if let Some(first) = def.iter().min() {
        hv::check(def.iter().all(|x| x == first || told(x, Some(*first))), 140);
    }
    // renaming: exactly these places, and the text still means the same
    let head: String = name.chars().take_while(|c| "@%!".contains(*c)).collect();
    let new = format!("{}qq", head);
    let edits = e.rename(p, "qq").ok().flatten();
    hv::check(edits.is_some(), 141);
    let edits = edits.unwrap_or_default();
    hv::check(same_by(&edits, &all, |g, w| g.0 == *w && g.1 == new), 142);
    let mut s2 = String::new();
    for (i, l) in t.0.iter().enumerate() {
        let mut at = 0;
        let mut row: Vec<R> = all.iter().filter(|r| r.0 as usize == i).copied().collect();
        row.sort();
        for r in row {
            s2.push_str(&String::from_utf16_lossy(&l[at..r.1 as usize]));
            s2.push_str(&new);
            at = r.3 as usize;
        }
        s2.push_str(&String::from_utf16_lossy(&l[at..]));
        if i + 1 < t.0.len() { s2.push_str(&t.1[i]); }
    }
    e.change(&[&s2], 2);
    let row = all.iter().filter(|x| x.0 == r.0 && x.1 < r.1).count() as i64;
    let grow = new.encode_utf16().count() as i64 - (r.3 - r.1) as i64;
    let (d2, c2, r2) = ask((r.0, (r.1 as i64 + row * grow) as u32));
    hv::check(d2.len() == def.len() && c2.len() == decl.len() && r2.len() == refs.len(), 143);
    hv::check(e.diags().len() == diags.len(), 144);
}
