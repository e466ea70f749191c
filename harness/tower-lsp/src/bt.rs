//! Backtrace hints: what they have to show for given frames.
#![allow(dead_code)]
use crate::ed::*;
use crate::{hv, md, LanguageServer};
use lsp_types::*;

/// A frame as the document has it; `None` stands for something that is no string.
#[derive(Clone, Debug, Default)]
pub struct Fr {
    pub name: Option<String>,
    pub loc: Option<String>,
}
/// What has to be shown of it.
#[derive(Clone, Debug)]
pub struct Shown {
    pub name: String,
    pub file: Option<(String, u32)>,
    pub path: String,
    /// the file the location leads to
    pub target: Option<String>,
}

pub fn base(p: &str) -> &str {
    let mut k = 0;
    for (i, c) in p.char_indices() {
        if (c == '/') | (c == '\\') { k = i + 1; }
    }
    &p[k..]
}
/// `path:line`
pub fn location(s: &str) -> Option<(&str, u32)> {
    let mut it = s.split(':');
    let (p, l) = (it.next()?, it.next()?);
    if it.next().is_some() || l.is_empty() { return None; }
    let mut n: u64 = 0;
    for c in l.bytes() {
        if !c.is_ascii_digit() { return None; }
        n = n * 10 + (c - b'0') as u64;
        if n > u32::MAX as u64 { return None; }
    }
    Some((p, n as u32))
}
pub fn shown(f: &Fr, target: impl Fn(&str) -> Option<String>) -> Shown {
    let l = f.loc.as_deref().and_then(location);
    let name = match (&f.name, &f.loc) {
        (Some(n), _) if !n.is_empty() => n.clone(),
        (_, Some(l)) if !base(l).is_empty() => base(l).to_string(),
        _ => "<invalid>".to_string(),
    };
    Shown {
        name,
        file: l.map(|(p, n)| (base(p).to_string(), n)),
        path: l.map_or(String::new(), |x| x.0.to_string()),
        target: l.and_then(|(p, _)| target(p)),
    }
}
/// The frame the hint names.
pub fn relevant(v: &[Shown]) -> Option<usize> {
    for p in ["Translator::consume", "Translator::produceMaterializedResult", "Translator::drivePipeline", "Translator::deriveValue", "Translator::"] {
        for (i, f) in v.iter().enumerate() {
            if f.name.contains(p) { return Some(i); }
        }
    }
    v.iter().position(|f| f.file.is_some() && !f.path.contains("hyper/ir/") && !f.path.contains("hyper/codegen"))
}
pub fn short(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    if c.len() <= 48 { s.to_string() } else { c[..48].iter().collect::<String>() + "…" }
}

/// Characters that a code span shows as they are; white space may become a blank, anything else may be replaced.
fn code_ok(code: &[char], name: &str) -> bool {
    let n: Vec<char> = name.chars().collect();
    if code.len() != n.len() { return false; }
    for (a, b) in code.iter().zip(&n) {
        let (a, b) = (*a, *b);
        if b.is_ascii() {
            let keep = b.is_ascii_alphanumeric() | (b == '.') | (b == ',') | (b == ':') | (b == '+') | (b == '-') | (b == '=') | (b == '/') | (b == '*') | (b == '<') | (b == '>') | (b == '_');
            if keep & (a != b) { return false; }
            if b.is_ascii_whitespace() & (a != ' ') & (a != b) { return false; }
        } else if a != b {
            // other letters stay, other characters may be replaced
            if b.is_alphanumeric() { return false; }
        }
        if (a == '\n') | (a == '\r') | (a == '`') { return false; }
    }
    true
}
fn text_ok(got: &[char], want: &str) -> bool {
    let w: Vec<char> = want.chars().collect();
    if got.len() != w.len() { return false; }
    got.iter().zip(&w).all(|(a, b)| a == b || ((b.is_whitespace() || b.is_control()) && *a == ' '))
}
/// One rendered frame.
pub fn item_ok(it: &md::Item, f: &Shown) -> bool {
    if it.code.len() != 1 || !code_ok(&it.code[0], &f.name) { return false; }
    let want = match &f.file { None => String::new(), Some((n, l)) => format!(" @ {}:{}", n, l) };
    if !text_ok(&it.text, &want) { return false; }
    match &f.target {
        None => it.links.is_empty(),
        Some(t) => {
            if it.links.len() != 1 { return false; }
            let (dest, label) = &it.links[0];
            let (n, l) = f.file.as_ref().unwrap();
            if !text_ok(label, &format!("{}:{}", n, l)) { return false; }
            let mut p = dest.split(|c| *c == '#');
            let (path, line) = (p.next().unwrap(), p.next());
            if p.next().is_some() { return false; }
            if line.map_or(true, |x| x.iter().collect::<String>() != l.to_string()) { return false; }
            match md::unpercent(path) {
                None => false,
                Some(b) => b == format!("file://{}", t).into_bytes(),
            }
        }
    }
}

fn tip(p: &InlayHintLabelPart) -> Option<String> {
    match p.tooltip.as_ref()? {
        InlayHintLabelPartTooltip::String(s) => Some(s.clone()),
        InlayHintLabelPartTooltip::MarkupContent(m) => Some(m.value.clone()),
    }
}
/// The hints at a position. Codes 60-67.
pub fn check<S: LanguageServer>(e: &Editor<S>, at: P, want: Option<&[Shown]>) {
    let got: Vec<InlayHint> = e.hints().unwrap_or_default().into_iter().filter(|h| (h.position.line, h.position.character) == at).collect();
    let want = match want {
        None => { hv::reach(60); hv::check(got.is_empty(), 60); return; }
        Some(w) => w,
    };
    hv::reach(61);
    hv::check(got.len() == 1, 61);
    let parts = crate::oracle::parts(&got[0]);
    let label: String = parts.iter().map(|p| p.value.as_str()).collect();
    let rel = relevant(want);
    let text = match rel { None => { hv::reach(62); String::new() } Some(i) => { hv::reach(63); short(&want[i].name) + ", " } };
    hv::check(label == text + "Full backtrace", 62);
    let tips: Vec<String> = parts.iter().filter_map(tip).collect();
    hv::check(tips.len() == 1 + rel.is_some() as usize, 63);
    if let Some(i) = rel {
        let cs: Vec<char> = tips[0].chars().collect();
        let it = md::inline(&cs);
        hv::check(it.map_or(false, |it| item_ok(&it, &want[i])), 64);
    }
    let l = md::list(&tips[tips.len() - 1]);
    hv::check(l.is_some(), 65);
    let l = l.unwrap_or_default();
    hv::check(l.len() == want.len(), 66);
    for (it, f) in l.iter().zip(want) { hv::check(item_ok(it, f), 67); }
    if want.iter().any(|f| f.target.is_some()) { hv::reach(64) }
}

/// JSON text of a frame; backslashes are the only characters that may need escapes.
pub fn json(f: &Fr) -> String {
    let s = |x: &Option<String>| match x { None => "null".to_string(), Some(x) => format!("\"{}\"", x.replace('\\', "\\\\")) };
    match (&f.name, &f.loc) {
        (None, None) => "[]".into(),
        (n, None) => format!("[{}]", s(n)),
        (n, l) => format!("[{}, {}]", s(n), s(l)),
    }
}
pub fn bt(frames: &[String]) -> String { format!("{{\"backtrace\": [{}]}}", frames.join(", ")) }
