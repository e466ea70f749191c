//! Reads the Markdown of tooltips the way a CommonMark renderer does, as far as needed: list
//! items, code spans, backslash escapes, links. Everything that would be other markup is an error.
#![allow(dead_code)]

#[derive(Debug, Default, Clone)]
pub struct Item {
    /// the code spans
    pub code: Vec<Vec<char>>,
    /// the visible text outside of code spans
    pub text: Vec<char>,
    /// the destinations of links, and their texts
    pub links: Vec<(Vec<char>, Vec<char>)>,
}

fn line_break(c: char) -> bool { (c == '\n') | (c == '\r') }

/// One line of inline content. `None`: markup which has no place in a tooltip.
pub fn inline(s: &[char]) -> Option<Item> {
    let mut it = Item::default();
    let n = s.len();
    let mut i = 0;
    let mut label: Option<Vec<char>> = None;
    while i < n {
        let c = s[i];
        if line_break(c) { return None; }
        if c == '`' {
            // a code span ends at the next run of the same length
            let mut k = i;
            while k < n && s[k] == '`' { k += 1; }
            let run = k - i;
            let start = k;
            let mut end = None;
            while k < n {
                if s[k] == '`' {
                    let b = k;
                    while k < n && s[k] == '`' { k += 1; }
                    if k - b == run { end = Some(b); break; }
                } else {
                    if line_break(s[k]) { return None; }
                    k += 1;
                }
            }
            let end = end?;
            if label.is_some() { return None; }
            it.code.push(s[start..end].to_vec());
            i = k;
            continue;
        }
        let mut escaped = false;
        let mut c = c;
        if c == '\\' {
            if i + 1 < n && s[i + 1].is_ascii_punctuation() {
                escaped = true;
                i += 1;
                c = s[i];
            } else {
                // a literal backslash
                escaped = true;
            }
        }
        i += 1;
        if !escaped {
            if c == '[' {
                if label.is_some() { return None; }
                label = Some(vec![]);
                continue;
            }
            if c == ']' {
                let l = label.take()?;
                if i >= n || s[i] != '(' { return None; }
                i += 1;
                let mut dest = vec![];
                let mut depth = 0;
                loop {
                    if i >= n { return None; }
                    let mut d = s[i];
                    if d == '\\' && i + 1 < n && s[i + 1].is_ascii_punctuation() {
                        i += 1;
                        d = s[i];
                    } else if d == '(' {
                        depth += 1;
                    } else if d == ')' {
                        if depth == 0 { break; }
                        depth -= 1;
                    } else if d <= ' ' || d == '<' || d == '>' || d == '&' || d == '\u{7f}' {
                        return None;
                    }
                    dest.push(d);
                    i += 1;
                }
                i += 1;
                it.text.extend(&l);
                it.links.push((dest, l));
                continue;
            }
            // emphasis, HTML, entities, strikethrough, tables, autolinks
            if (c == '*') | (c == '_') | (c == '<') | (c == '>') | (c == '&') | (c == '~') | (c == '|') { return None; }
            if c == '!' && i < n && s[i] == '[' { return None; }
            if c == '@' && !(i >= 2 && s[i - 2] == ' ' && i < n && s[i] == ' ') { return None; }
            if c == ':' && i < n && s[i] == '/' { return None; }
            if c == 'w' && i + 2 < n && s[i] == 'w' && s[i + 1] == 'w' && s[i + 2] == '.' { return None; }
        }
        match &mut label {
            Some(l) => l.push(c),
            None => it.text.push(c),
        }
    }
    if label.is_some() { return None; }
    Some(it)
}

/// A list with one item per line.
pub fn list(s: &str) -> Option<Vec<Item>> {
    let s: Vec<char> = s.chars().collect();
    let mut v = vec![];
    if s.is_empty() { return Some(v); }
    for l in s.split(|c| *c == '\n') {
        if l.len() < 3 || !((l[0] == '*') | (l[0] == '-')) || l[1] != ' ' || l[2] == ' ' { return None; }
        v.push(inline(&l[2..])?);
    }
    Some(v)
}

fn hex(c: char) -> Option<u8> { c.to_digit(16).map(|d| d as u8) }
/// Undoes percent-encoding. `None`: not a valid URL text.
pub fn unpercent(s: &[char]) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        if c == '%' {
            if i + 2 >= s.len() { return None; }
            out.push(hex(s[i + 1])? * 16 + hex(s[i + 2])?);
            i += 3;
        } else {
            if !c.is_ascii() || c <= ' ' { return None; }
            out.push(c as u8);
            i += 1;
        }
    }
    Some(out)
}
