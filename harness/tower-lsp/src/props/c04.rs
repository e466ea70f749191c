//! Navigation: definitions, declarations and references of the symbol under the cursor.
use crate::doc::*;
use crate::ed::*;
use crate::oracle::*;
use crate::{hv, LanguageServer};

pub fn run<S: LanguageServer>(e: &Editor<S>, h: u32) {
    let mut d = if h < 20 { family(h) } else { all_kinds(h == 21) };
    d.resolve();
    e.open(&d.text);
    let p = if h < 20 { d.any().1 } else { (hv::u32(), hv::u32()) };
    nav(e, &d, p, h >= 20 && hv::flag());
}
