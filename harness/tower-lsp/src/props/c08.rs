//! The numbering code action: where it is offered, and what it does, eagerly or lazily.
use crate::doc::*;
use crate::ed::*;
use crate::oracle::*;
use crate::{hv, LanguageServer};

fn doc() -> Doc {
    let mut d = Doc::new();
    d.var("@v1"); d.a("1"); d.nl();
    d.decl("@f4"); d.nl();
    d.fun("@f5", &["%x3", "%y"]);
    d.blk("b2");
    d.ins(); d.assign("%x4"); d.a("call "); d.o(K::Func, Use, "@f4"); d.a("("); d.usev("%x3"); d.a(") "); d.o(K::Dbg, Use, "!7"); d.fin();
    d.br("b2");
    d.end();
    d.fun("@g", &["%x3"]);
    d.ins(); d.a("ret "); d.usev("%x3"); d.fin();
    d.end();
    d.o(K::Dbg, Def, "!7"); d.a(" = 5"); d.nl();
    d.o(K::Dbg, Def, "!f"); d.a(" = 5"); d.nl();
    d
}

pub fn run<S: LanguageServer>(e: &Editor<S>, h: u32) {
    match h {
        // cursors anywhere; the client supports lazy edits or not
        0 => {
            let lazy = hv::flag();
            let mut d = doc();
            d.resolve();
            let _ = e.init(lazy, &[]);
            e.open(&d.text);
            let p = (hv::u32(), hv::u32());
            let got = e.code_actions((p.0, p.1, p.0, p.1)).ok().flatten().unwrap_or_default();
            let want = d.under(p).and_then(|o| shifted(&d, o, 1));
            match want {
                None => { hv::reach(1); hv::check(got.is_empty(), 1); }
                Some(w) => {
                    hv::reach(2);
                    hv::check(got.len() == 1, 2);
                    for a in got {
                        hv::check(a.edit.is_none() == lazy, 3);
                        hv::check(!lazy || a.data.is_some(), 4);
                        hv::check(!a.title.is_empty(), 5);
                        let title = a.title.clone();
                        let a = if lazy { e.resolve(a) } else { Ok(a) };
                        hv::check(a.is_ok(), 6);
                        let a = a.unwrap();
                        hv::check(a.title == title, 7);
                        let edits = a.edit.map(|x| e.edits(&x)).unwrap_or_default();
                        hv::check(same(&edits, &w), 8);
                    }
                }
            }
        }
        // ranges
        1 => {
            let mut d = doc();
            d.resolve();
            let _ = e.init(hv::flag(), &[]);
            e.open(&d.text);
            let o = d.occ[hv::choose(d.occ.len())].r;
            let (l, c) = (hv::u32(), hv::u32());
            hv::assume((l, c) != (o.0, o.1));
            let got = e.code_actions((o.0, o.1, l, c)).ok().flatten().unwrap_or_default();
            hv::reach(3);
            hv::check(got.is_empty(), 9);
        }
        // negotiation
        2 => {
            let data = [None, Some(false), Some(true)][hv::choose(3)];
            let lists: [Option<&[&str]>; 5] = [None, Some(&[]), Some(&["edit"]), Some(&["command"]), Some(&["command", "edit"])];
            let resolve = lists[hv::choose(5)];
            let lazy = data == Some(true) && resolve.map_or(false, |r| r.contains(&"edit"));
            let r = e.init_caps(data, resolve);
            hv::check(r.is_ok(), 10);
            let r = r.unwrap();
            let adv = match r.capabilities.code_action_provider {
                Some(lsp_types::CodeActionProviderCapability::Options(o)) => o.resolve_provider.unwrap_or(false),
                Some(lsp_types::CodeActionProviderCapability::Simple(b)) => { hv::check(b, 11); false }
                None => { hv::check(false, 11); false }
            };
            hv::check(adv == lazy, 12);
            if lazy { hv::reach(4) } else { hv::reach(5) }
            let d = doc();
            e.open(&d.text);
            let got = e.code_actions((0, 0, 0, 0)).ok().flatten().unwrap_or_default();
            hv::check(got.len() == 1, 13);
            for a in got { hv::check(a.edit.is_none() == lazy, 14); }
        }
        // symbolic names, each kind: lazily and eagerly the same
        _ => {
            let mut d = family(h - 10);
            d.resolve();
            let _ = e.init(false, &[]);
            e.open(&d.text);
            let (o, p) = d.any();
            let got = e.code_actions((p.0, p.1, p.0, p.1)).ok().flatten().unwrap_or_default();
            let want = number(&o.name).and_then(|_| shifted(&d, o, 1));
            hv::check(want.is_some() == !got.is_empty(), 15);
            if let Some(w) = want {
                hv::reach(6);
                let edits = got[0].edit.as_ref().map(|x| e.edits(x)).unwrap_or_default();
                hv::check(same(&edits, &w), 16);
            } else { hv::reach(7); }
        }
    }
}
