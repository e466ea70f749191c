//! The control flow graph and the incoming-edge hints.
use crate::doc::*;
use crate::ed::*;
use crate::oracle::*;
use crate::{hv, LanguageServer};

fn labels(h: u32) -> Doc {
    let mut d = Doc::new();
    match h {
        // every branch form, targets symbolic; an unlabelled first block
        10 => {
            let t = s1("");
            d.fun("@f", &["%x"]);
            d.br("a");
            d.blk("a");
            match hv::choose(6) {
                0 => d.br(&t),
                1 => d.condbr("%x", &t, "b"),
                2 => d.ovf("%y", "%x", "b", &t),
                3 => d.switch("%x", &t, &["b"]),
                4 => d.switch("%x", "c", &["b", &t, "a"]),
                _ => d.phi("%p", &[&t, "b"]),
            }
            d.blk("b");
            match hv::choose(4) {
                0 => d.plain("ret void"),
                1 => d.br("b"),
                2 => d.condbr("%x", "c", "c"),
                _ => { d.plain("nop"); d.br("a"); }
            }
            d.blk("c");
            d.condbr("%x", &s1(""), "a");
            d.end();
        }
        // branches that cannot be understood, several per block
        11 => {
            d.fun("@f", &["%x"]);
            d.blk("a");
            match hv::choose(25) {
                16 => d.bad("br", " int8 %x, a, b"),
                17 => d.bad("br", " int1, a, b"),
                18 => d.bad("br", " int1 %x %x, a, b"),
                19 => d.bad("br", " a,"),
                20 => d.bad("br", " @f"),
                21 => d.bad(&(s1("") + "br"), " a"),
                22 => d.bad("ssubbr", " int32 %x, int32 %x, overflow=a, cont=b"),
                23 => d.bad("switch", " int32 %x, default=a, [0 = b]"),
                24 => d.bad("phi", " [int32 %x]"),
                7 => d.bad("br", " b ret void"),
                8 => d.bad("br", " b, a"),
                9 => d.bad("br", " b b"),
                10 => d.bad("br", " int1 %x, a, b c"),
                11 => d.bad("br", " int1 %x, a"),
                12 => d.bad("br", " int1 %x, a, b, b"),
                13 => d.bad("switch", " int32 %x, default=a b"),
                14 => d.bad("umulbr", " int32 %x, cont=a, overflow=b, b"),
                15 => d.bad("condbr", " a"),
                0 => d.bad("br", " int1 %x b, a"),
                1 => d.bad("br", ""),
                2 => d.bad("switch", " int32 %x, defaul=a"),
                3 => d.bad("phi", ""),
                4 => d.bad("saddbr", " int32 %x, cont=a"),
                5 => d.bad("br", " %x"),
                _ => d.plain("abr1 b"),
            }
            d.blk("b");
            d.br(&s1(""));
            d.end();
            // uses inside the opaque instructions are not labels
        }
        // labels that look like keywords of the instruction syntax
        12 => {
            let w = ["cont", "overflow", "default", "label", "switch", "phi", "br", "ret", "depends", "on", "node", "Edge", "strict", "subgraph", "n::m", "graph"];
            let a = w[hv::choose(w.len())];
            let b = w[hv::choose(w.len())];
            d.fun("@f", &["%x"]);
            d.blk(a);
            match hv::choose(4) {
                0 => d.br(b),
                1 => d.condbr("%x", b, a),
                2 => d.ovf("%y", "%x", b, a),
                _ => d.switch("%x", b, &[a]),
            }
            d.blk("z");
            d.br(a);
            d.end();
        }
        // operands of every kind
        15 => {
            let k = ["1", "0xff", "true", "@f", "\"s\"", "cont", "label"][hv::choose(7)];
            let t = s1("");
            d.fun("@f", &["%x"]);
            d.blk("a");
            d.ins();
            match hv::choose(6) {
                0 => { d.a(&format!("br int1 {}, ", k)); d.out(&t); d.a(", "); d.out("b"); }
                1 => { d.a(&format!("switch int32 {}, default=", k)); d.out(&t); d.a(&format!(", int64 {} label=", k)); d.out("b"); }
                2 => { d.assign("%y"); d.a(&(s1("") + "br")); d.a(&format!(" {}, int8 {}, cont=", k, k)); d.out(&t); d.a(", overflow="); d.out("b"); }
                3 => { d.a(&format!("switch ptr {} {}, 5 {}, default=", k, k, k)); d.out("b"); d.a(&format!(", ptr {} label=", k)); d.out(&t); d.a(&format!(", data128 {} label=", k)); d.out("a"); }
                4 => { d.a(&format!("ssubbr int32 f(1), int32 [{}, 2] {}, cont=", k, k)); d.out("b"); d.a(", overflow="); d.out(&t); }
                _ => { d.assign("%y"); d.a("phi ["); d.o(K::Label, Use, &t); d.a(&format!(", {} {}], [", k, k)); d.o(K::Label, Use, "b"); d.a(", ptr {}]"); }
            }
            if hv::flag() { d.a(" !7"); }
            d.fin();
            d.blk("b");
            d.plain("ret void");
            d.end();
        }
        // several functions, for the hints of any part
        14 => {
            d.fun("@f", &["%x"]);
            d.br("a");
            d.blk("a");
            d.condbr("%x", "a", &s1(""));
            d.blk("b");
            d.br("a");
            d.end();
            d.nl();
            d.fun("@g", &[]);
            d.blk("a");
            d.br("a");
            d.end();
        }
        // two functions, the second is asked for
        _ => {
            d.fun("@f", &["%x"]);
            d.blk("a");
            d.br("b");
            d.blk("b");
            d.br(&s1(""));
            d.end();
            d.fun(&s1("@"), &["%x"]);
            d.blk("a");
            d.condbr("%x", "a", &s1(""));
            d.blk(&s1(""));
            d.br("a");
            d.end();
        }
    }
    d
}

pub fn run<S: LanguageServer>(e: &Editor<S>, h: u32) {
    let mut d = if h < 10 { family(h) } else if h >= 30 { family(h - 20) } else { labels(h) };
    d.resolve();
    e.open(&d.text);
    if h == 14 {
        let r = (hv::u32(), hv::u32(), hv::u32(), hv::u32());
        hv::assume((r.0 < r.2) | ((r.0 == r.2) & (r.1 <= r.3)));
        hints_part(e, r);
        return;
    }
    if h == 11 { 
        // opaque instructions still use locals
        let bad: Vec<R> = d.funs[0].blks[0].bad.clone();
        let got = e.diags();
        hv::check(bad.iter().all(|b| got.iter().any(|g| rng(&g.range) == *b)), 57);
        hv::check(got.iter().filter(|g| g.message.contains("basic block")).count() == bad.len(), 58);
        if !bad.is_empty() { hv::reach(52) }
    }
    // the graph of a function whose name is unique in the document
    let n = if h >= 30 { 0 } else { d.funs.len() - 1 };
    let id = d.occ.iter().find(|o| o.r == d.funs[n].name_r).unwrap().id;
    if d.ranges(id, Def).len() == 1 {
        cfg(e, &d, n);
    }
    hints(e, &d);
}
