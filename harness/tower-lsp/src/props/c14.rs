//! Backtrace hints.
use crate::bt::*;
use crate::doc::*;
use crate::ed::*;
use crate::{hv, LanguageServer};

const NAMES: [&str; 9] = [
    "ScanTranslator::consume(int32)", "XTranslator::produceMaterializedResult", "Translator::drivePipeline<4>", "aTranslator::deriveValue",
    "JoinTranslator::other", "Translatorconsume", "main", "", "Translator::consumeAll",
];
const LOCS: [&str; 9] = [
    "./hyper/rts/A.cpp:12", "./hyper/ir/B.cpp:7", "x/hyper/codegen/C.cpp:1", "D.cpp:0", ".\\win\\E.cpp:33", "./hyper/rts/F.cpp", "", "G.cpp:4:5", "hyper/irx/H.hpp:4294967295",
];

/// A document with one annotated instruction; returns the position behind its reference.
fn one(d: &mut Doc, value: &str, form: usize) -> P {
    d.fun("@f", &["%x"]);
    d.blk("b");
    match form {
        0 => { d.ins(); d.a("nop "); }
        1 => { d.ins(); d.a("br b "); }
        2 => { d.ins(); d.a("int32 %y = saddbr int32 %x, int32 1, cont=b, overflow=b "); }
        3 => { d.ins(); d.a("switch int32 %x, default=b, int32 0 label=b "); }
        4 => { d.ins(); d.a("int32 %p = phi [b, int32 3] "); }
        5 => { d.ins(); d.a("br int1 %x, b, b "); }
        _ => { d.ins(); d.a("int32 %y = call @f(int32 %x) "); }
    }
    d.o(K::Dbg, Use, "!1");
    let p = d.pos();
    d.fin();
    d.end();
    d.o(K::Dbg, Def, "!1"); d.a(" = "); d.a(value); d.nl();
    p
}
fn frame(n: usize, l: usize) -> Fr {
    Fr { name: if n < NAMES.len() { Some(NAMES[n].into()) } else { None }, loc: if l < LOCS.len() { Some(LOCS[l].into()) } else { None } }
}
fn show(v: &[Fr]) -> Vec<Shown> { v.iter().map(|f| shown(f, |_| None)).collect() }

pub fn run<S: LanguageServer>(e: &Editor<S>, h: u32) {
    let mut d = Doc::new();
    match h {
        // one frame of every kind, in every instruction
        0 => {
            let f = frame(hv::choose(NAMES.len() + 1), hv::choose(LOCS.len() + 1));
            let p = one(&mut d, &bt(&[json(&f)]), 0);
            e.open(&d.text);
            check(e, p, Some(&show(&[f])));
        }
        // two frames
        1 => {
            let v = [frame(hv::choose(9), [0, 1, 2, 5][hv::choose(4)]), frame(hv::choose(9), [0, 1, 2, 6][hv::choose(4)])];
            let p = one(&mut d, &bt(&[json(&v[0]), json(&v[1])]), 0);
            e.open(&d.text);
            check(e, p, Some(&show(&v)));
        }
        // several annotated instructions in several functions
        9 | 10 => {
            let fr = [Fr { name: Some("aTranslator::consume".into()), loc: Some("A.cpp:1".into()) }, Fr { name: Some("bb".into()), loc: Some("B.cpp:2".into()) }];
            let refs = ["!1", "!2", "!3", "!9"];
            let early = hv::flag();
            let mut at: Vec<(P, usize)> = vec![];
            if early { d.o(K::Dbg, Def, "!2"); d.a(" = "); d.a(&bt(&[json(&fr[1])])); d.nl(); }
            for f in ["@f", "@g"] {
                d.fun(f, &[]);
                for i in 0..2 {
                    if i == 1 { d.blk("b"); }
                    if f == "@g" && i == 0 { continue; }
                    let k = if h == 10 { i } else { hv::choose(4) };
                    d.ins(); d.a(["nop ", "br b "][i]); d.o(K::Dbg, Use, refs[k]);
                    at.push((d.pos(), k));
                    d.fin();
                }
                d.plain("ret");
                d.end();
            }
            d.o(K::Dbg, Def, "!1"); d.a(" = "); d.a(&bt(&[json(&fr[0])])); d.nl();
            if !early { d.o(K::Dbg, Def, "!2"); d.a(" = "); d.a(&bt(&[json(&fr[1])])); d.nl(); }
            d.o(K::Dbg, Def, "!3"); d.a(" = {\"location\": \"x:1\"}"); d.nl();
            e.open(&d.text);
            if h == 10 {
                let r = (hv::u32(), hv::u32(), hv::u32(), hv::u32());
                hv::assume((r.0 < r.2) | ((r.0 == r.2) & (r.1 <= r.3)));
                crate::oracle::hints_part(e, r);
                return;
            }
            for (p, k) in at {
                if k < 2 { check(e, p, Some(&show(&[fr[k].clone()]))); } else { check(e, p, None); }
            }
        }
        // up to four frames
        2 => {
            let mut v = vec![];
            for _ in 0..hv::choose(5) {
                v.push(match hv::choose(4) { 0 => frame(6, 0), 1 => frame(4, 1), 2 => frame(3, 2), _ => frame(6, 1) });
            }
            let j: Vec<String> = v.iter().map(json).collect();
            let p = one(&mut d, &bt(&j), 0);
            e.open(&d.text);
            check(e, p, Some(&show(&v)));
        }
        // long backtraces
        11 => {
            let n = [5, 8, 10, 16, 32, 64, 100, 128, 200][hv::choose(9)];
            // where the frames worth showing are
            let (t, r) = ([0, n / 2, n - 1, n][hv::choose(4)], [0, n / 3, n - 1, n][hv::choose(4)]);
            let v: Vec<Fr> = (0..n).map(|i| if i == t { frame(3, 0) } else if i == r { frame(6, 1) } else if i % 7 == 6 { frame(4, 2) } else { frame(6, 0) }).collect();
            let j: Vec<String> = v.iter().map(json).collect();
            let p = one(&mut d, &bt(&j), 0);
            e.open(&d.text);
            check(e, p, Some(&show(&v)));
        }
        // very long names
        13 => {
            let v = [Fr { name: Some("n".repeat([1000, 66000][hv::choose(2)])), loc: Some("a.cpp:1".into()) }, frame(3, 0)];
            let j: Vec<String> = v.iter().map(json).collect();
            let p = one(&mut d, &bt(&j), 0);
            e.open(&d.text);
            hv::reach(65);
            check(e, p, Some(&show(&v)));
        }
        // many annotated instructions, many annotations
        12 => {
            let n = 150;
            let last = s1("!");
            d.fun("@f", &[]);
            let mut at = vec![];
            for i in 0..n {
                d.ins(); d.a("nop "); d.o(K::Dbg, Use, &if i + 1 < n { format!("!{}", i % 100) } else { last.clone() });
                at.push(d.pos());
                d.fin();
            }
            d.end();
            for i in 0..100 {
                d.o(K::Dbg, Def, &format!("!{}", i)); d.a(" = ");
                let v = if i % 3 == 2 { "5".to_string() } else { bt(&[json(&frame(i % 9, i / 9 % 9))]) };
                d.a(&v); d.nl();
            }
            d.o(K::Dbg, Def, "!k"); d.a(" = "); d.a(&bt(&[json(&frame(0, 0))])); d.nl();
            e.open(&d.text);
            let got: Vec<P> = e.hints().unwrap_or_default().iter().map(|h| (h.position.line, h.position.character)).filter(|p| p.0 <= n as u32).collect();
            let want: Vec<P> = (0..n).filter(|i| if i + 1 < n { i % 100 % 3 != 2 } else { last == "!k" }).map(|i| at[i]).collect();
            if last == "!k" { hv::reach(66) } else { hv::reach(67) }
            hv::check(same(&got, &want), 68);
            let i = [0, 1, 9, 97, 99, 148][hv::choose(6)];
            check(e, at[i], Some(&show(&[frame(i % 100 % 9, i % 100 / 9 % 9)])));
        }
        // names of symbolic letters around the length limit
        3 => {
            let mut s = String::new();
            let k = [46, 47, 48, 49, 50, 51, 60][hv::choose(7)];
            let at = [0, 5, 46, 47, 48, 49][hv::choose(6)];
            for i in 0..k {
                if i == at { s.push(['ä', '€', '😀', 'x'][hv::choose(4)]); } else { s.push((b'a' + (i % 26) as u8) as char); }
            }
            s.push(letter());
            let f = Fr { name: Some(s), loc: Some("a.cpp:1".into()) };
            let p = one(&mut d, &bt(&[json(&f)]), 0);
            e.open(&d.text);
            hv::reach(65);
            check(e, p, Some(&show(&[f])));
        }
        // every instruction form, references that match or not, several instructions
        4 => {
            let form = hv::choose(7);
            let f = frame(0, 0);
            let r = s1("!");
            d.fun("@f", &["%x"]);
            d.plain("nop");
            d.ins();
            d.a(["nop ", "br b ", "saddbr int32 %x, cont=b, overflow=b ", "switch int32 %x, default=b, int32 0 label=b ", "phi [b, int32 3] ", "br int1 %x, b, b ", "int32 %y = call @f(int32 %x) "][form]);
            d.o(K::Dbg, Use, &r);
            let p = d.pos();
            d.fin();
            d.blk("b");
            d.ins(); d.a("ret "); d.o(K::Dbg, Use, "!k"); let p2 = d.pos(); d.fin_comment(" # c");
            d.end();
            d.o(K::Dbg, Def, "!k"); d.a(" = "); d.a(&bt(&[json(&f)])); d.nl();
            d.o(K::Dbg, Def, "!z"); d.a(" = 5"); d.nl();
            e.open(&d.text);
            let w = show(&[f]);
            let hit = r == "!k";
            if hit { hv::reach(66) } else { hv::reach(67) }
            check(e, p, if hit { Some(&w) } else { None });
            check(e, p2, Some(&w));
        }
        // values that are no backtrace
        5 => {
            let v = ["5", "\"backtrace\"", "{}", "[]", "{\"backtrace\": 5}", "{\"backtrace\": {}}", "{\"backtrace\": null}", "{\"backtrac\": []}", "[[\"a\", \"b:1\"]]",
                "{\"backtrace\": [[\"a\", \"b:1\"]}", "{\"backtrace\": []} 5", "", "null", "{\"x\": {\"backtrace\": []}}"];
            let p = one(&mut d, v[hv::choose(v.len())], hv::choose(2));
            e.open(&d.text);
            check(e, p, None);
        }
        // frames that are no frames
        6 => {
            let v: [(&str, Fr); 9] = [
                ("5", Fr::default()), ("null", Fr::default()), ("{}", Fr::default()), ("\"x\"", Fr::default()), ("[]", Fr::default()), ("[1, 2]", Fr::default()),
                ("[{}, \"a/b.c:3\"]", Fr { name: None, loc: Some("a/b.c:3".into()) }), ("[\"n\", 3]", Fr { name: Some("n".into()), loc: None }),
                ("[\"n\", \"q.c:9\", 4, \"x\"]", Fr { name: Some("n".into()), loc: Some("q.c:9".into()) }),
            ];
            let (a, b) = (hv::choose(9), hv::choose(9));
            let p = one(&mut d, &bt(&[v[a].0.to_string(), v[b].0.to_string()]), 0);
            e.open(&d.text);
            check(e, p, Some(&show(&[v[a].1.clone(), v[b].1.clone()])));
        }
        // locations of symbolic characters
        7 => {
            let mut l = String::from("q.c");
            for _ in 0..2 + hv::choose(2) {
                let c = hv::u8();
                hv::assume((c >= 0x20) & (c < 0x7f) & (c != b'"') & (c != b'\\') & (c != b'+'));
                l.push(c as char);
            }
            let f = Fr { name: Some("n".into()), loc: Some(l) };
            let p = one(&mut d, &bt(&[json(&f)]), 0);
            e.open(&d.text);
            check(e, p, Some(&show(&[f])));
        }
        // the annotation stands before the function, far away, twice
        _ => {
            let f = frame(hv::choose(2), 0);
            let g = frame(4, 3);
            d.t("# \u{1f600} ä\n");
            d.o(K::Dbg, Def, "!7"); d.a(" = "); d.t("\"ä\""); d.nl();
            d.o(K::Dbg, Def, "!1"); d.a(" = "); d.a(&bt(&[json(&f)])); d.nl();
            d.crlf = hv::flag();
            d.fun("@f", &[]);
            d.ins(); d.a("nop "); d.t("\"😀\" "); d.o(K::Dbg, Use, "!1"); let p = d.pos(); d.fin();
            d.ins(); d.a("nop "); d.o(K::Dbg, Use, "!2"); let p2 = d.pos(); d.fin();
            d.end();
            d.o(K::Dbg, Def, "!2"); d.a(" = "); d.a(&bt(&[json(&g), json(&f)])); d.nl();
            e.open(&d.text);
            check(e, p, Some(&show(&[f.clone()])));
            check(e, p2, Some(&show(&[g, f])));
        }
    }
}
