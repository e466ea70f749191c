//! Relative renames: the numbers of all symbols of one kind move together.
use crate::doc::*;
use crate::ed::*;
use crate::oracle::*;
use crate::{hv, LanguageServer};

/// A name with a one- or two-digit number without leading zeros.
fn num(p: &str) -> String {
    let mut s = String::from(p);
    let c = digit();
    s.push(c);
    s
}
fn num2(p: &str) -> String {
    let mut s = String::from(p);
    s.push(['1', '9'][hv::choose(2)]);
    s.push(digit());
    s
}

fn doc(h: u32) -> Doc {
    let mut d = Doc::new();
    match h {
        // local names, in two functions
        0 => {
            let a = num("%v");
            let b = num2("%v");
            d.fun("@f1", &[&a, &b]);
            d.blk("b1");
            d.ins(); d.assign(&num("%w")); d.a("add "); d.usev(&a); d.a(", "); d.usev("%u"); d.fin();
            d.end();
            d.fun("@f2", &["%v1"]);
            d.blk("b1");
            d.ins(); d.a("ret "); d.usev("%v1"); d.fin();
            d.end();
        }
        // labels
        1 => {
            let a = num("b");
            let b = num2("b");
            d.fun("@f1", &["%v1"]);
            d.blk(&a);
            d.condbr("%v1", &b, "x");
            d.blk(&b);
            d.br(&a);
            d.blk(&num("c"));
            d.br("x");
            d.end();
            d.fun("@f2", &[]);
            d.blk("b5");
            d.br("b5");
            d.end();
        }
        // functions and variables
        2 => {
            let a = num("@_4_f_");
            d.var(&num("@g_")); d.a("1"); d.nl();
            d.decl(&num2("@_4_f_")); d.a(" = 0x1f"); d.nl();
            d.fun(&a, &["%1"]);
            d.ins(); d.a("call "); d.o(K::Func, Use, &a); d.a("("); d.o(K::Func, Use, &num("@g_")); d.a(")"); d.fin();
            d.end();
        }
        // debug annotations
        _ => {
            let a = num("!");
            d.fun("@f", &[]);
            d.ins(); d.a("nop "); d.o(K::Dbg, Use, &a); d.fin();
            d.ins(); d.a("nop "); d.o(K::Dbg, Use, &num2("!")); d.fin();
            d.end();
            d.o(K::Dbg, Def, &a); d.a(" = 1"); d.nl();
            d.o(K::Dbg, Def, &num("!f")); d.a(" = 1"); d.nl();
        }
    }
    d
}

pub fn run<S: LanguageServer>(e: &Editor<S>, h: u32) {
    match h {
        0..=9 | 28..=31 => {
            let mut d = if h < 20 { doc(h) } else { family(h - 20) };
            d.resolve();
            e.open(&d.text);
            let o = if h < 30 { &d.occ[hv::choose(d.occ.len())] } else { d.any().0 };
            let (by, s) = [("+1", 1i64), ("-1", -1), ("+17", 17), ("-12", -12), ("+0", 0), ("+1000", 1000)][if h < 20 { hv::param(0) as usize } else { 0 }];
            let neg = s < 0;
            let s = s.abs();
            hv::text(&by);
            let got = e.rename((o.r.0, o.r.1), &by);
            match number(&o.name) {
                None => { hv::reach(1); hv::check(got.map_or(true, |g| g.is_none()), 1); }
                Some(_) => {
                    hv::reach(2);
                    let want = shifted(&d, o, if neg { -s } else { s }).unwrap();
                    let got = got.ok().flatten();
                    hv::check(got.is_some(), 2);
                    hv::check(same(&got.unwrap_or_default(), &want), 3);
                }
            }
        }
        // numbers at the limits
        10 => {
            let ns = ["0", "1", "4294967295", "9223372036854775806", "9223372036854775807", "9223372036854775808", "99999999999999999999"];
            let a = format!("%v{}", ns[hv::choose(ns.len())]);
            let b = format!("%w{}", ns[hv::choose(ns.len())]);
            let mut d = Doc::new();
            d.fun("@f", &[&a]);
            d.ins(); d.assign(&b); d.a("load "); d.usev(&a); d.fin();
            d.end();
            d.resolve();
            e.open(&d.text);
            let by = [("+1", 1i64), ("-1", -1), ("+0", 0), ("+9223372036854775807", i64::MAX), ("-9223372036854775807", -i64::MAX), ("+4294967296", 1 << 32)];
            let (t, s) = by[hv::choose(by.len())];
            hv::text(t);
            let o = &d.occ[1];
            let got = e.rename((o.r.0, o.r.1), t);
            match number(&o.name).and_then(|_| shifted(&d, o, s)) {
                None => { hv::reach(3); hv::check(got.map_or(true, |g| g.is_none()), 4); }
                Some(w) => { hv::reach(4); hv::check(same(&got.ok().flatten().unwrap_or_default(), &w), 5); }
            }
        }
        // any number, by any number
        12 => {
            let mut d = Doc::new();
            let a = num(["%v", "%v2"][hv::choose(2)]);
            d.fun("@f", &[&a, "%w5"]);
            d.ins(); d.a("ret "); d.usev(&a); d.fin();
            d.end();
            d.resolve();
            e.open(&d.text);
            let neg = hv::flag();
            let c = digit();
            let by = format!("{}{}", if neg { "-" } else { "+" }, c);
            hv::text(&by);
            let s = (c as u8 - b'0') as i64;
            let o = &d.occ[1];
            let got = e.rename((o.r.0, o.r.1), &by);
            let want = shifted(&d, o, if neg { -s } else { s }).unwrap();
            hv::reach(7);
            hv::check(same(&got.ok().flatten().unwrap_or_default(), &want), 8);
        }
        // what is no number is refused
        _ => {
            let mut d = Doc::new();
            d.fun("@f", &["%v1"]);
            d.ins(); d.a("ret "); d.usev("%v1"); d.fin();
            d.end();
            d.resolve();
            e.open(&d.text);
            let mut t = String::from(["+", "-"][hv::choose(2)]);
            for i in 0..hv::choose(3) {
                let c = hv::u8();
                hv::assume(c < 0x80);
                if i == 0 { hv::assume((c != b'+') & (c != b'-')); }
                t.push(c as char);
            }
            if hv::flag() { t.push_str(["9223372036854775808", "1x", "é", " 1"][hv::choose(4)]); }
            hv::text(&t);
            let num = t.len() > 1 && t.bytes().skip(1).all(|c| c.is_ascii_digit()) && t.len() < 18;
            let o = &d.occ[1];
            let got = e.rename((o.r.0, o.r.1), &t);
            if num { hv::reach(5); hv::check(got.map_or(false, |g| g.is_some()), 6); }
            else { hv::reach(6); hv::check(got.map_or(true, |g| g.is_none()), 7); }
        }
    }
}
