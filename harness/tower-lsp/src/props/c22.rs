//! Standard output belongs to the protocol: whatever happens, nobody else writes there.
//! The situations are those of the harnesses of other properties, whose assertions do not count here.
use super::{c01, c14, c16, c17, c18};
use crate::ed::*;
use crate::{hv, LanguageServer};

pub fn run<S: LanguageServer>(e: &Editor<S>, h: u32) {
    hv::check(e.c.lock().unwrap().standard, 506);
    match h / 100 {
        0 => c01::run(e, h),
        1 => c14::run(e, h - 100),
        2 => c16::run(e, h - 200),
        3 => c17::run(e, h - 300),
        _ => c18::run(e, h - 400),
    }
    hv::reach(505);
    hv::check(hv::written() == 0, 505);
}
