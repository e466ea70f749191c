//! One module per property; the cargo feature of a property selects its harnesses.
use crate::ed::Editor;
use crate::LanguageServer;

macro_rules! props { ($($f:literal $m:ident),*) => {
    $(#[cfg(feature = $f)] mod $m;)*
    #[cfg(all(any(feature = "c12", feature = "c18"), not(feature = "c17")))] mod c17;
    #[cfg(feature = "c22")] mod c01;
    #[cfg(feature = "c22")] mod c14;
    #[cfg(feature = "c22")] mod c16;
    #[cfg(feature = "c22")] mod c17;
    #[cfg(feature = "c22")] mod c18;
    pub fn run<S: LanguageServer>(e: &Editor<S>, h: u32) {
        $(#[cfg(feature = $f)] { $m::run(e, h); return; })*
        #[allow(unreachable_code)] { let _ = (e, h); }
    }
} }
props!("c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06, "c07" c07, "c08" c08, "c09" c09, "c10" c10, "c11" c11, "c12" c12, "c13" c13, "c14" c14, "c15" c15, "c16" c16, "c17" c17, "c18" c18, "c21" c21, "c22" c22);
