//! Stands in for env_logger: messages to standard error are dropped, messages to standard output
//! are written if the user's settings could have them written, i.e. always.
use log::LevelFilter;
use std::borrow::Cow;
type Done = Result<(), std::fmt::Error>;
pub fn init() {}
pub fn try_init() -> Done { Ok(()) }
pub fn init_from_env<'a, E: Into<Env<'a>>>(_env: E) {}
pub fn try_init_from_env<'a, E: Into<Env<'a>>>(_env: E) -> Done { Ok(()) }
pub fn builder() -> Builder { Builder::new() }
pub const DEFAULT_FILTER_ENV: &str = "RUST_LOG";
pub const DEFAULT_WRITE_STYLE_ENV: &str = "RUST_LOG_STYLE";

#[derive(Debug, Default)]
pub struct Env<'a>(std::marker::PhantomData<&'a ()>);
impl<'a> Env<'a> {
    pub fn new() -> Self { Env::default() }
    pub fn filter<E: Into<Cow<'a, str>>>(self, _e: E) -> Self { self }
    pub fn filter_or<E: Into<Cow<'a, str>>, V: Into<Cow<'a, str>>>(self, _e: E, _v: V) -> Self { self }
    pub fn default_filter_or<V: Into<Cow<'a, str>>>(self, _v: V) -> Self { self }
    pub fn default_write_style_or<V: Into<Cow<'a, str>>>(self, _v: V) -> Self { self }
}
impl<'a> From<&'a str> for Env<'a> { fn from(_s: &'a str) -> Self { Env::default() } }

#[derive(Debug, Clone, Copy)]
pub enum Target { Stdout, Stderr }
#[derive(Debug, Clone, Copy)]
pub enum WriteStyle { Auto, Always, Never }
#[derive(Debug, Clone, Copy)]
pub enum TimestampPrecision { Seconds, Millis, Micros, Nanos }

struct Stdout;
impl log::Log for Stdout {
    fn enabled(&self, _m: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { println!("{}", r.args()); }
    fn flush(&self) {}
}
#[derive(Debug, Default)]
pub struct Builder(bool);
impl Builder {
    pub fn new() -> Self { Builder(false) }
    pub fn from_default_env() -> Self { Builder(false) }
    pub fn from_env<'a, E: Into<Env<'a>>>(_env: E) -> Self { Builder(false) }
    pub fn parse_default_env(&mut self) -> &mut Self { self }
    pub fn parse_env<'a, E: Into<Env<'a>>>(&mut self, _env: E) -> &mut Self { self }
    pub fn parse_filters(&mut self, _f: &str) -> &mut Self { self }
    pub fn filter(&mut self, _m: Option<&str>, _l: LevelFilter) -> &mut Self { self }
    pub fn filter_level(&mut self, _l: LevelFilter) -> &mut Self { self }
    pub fn filter_module(&mut self, _m: &str, _l: LevelFilter) -> &mut Self { self }
    pub fn format_timestamp(&mut self, _t: Option<TimestampPrecision>) -> &mut Self { self }
    pub fn format_module_path(&mut self, _b: bool) -> &mut Self { self }
    pub fn format_level(&mut self, _b: bool) -> &mut Self { self }
    pub fn format_target(&mut self, _b: bool) -> &mut Self { self }
    pub fn write_style(&mut self, _w: WriteStyle) -> &mut Self { self }
    pub fn target(&mut self, t: Target) -> &mut Self { self.0 = matches!(t, Target::Stdout); self }
    pub fn is_test(&mut self, _b: bool) -> &mut Self { self }
    pub fn init(&mut self) { let _ = self.try_init(); }
    pub fn try_init(&mut self) -> Done {
        if self.0 && log::set_logger(&Stdout).is_ok() { log::set_max_level(LevelFilter::Trace); }
        Ok(())
    }
}
