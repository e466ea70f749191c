//! Concrete replay: `$HV_INPUT` holds the harness number, the parameters and the
//! values of the symbolic inputs, one line each: `harness N`, `param V`, `in V`.
use std::sync::Mutex;

struct Replay { harness: u32, params: Vec<u32>, inputs: Vec<u64>, next: usize }
static STATE: Mutex<Option<Replay>> = Mutex::new(None);

fn with<R>(f: impl FnOnce(&mut Replay) -> R) -> R {
    let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() {
        let mut r = Replay { harness: 0, params: vec![], inputs: vec![], next: 0 };
        let text = std::fs::read_to_string(std::env::var("HV_INPUT").expect("HV_INPUT")).expect("read HV_INPUT");
        for l in text.lines() {
            let mut w = l.split_whitespace();
            let (k, v) = (w.next().unwrap_or(""), w.next().unwrap_or("0"));
            match k {
                "harness" => r.harness = v.parse().unwrap(),
                "param" => r.params.push(v.parse().unwrap()),
                "in" => r.inputs.push(v.parse().unwrap()),
                _ => {}
            }
        }
        *g = Some(r);
    }
    f(g.as_mut().unwrap())
}
/// Creates a file below the scratch directory, which is removed when the replay ends.
pub fn create(path: &str) {
    assert!(path.starts_with(crate::hv::ROOT) && !path.contains(".."));
    std::fs::create_dir_all(std::path::Path::new(path).parent().unwrap()).unwrap();
    std::fs::write(path, "x").unwrap();
}
extern "C" { fn dup(fd: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; fn lseek(fd: i32, o: i64, w: i32) -> i64; }
static OUT: Mutex<Option<std::fs::File>> = Mutex::new(None);
/// Reports go to the original standard output, what the server writes there to a scratch file.
fn say(msg: String) {
    use std::os::fd::{AsRawFd, FromRawFd};
    let mut g = OUT.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() {
        std::fs::create_dir_all(crate::hv::ROOT).unwrap();
        let f = std::fs::File::create(format!("{}/stdout", crate::hv::ROOT)).unwrap();
        unsafe {
            *g = Some(std::fs::File::from_raw_fd(dup(1)));
            dup2(f.as_raw_fd(), 1);
        }
    }
    if !msg.is_empty() { let _ = std::io::Write::write_all(g.as_mut().unwrap(), (msg + "\n").as_bytes()); }
}
pub unsafe fn hv_written() -> u64 { lseek(1, 0, 2) as u64 }
fn exit(msg: String, code: i32) -> ! {
    say(msg);
    std::process::exit(code)
}
pub unsafe fn hv_harness() -> u32 { say(String::new()); with(|r| r.harness) }
pub unsafe fn hv_param(i: u32) -> u32 { with(|r| r.params.get(i as usize).copied().unwrap_or(0)) }
pub unsafe fn hv_sym(bits: u32) -> u64 {
    with(|r| {
        let v = r.inputs.get(r.next).copied().unwrap_or(0);
        r.next += 1;
        if bits < 64 { v & ((1 << bits) - 1) } else { v }
    })
}
pub unsafe fn hv_choose(n: u64) -> u64 {
    let v = hv_sym(8);
    if v >= n { exit(format!("HV choice {} out of {}", v, n), 4) }
    v
}
pub unsafe fn hv_assume(c: bool) { if !c { exit("HV assumption not met".into(), 4) } }
pub unsafe fn hv_assert(c: bool, code: u32) { if !c { exit(format!("HV assertion {} violated", code), 3) } }
pub unsafe fn hv_reach(code: u32) { say(format!("HV reach {}", code)) }
pub unsafe fn hv_text(p: *const u8, n: usize) { say(format!("HV text <<<{}>>>", String::from_utf8_lossy(std::slice::from_raw_parts(p, n)))) }
