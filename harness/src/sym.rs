//! Intrinsics shared by the symbolic build (wasm64, decided by the engine) and
//! the native replay build (concrete bytes read from a counterexample).
#[cfg(target_family = "wasm")]
mod imp {
    #[link(wasm_import_module = "env")]
    unsafe extern "C" {
        fn vp_sym_byte(name: *const u8, n: usize, lo: u32, hi: u32) -> u32;
        fn vp_assume(c: u32);
        fn vp_check(c: u32, p: *const u8, n: usize);
        fn vp_reach(p: *const u8, n: usize);
        fn vp_observe(v: u64);
        fn vp_hash_mode(m: u32);
        fn vp_panic(p: *const u8, n: usize);
        fn vp_note(p: *const u8, n: usize);
        fn vp_split(v: u64) -> u64;
        fn vp_done();
    }
    pub fn byte(name: &str, lo: u8, hi: u8) -> u8 {
        unsafe { vp_sym_byte(name.as_ptr(), name.len(), lo as u32, hi as u32) as u8 }
    }
    pub fn assume(c: bool) { unsafe { vp_assume(c as u32) } }
    pub fn check(c: bool, msg: &str) { unsafe { vp_check(c as u32, msg.as_ptr(), msg.len()) } }
    pub fn reach(tag: &str) { unsafe { vp_reach(tag.as_ptr(), tag.len()) } }
    pub fn observe(v: u64) { unsafe { vp_observe(v) } }
    /// 0: any fixed order; k: every key hashes to an arbitrary value in 0..k
    pub fn hash_mode(m: u32) { unsafe { vp_hash_mode(m) } }
    pub fn note(s: &str) { unsafe { vp_note(s.as_ptr(), s.len()) } }
    /// Case-split on the value: one path per feasible value.
    pub fn split(v: u64) -> u64 { unsafe { vp_split(v) } }
    pub fn input(_s: &str) {}
    /// end of this path
    #[allow(dead_code)]
    pub fn done() { unsafe { vp_done() } }
    pub fn root() -> &'static str { "/w" }
    pub fn init() {
        let _ = std::fs::create_dir("/w");
        std::panic::set_hook(Box::new(|i| {
            let s = match i.location() {
                Some(l) => format!("{}:{}: {}", l.file().rsplit('/').next().unwrap_or(""), l.line(), i.payload_as_str().unwrap_or("")),
                None => i.to_string(),
            };
            unsafe { vp_panic(s.as_ptr(), s.len()) }
        }));
    }
}

#[cfg(not(target_family = "wasm"))]
mod imp {
    use std::sync::Mutex;
    pub struct Replay {
        pub bytes: Vec<u8>,
        pub at: usize,
        pub obs: Vec<u64>,
        pub reached: Vec<String>,
        pub failed: Option<String>,
        pub infeasible: bool,
        pub hash: bool,
        pub inputs: Vec<String>,
    }
    pub static R: Mutex<Replay> = Mutex::new(Replay {
        bytes: Vec::new(), at: 0, obs: Vec::new(), reached: Vec::new(), failed: None, infeasible: false, hash: false, inputs: Vec::new(),
    });
    fn r() -> std::sync::MutexGuard<'static, Replay> { R.lock().unwrap_or_else(|e| e.into_inner()) }
    pub struct Stop;
    pub fn byte(_name: &str, lo: u8, hi: u8) -> u8 {
        let mut r = r();
        let i = r.at;
        r.at += 1;
        let v = *r.bytes.get(i).unwrap_or(&lo);
        if v < lo || v > hi { r.infeasible = true; return lo; }
        v
    }
    pub fn assume(c: bool) {
        if !c { r().infeasible = true; std::panic::resume_unwind(Box::new(Stop)); }
    }
    pub fn check(c: bool, msg: &str) {
        if !c { r().failed = Some(msg.to_string()); std::panic::resume_unwind(Box::new(Stop)); }
    }
    pub fn reach(tag: &str) { let mut r = r(); if !r.reached.iter().any(|t| t == tag) { r.reached.push(tag.to_string()) } }
    pub fn observe(v: u64) { r().obs.push(v) }
    pub fn hash_mode(m: u32) { if m > 0 { r().hash = true } }
    pub fn note(s: &str) { if std::env::var_os("VP_NOTES").is_some() { eprintln!("note: {s}") } }
    pub fn split(v: u64) -> u64 { v }
    /// remember compiled text for the report
    pub fn input(s: &str) { let mut r = r(); if r.inputs.len() < 12 { r.inputs.push(s.to_string()) } }
    /// scratch directory of this replay (also the working directory)
    pub fn root() -> &'static str {
        static D: std::sync::OnceLock<String> = std::sync::OnceLock::new();
        D.get_or_init(|| std::env::current_dir().unwrap().to_str().unwrap().to_string())
    }
    pub fn init() {}
}
pub use imp::*;

/// Fresh selector in 0..n, kept symbolic.
pub fn choice(name: &str, n: usize) -> usize { byte(name, 0, (n - 1) as u8) as usize }
/// Fresh selector in 0..n, one path per value (use when it picks template text).
pub fn pick(name: &str, n: usize) -> usize { split(byte(name, 0, (n - 1) as u8) as u64) as usize }
pub fn flag(name: &str) -> bool { pick(name, 2) == 1 }
pub fn one_of<T: Copy>(name: &str, set: &[T]) -> T { set[pick(name, set.len())] }
/// Fresh byte drawn from an explicit alphabet (stays symbolic).
pub fn from_set(name: &str, set: &[u8]) -> u8 {
    let b = byte(name, *set.iter().min().unwrap(), *set.iter().max().unwrap());
    let mut ok = 0u32;
    for s in set { ok |= (b == *s) as u32; }
    assume(ok != 0);
    b
}
/// `n` fresh printable-ASCII bytes.
pub fn ascii(name: &str, n: usize) -> Vec<u8> { (0..n).map(|_| byte(name, 0x20, 0x7e)).collect() }
/// Bytes known to be UTF-8 by construction (avoids validation forks).
pub fn text(b: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(b) } }
