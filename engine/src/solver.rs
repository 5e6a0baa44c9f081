//! z3 back end: one context per worker thread, independence slicing by the caller.
use crate::expr::{self, E, FxMap, Op};
use std::ffi::{CStr, CString, c_char, c_int, c_uint, c_void};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
unsafe extern "C" {}
unsafe extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_full_version() -> *const c_char;
}

pub static QUERIES: AtomicU64 = AtomicU64::new(0);
pub static SAT: AtomicU64 = AtomicU64::new(0);
pub static UNSAT: AtomicU64 = AtomicU64::new(0);
pub static UNKNOWN: AtomicU64 = AtomicU64::new(0);
pub static HITS: AtomicU64 = AtomicU64::new(0);
pub static NANOS: AtomicU64 = AtomicU64::new(0);
pub static MAXNS: AtomicU64 = AtomicU64::new(0);
pub static FAST_SAT: AtomicU64 = AtomicU64::new(0);
pub static DOM_UNSAT: AtomicU64 = AtomicU64::new(0);
/// sampled queries for cross-checking with a second solver: (smt2, expected-sat)
pub static SAMPLES: Mutex<Vec<(String, bool)>> = Mutex::new(Vec::new());

extern "C" fn on_err(_c: P, _e: c_int) {}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub struct Z3 {
    c: P,
    s: P,
    sfp: P,
    cache: FxMap<E, P>,
    bv: [P; 65],
    dbl: P,
    rne: P,
    vars: FxMap<u32, P>,
    n: u64,
    timeout: u32,
}

#[derive(Clone, Debug)]
pub enum Ans {
    Sat(Vec<(u8, u8)>), // (var, value)
    Unsat,
    Unknown,
}

const NSH: usize = 64;
type CacheShard = Option<FxMap<u128, Option<Vec<(u8, u8)>>>>;
static CACHE: [Mutex<CacheShard>; NSH] = [const { Mutex::new(None) }; NSH];

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let mk = |l: &str| {
                let sym = CString::new(l).unwrap();
                let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, sym.as_ptr()));
                Z3_solver_inc_ref(c, s);
                s
            };
            let s = match std::env::var("VP_Z3").as_deref() {
                Err(_) => {
                    let s = Z3_mk_simple_solver(c);
                    Z3_solver_inc_ref(c, s);
                    s
                }
                Ok(l) => mk(l),

            };
            let sfp = mk("QF_FPBV");
            Z3 {
                c,
                s,
                sfp,
                cache: FxMap::default(),
                bv: [std::ptr::null_mut(); 65],
                dbl: Z3_mk_fpa_sort_double(c),
                rne: Z3_mk_fpa_rne(c),
                vars: FxMap::default(),
                n: 0,
                timeout: timeout_ms,
            }
        }
    }
    fn set_timeout(&mut self, s: P, ms: u32) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, t.as_ptr()), ms);
            Z3_solver_set_params(self.c, s, p);
            Z3_params_dec_ref(self.c, p);
        }
    }
    pub fn last_query(&mut self, cs: &[E], doms: &[(u8, u8, u8)]) -> String {
        unsafe {
            let s = self.s;
            Z3_solver_push(self.c, s);
            self.assert_all(s, cs, doms);
            let t = CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().into_owned();
            Z3_solver_pop(self.c, s, 1);
            t + "(check-sat)\n"
        }
    }
    unsafe fn assert_all(&mut self, s: P, ids: &[E], doms: &[(u8, u8, u8)]) {
        let c = self.c;
        unsafe {
            for &(i, lo, hi) in doms {
                let v = self.var(i as u32);
                let (l, h) = (self.num(8, lo as u64), self.num(8, hi as u64));
                if lo > 0 {
                    Z3_solver_assert(c, s, Z3_mk_bvule(c, l, v));
                }
                if hi < 255 {
                    Z3_solver_assert(c, s, Z3_mk_bvule(c, v, h));
                }
            }
            for e in ids {
                let a = self.tr(*e);
                Z3_solver_assert(c, s, a);
            }
        }
    }
    fn sort(&mut self, w: u8) -> P {
        if self.bv[w as usize].is_null() {
            self.bv[w as usize] = unsafe { Z3_mk_bv_sort(self.c, w as u32) };
        }
        self.bv[w as usize]
    }
    fn var(&mut self, idx: u32) -> P {
        if let Some(p) = self.vars.get(&idx) {
            return *p;
        }
        let s = self.sort(8);
        let n = CString::new(format!("v{idx}")).unwrap();
        let p = unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), s) };
        self.vars.insert(idx, p);
        p
    }
    /// bit-vector view
    fn tb(&mut self, e: E) -> P {
        let a = self.tr(e);
        if expr::w(e) == 1 {
            let s = self.sort(1);
            unsafe {
                let (o, z) = (Z3_mk_unsigned_int64(self.c, 1, s), Z3_mk_unsigned_int64(self.c, 0, s));
                Z3_mk_ite(self.c, a, o, z)
            }
        } else {
            a
        }
    }
    fn to_bool(&mut self, bv1: P) -> P {
        let s = self.sort(1);
        unsafe { Z3_mk_eq(self.c, bv1, Z3_mk_unsigned_int64(self.c, 1, s)) }
    }
    fn fp(&mut self, e: E) -> P {
        let b = self.tb(e);
        unsafe { Z3_mk_fpa_to_fp_bv(self.c, b, self.dbl) }
    }
    fn num(&mut self, w: u8, v: u64) -> P {
        let s = self.sort(w);
        unsafe { Z3_mk_unsigned_int64(self.c, v, s) }
    }
    fn tr(&mut self, e: E) -> P {
        if let Some(p) = self.cache.get(&e) {
            return *p;
        }
        let n = expr::get(e).n;
        let c = self.c;
        let wd = n.w;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if wd == 1 {
                        if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) }
                    } else {
                        self.num(wd, n.k)
                    }
                }
                Op::Var => self.var((n.k & 0xffff) as u32),
                Op::And | Op::Or | Op::Xor if wd == 1 => {
                    let v = [self.tr(n.a), self.tr(n.b)];
                    match n.op {
                        Op::And => Z3_mk_and(c, 2, v.as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, v.as_ptr()),
                        _ => Z3_mk_xor(c, v[0], v[1]),
                    }
                }
                Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::And | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr => {
                    let (a, b) = (self.tb(n.a), self.tb(n.b));
                    let f = match n.op {
                        Op::Add => Z3_mk_bvadd,
                        Op::Sub => Z3_mk_bvsub,
                        Op::Mul => Z3_mk_bvmul,
                        Op::UDiv => Z3_mk_bvudiv,
                        Op::SDiv => Z3_mk_bvsdiv,
                        Op::URem => Z3_mk_bvurem,
                        Op::SRem => Z3_mk_bvsrem,
                        Op::And => Z3_mk_bvand,
                        Op::Or => Z3_mk_bvor,
                        Op::Xor => Z3_mk_bvxor,
                        Op::Shl => Z3_mk_bvshl,
                        Op::LShr => Z3_mk_bvlshr,
                        _ => Z3_mk_bvashr,
                    };
                    let r = f(c, a, b);
                    if wd == 1 { self.to_bool(r) } else { r }
                }
                Op::Eq => {
                    let (a, b) = (self.tr(n.a), self.tr(n.b));
                    Z3_mk_eq(c, a, b)
                }
                Op::Ult => {
                    let (a, b) = (self.tb(n.a), self.tb(n.b));
                    Z3_mk_bvult(c, a, b)
                }
                Op::Slt => {
                    let (a, b) = (self.tb(n.a), self.tb(n.b));
                    Z3_mk_bvslt(c, a, b)
                }
                Op::Not => {
                    let a = self.tr(n.a);
                    Z3_mk_not(c, a)
                }
                Op::Ite => {
                    let (x, y, z) = (self.tr(n.a), self.tr(n.b), self.tr(n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Concat => {
                    let (a, b) = (self.tb(n.a), self.tb(n.b));
                    Z3_mk_concat(c, a, b)
                }
                Op::Extract => {
                    let a = self.tb(n.a);
                    let r = Z3_mk_extract(c, n.k as u32 + wd as u32 - 1, n.k as u32, a);
                    if wd == 1 { self.to_bool(r) } else { r }
                }
                Op::ZExt => {
                    let a = self.tb(n.a);
                    Z3_mk_zero_ext(c, (wd - expr::w(n.a)) as u32, a)
                }
                Op::SExt => {
                    let a = self.tb(n.a);
                    Z3_mk_sign_ext(c, (wd - expr::w(n.a)) as u32, a)
                }
                Op::Clz | Op::Ctz | Op::Popcnt => {
                    let a = self.tb(n.a);
                    let one = self.num(1, 1);
                    let mut r = self.num(wd, if n.op == Op::Popcnt { 0 } else { wd as u64 });
                    for i in 0..wd {
                        let bit = if n.op == Op::Clz { i } else { wd - 1 - i };
                        let x = Z3_mk_extract(c, bit as u32, bit as u32, a);
                        if n.op == Op::Popcnt {
                            let z = Z3_mk_zero_ext(c, wd as u32 - 1, x);
                            r = Z3_mk_bvadd(c, r, z);
                        } else {
                            let t = Z3_mk_eq(c, x, one);
                            let v = self.num(wd, if n.op == Op::Clz { (wd - 1 - i) as u64 } else { bit as u64 });
                            r = Z3_mk_ite(c, t, v, r);
                        }
                    }
                    r
                }
                Op::FMul if expr::farith_bits(n.op, n.a, n.b).is_some() => {
                    let e = expr::farith_bits(n.op, n.a, n.b).unwrap();
                    self.tb(e)
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let (a, b) = (self.fp(n.a), self.fp(n.b));
                    let f = match n.op {
                        Op::FAdd => Z3_mk_fpa_add,
                        Op::FSub => Z3_mk_fpa_sub,
                        Op::FMul => Z3_mk_fpa_mul,
                        _ => Z3_mk_fpa_div,
                    };
                    let r = f(c, self.rne, a, b);
                    Z3_mk_fpa_to_ieee_bv(c, r)
                }
                Op::FEq | Op::FLt | Op::FLe => {
                    let (a, b) = (self.fp(n.a), self.fp(n.b));
                    match n.op {
                        Op::FEq => Z3_mk_fpa_eq(c, a, b),
                        Op::FLt => Z3_mk_fpa_lt(c, a, b),
                        _ => Z3_mk_fpa_leq(c, a, b),
                    }
                }
                Op::FFromU | Op::FFromS => {
                    let e = expr::ffrom_bits(n.op == Op::FFromS, n.a);
                    self.tb(e)
                }
            }
        };
        self.cache.insert(e, r);
        r
    }

    /// Decide the conjunction of `cs`; `doms` gives (idx, lo, hi) for the variables in it.
    pub fn check(&mut self, cs: &[E], doms: &[(u8, u8, u8)], left_ms: u32) -> Ans {
        let mut key: u128 = 0x9E3779B97F4A7C15F39CC0605CEDC835;
        let mut ids: Vec<E> = cs.to_vec();
        ids.sort_unstable();
        ids.dedup();
        for e in &ids {
            key = (key ^ *e as u128).wrapping_mul(0x0000000001000000000000000000013B_u128 | 1 << 88);
            key ^= key >> 61;
        }
        let sh = (key >> 70) as usize % NSH;
        if let Some(m) = CACHE[sh].lock().unwrap().get_or_insert_with(FxMap::default).get(&key) {
            HITS.fetch_add(1, Relaxed);
            return match m {
                Some(v) => Ans::Sat(v.clone()),
                None => Ans::Unsat,
            };
        }
        if self.cache.len() > 3_000_000 {
            unsafe { Z3_del_context(self.c) };
            *self = Z3::new(self.timeout);
        }
        let has_fp = ids.iter().any(|e| uses_fp(*e));
        let t0 = Instant::now();
        QUERIES.fetch_add(1, Relaxed);
        self.n += 1;
        unsafe {
            let c = self.c;
            let s = if has_fp { self.sfp } else { self.s };
            Z3_solver_push(c, s);
            self.set_timeout(s, self.timeout.min(left_ms).max(1));
            self.assert_all(s, &ids, doms);
            let r = Z3_solver_check(c, s);
            let r = if Z3_get_error_code(c) != 0 { 0 } else { r };
            let ans = match r {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for &(i, _, _) in doms {
                        let v = self.var(i as u32);
                        let mut o: P = std::ptr::null_mut();
                        let mut x = 0u64;
                        if Z3_model_eval(c, m, v, true, &mut o) && Z3_get_numeral_uint64(c, o, &mut x) {
                            out.push((i, x as u8));
                        }
                    }
                    Z3_model_dec_ref(c, m);
                    SAT.fetch_add(1, Relaxed);
                    Ans::Sat(out)
                }
                -1 => {
                    UNSAT.fetch_add(1, Relaxed);
                    Ans::Unsat
                }
                _ => {
                    UNKNOWN.fetch_add(1, Relaxed);
                    Ans::Unknown
                }
            };
            if self.n % 997 == 1 && !matches!(ans, Ans::Unknown) {
                let mut g = SAMPLES.lock().unwrap();
                if g.len() < 64 {
                    let t = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned();
                    g.push((t, matches!(ans, Ans::Sat(_))));
                }
            }
            Z3_solver_pop(c, s, 1);
            let ns = t0.elapsed().as_nanos() as u64;
            NANOS.fetch_add(ns, Relaxed);
            MAXNS.fetch_max(ns, Relaxed);
            match &ans {
                Ans::Sat(v) => {
                    CACHE[sh].lock().unwrap().get_or_insert_with(FxMap::default).insert(key, Some(v.clone()));
                }
                Ans::Unsat => {
                    CACHE[sh].lock().unwrap().get_or_insert_with(FxMap::default).insert(key, None);
                }
                _ => {}
            }
            ans
        }
    }
}

pub fn uses_fp(e: E) -> bool {
    if !ANY_FP.load(Relaxed) {
        return false;
    }
    let mut seen = FxMap::default();
    fn go(e: E, s: &mut FxMap<E, ()>) -> bool {
        if e == 0 || s.insert(e, ()).is_some() {
            return false;
        }
        let n = expr::get(e).n;
        n.op as u8 >= Op::FAdd as u8 || go(n.a, s) || go(n.b, s) || go(n.c, s)
    }
    go(e, &mut seen)
}
/// More than `n` distinct nodes?
pub fn bigger(e: E, n: usize) -> bool {
    fn go(e: E, s: &mut FxMap<E, ()>, n: usize) -> bool {
        if e == 0 || s.insert(e, ()).is_some() {
            return false;
        }
        let k = expr::get(e).n;
        s.len() > n || go(k.a, s, n) || go(k.b, s, n) || go(k.c, s, n)
    }
    go(e, &mut FxMap::default(), n)
}
pub static ANY_FP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Zero the per-entry counters (the query cache is kept).
pub fn reset() {
    for c in [&QUERIES, &SAT, &UNSAT, &UNKNOWN, &HITS, &NANOS, &MAXNS, &FAST_SAT, &DOM_UNSAT] {
        c.store(0, Relaxed);
    }
    SAMPLES.lock().unwrap().clear();
}
