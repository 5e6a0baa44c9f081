//! Symbolic interpreter and path explorer.
use crate::expr::{self, E, FxMap, Op};
use crate::solver::{self, Ans, Z3};
use crate::wasm::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Default)]
pub struct Slot {
    pub v: u64,
    pub e: E,
}
#[inline(always)]
fn cs(v: u64) -> Slot {
    Slot { v, e: 0 }
}

const PB: u64 = 12;
const PS: usize = 1 << PB;
#[derive(Clone)]
pub struct Page {
    d: [u8; PS],
    s: Option<Box<[E; PS]>>,
}

#[derive(Clone)]
pub struct State {
    fi: u32,
    pc: u32,
    base: u32,
    frames: Vec<(u32, u32, u32)>,
    regs: Vec<Slot>,
    mem: Vec<Arc<Page>>,
    globals: Vec<Slot>,
    cons: Vec<E>,
    model: Vec<u8>,
    vars: Vec<(u8, u8)>,
    names: Vec<u32>,
    doms: Vec<[u64; 4]>,
    fixed: u128,
    obs: Vec<Slot>,
    reached: Vec<u32>,
    hash_mode: u32,
    hmap: Vec<(u64, E)>,
    steps: u64,
    panic: Option<String>,
    forks: u32,
}

pub struct Cex {
    pub kind: String,
    pub msg: String,
    pub bytes: Vec<u8>,
    pub trace: Vec<String>,
}
pub struct PathRec {
    pub bytes: Vec<u8>,
    pub obs: Vec<u64>,
    pub reached: Vec<u32>,
}

pub struct Cfg {
    pub threads: usize,
    pub max_steps: u64,
    pub deadline: Instant,
    pub solver_ms: u32,
    pub keep_paths: usize,
    pub max_cex: usize,
    pub slow_dir: Option<String>,
}

#[derive(Default)]
pub struct Res {
    pub paths: u64,
    pub assumed: u64,
    pub checks: u64,
    pub checks_sym: u64,
    pub cex: Vec<Cex>,
    pub incomplete: Vec<String>,
    pub reach: BTreeMap<String, (u64, Vec<u8>)>,
    pub samples: Vec<PathRec>,
    pub steps: u64,
    pub funcs: Vec<bool>,
    pub fork_sites: HashMap<(u32, u32), u64>,
    pub forks: u64,
    pub conc: u64,
    pub max_vars: usize,
    pub notes: Vec<String>,
    pub slow: Vec<String>,
    pub check_msgs: BTreeMap<String, u64>,
}

pub struct Ex<'m> {
    pub m: &'m Module,
    pub cfg: Cfg,
    q: Mutex<(Vec<Box<State>>, usize)>, // queue, running
    cv: Condvar,
    stop: AtomicBool,
    strs: Mutex<(Vec<String>, HashMap<String, u32>)>,
    pub res: Mutex<Res>,
    npaths: AtomicU64,
    nq: AtomicUsize,
}

enum End {
    Done,
    Assumed,
    Trap(String),
    Incomplete(String),
    Stopped,
}

impl<'m> Ex<'m> {
    pub fn new(m: &'m Module, cfg: Cfg) -> Self {
        Ex {
            m,
            cfg,
            q: Mutex::new((vec![], 0)),
            cv: Condvar::new(),
            stop: AtomicBool::new(false),
            strs: Mutex::new((vec![], HashMap::new())),
            res: Mutex::new(Res { funcs: vec![false; m.funcs.len()], ..Default::default() }),
            npaths: AtomicU64::new(0),
            nq: AtomicUsize::new(0),
        }
    }
    fn intern(&self, s: &str) -> u32 {
        let mut g = self.strs.lock().unwrap();
        if let Some(&i) = g.1.get(s) {
            return i;
        }
        let i = g.0.len() as u32;
        g.0.push(s.to_string());
        g.1.insert(s.to_string(), i);
        i
    }
    pub fn str(&self, i: u32) -> String {
        self.strs.lock().unwrap().0[i as usize].clone()
    }

    /// Run `warm` concretely and return the resulting machine state as the start of every entry.
    pub fn snapshot(&self, warm: Option<u32>) -> State {
        let mut st = self.initial(warm.unwrap_or(0));
        if warm.is_some() {
            let mut w = Worker { ex: self, z: Z3::new(1000), r: Res { funcs: vec![false; self.m.funcs.len()], ..Default::default() }, local: vec![], nst: 0 };
            let mut b = Box::new(st);
            match w.exec(&mut b) {
                End::Done => {}
                _ => {
                    eprintln!("warm-up failed: {:?} {}", b.panic, w.trace(&b).join(" < "));
                    std::process::exit(3)
                }
            }
            st = *b;
        }
        st.pc = 0;
        st.base = 0;
        st.frames.clear();
        st.steps = 0;
        st
    }
    fn initial(&self, entry: u32) -> State {
        let zero = Arc::new(Page { d: [0; PS], s: None });
        let npages = (self.m.mem_min as usize) << (16 - PB);
        let mut st = State {
            fi: entry,
            pc: 0,
            base: 0,
            frames: vec![],
            regs: vec![Slot::default(); 1 << 14],
            mem: vec![zero; npages],
            globals: self.m.globals.iter().map(|v| cs(*v)).collect(),
            cons: vec![],
            model: vec![],
            vars: vec![],
            names: vec![],
            doms: vec![],
            fixed: 0,
            obs: vec![],
            reached: vec![],
            hash_mode: 0,
            hmap: vec![],
            steps: 0,
            panic: None,
            forks: 0,
        };
        for (off, d) in &self.m.data {
            for (i, b) in d.iter().enumerate() {
                let a = off + i as u64;
                Arc::make_mut(&mut st.mem[(a >> PB) as usize]).d[(a as usize) & (PS - 1)] = *b;
            }
        }
        st
    }
    pub fn run(&self, entry: u32, start: &State) {
        let mut st = start.clone();
        st.fi = entry;
        self.q.lock().unwrap().0.push(Box::new(st));
        self.nq.store(1, Relaxed);
        std::thread::scope(|s| {
            for _ in 0..self.cfg.threads {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, || {
                        let mut w = Worker {
                            ex: self,
                            z: Z3::new(self.cfg.solver_ms),
                            r: Res { funcs: vec![false; self.m.funcs.len()], ..Default::default() },
                            local: vec![],
                            nst: 0,
                        };
                        w.work();
                        let mut g = self.res.lock().unwrap();
                        let r = w.r;
                        g.paths += r.paths;
                        g.assumed += r.assumed;
                        g.checks += r.checks;
                        g.checks_sym += r.checks_sym;
                        g.steps += r.steps;
                        g.forks += r.forks;
                        g.conc += r.conc;
                        g.max_vars = g.max_vars.max(r.max_vars);
                        for (k, v) in r.check_msgs {
                            *g.check_msgs.entry(k).or_default() += v;
                        }
                        g.notes.extend(r.notes);
                        for (a, b) in g.funcs.iter_mut().zip(r.funcs) {
                            *a |= b;
                        }
                        for (k, v) in r.fork_sites {
                            *g.fork_sites.entry(k).or_default() += v;
                        }
                        for (k, v) in r.reach {
                            let e = g.reach.entry(k).or_insert((0, v.1));
                            e.0 += v.0;
                        }
                    })
                    .unwrap();
            }
        });
    }
}

struct Worker<'a, 'm> {
    ex: &'a Ex<'m>,
    z: Z3,
    r: Res,
    local: Vec<Box<State>>,
    nst: u64,
}

fn dom_has(d: &[u64; 4], v: usize) -> bool {
    d[v >> 6] >> (v & 63) & 1 == 1
}

impl<'a, 'm> Worker<'a, 'm> {
    fn push(&mut self, st: Box<State>) {
        if self.ex.nq.load(Relaxed) < self.ex.cfg.threads * 2 {
            let mut g = self.ex.q.lock().unwrap();
            g.0.push(st);
            self.ex.nq.store(g.0.len(), Relaxed);
            drop(g);
            self.ex.cv.notify_one();
        } else {
            self.local.push(st);
        }
    }
    fn work(&mut self) {
        loop {
            if self.ex.stop.load(Relaxed) {
                return;
            }
            let st = if let Some(s) = self.local.pop() {
                self.ex.q.lock().unwrap().1 += 1;
                Some(s)
            } else {
                let mut g = self.ex.q.lock().unwrap();
                loop {
                    if self.ex.stop.load(Relaxed) {
                        return;
                    }
                    if let Some(s) = g.0.pop() {
                        g.1 += 1;
                        self.ex.nq.store(g.0.len(), Relaxed);
                        break Some(s);
                    }
                    if g.1 == 0 {
                        self.ex.cv.notify_all();
                        return;
                    }
                    g = self.ex.cv.wait_timeout(g, Duration::from_millis(20)).unwrap().0;
                }
            };
            let mut st = st.unwrap();
            let end = self.exec(&mut st);
            self.finish(st, end);
            // keep the shared queue fed
            if !self.local.is_empty() && self.ex.nq.load(Relaxed) < self.ex.cfg.threads {
                let mut g = self.ex.q.lock().unwrap();
                let n = self.local.len().div_ceil(2);
                for s in self.local.drain(..n) {
                    g.0.push(s);
                }
                self.ex.nq.store(g.0.len(), Relaxed);
                drop(g);
                self.ex.cv.notify_all();
            }
            let mut g = self.ex.q.lock().unwrap();
            g.1 -= 1;
            if g.1 == 0 && g.0.is_empty() {
                drop(g);
                self.ex.cv.notify_all();
            }
        }
    }

    fn finish(&mut self, st: Box<State>, end: End) {
        self.r.max_vars = self.r.max_vars.max(st.vars.len());
        match end {
            End::Assumed => self.r.assumed += 1,
            End::Stopped => {
                let mut g = self.ex.res.lock().unwrap();
                if g.incomplete.is_empty() {
                    g.incomplete.push("time budget exhausted".into());
                }
            }
            End::Incomplete(m) => {
                let mut g = self.ex.res.lock().unwrap();
                if g.incomplete.len() < 20 {
                    g.incomplete.push(format!("{m} [{}]", hex(&st.model)));
                }
            }
            End::Done | End::Trap(_) => {
                self.r.paths += 1;
                let n = self.ex.npaths.fetch_add(1, Relaxed) + 1;
                if let End::Trap(m) = end {
                    let msg = match &st.panic {
                        Some(p) => format!("panic: {p}"),
                        None => m,
                    };
                    let tr = self.trace(&st);
                    self.cex("panic", msg, st.model.clone(), tr);
                } else {
                    for t in &st.reached {
                        let s = self.ex.str(*t);
                        let e = self.r.reach.entry(s).or_insert_with(|| (0, st.model.clone()));
                        e.0 += 1;
                    }
                    let keep = self.ex.cfg.keep_paths as u64;
                    // reservoir-like: first half deterministic, rest spread
                    let mut g = self.ex.res.lock().unwrap();
                    if (g.samples.len() as u64) < keep && (n < keep / 2 || n % 37 == 0 || n % 101 == 0) {
                        let obs = st.obs.iter().map(|s| if s.e == 0 { s.v } else { expr::eval(s.e, &st.model) }).collect();
                        g.samples.push(PathRec { bytes: st.model.clone(), obs, reached: st.reached.clone() });
                    }
                }
            }
        }
    }
    fn trace(&self, st: &State) -> Vec<String> {
        let mut v = vec![self.ex.m.funcs[st.fi as usize].name.clone()];
        for f in st.frames.iter().rev().take(24) {
            v.push(self.ex.m.funcs[f.0 as usize].name.clone());
        }
        v
    }
    fn cex(&mut self, kind: &str, msg: String, bytes: Vec<u8>, trace: Vec<String>) {
        let mut g = self.ex.res.lock().unwrap();
        if g.cex.iter().filter(|c| c.msg == msg).count() < 3 {
            g.cex.push(Cex { kind: kind.into(), msg, bytes, trace });
        }
        if g.cex.len() >= self.ex.cfg.max_cex {
            self.ex.stop.store(true, Relaxed);
        }
    }

    // ------------------------------------------------------------ constraints
    fn add_con(&self, st: &mut State, c: E) {
        if expr::isc(c).is_some() {
            return;
        }
        // split conjunctions so that slicing works per conjunct
        let n = expr::get(c).n;
        if n.op == Op::And && n.w == 1 {
            self.add_con(st, n.a);
            self.add_con(st, n.b);
            return;
        }
        let vs = expr::vars(c);
        if vs.count_ones() != 1 {
            st.cons.push(c);
        } else {
            let i = vs.trailing_zeros() as usize;
            let mut md = st.model.clone();
            let mut d = st.doms[i];
            for v in 0..256usize {
                if dom_has(&d, v) {
                    md[i] = v as u8;
                    if expr::eval(c, &md) != 1 {
                        d[v >> 6] &= !(1u64 << (v & 63));
                    }
                }
            }
            st.doms[i] = d;
            if d.iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
                st.fixed |= 1u128 << i;
            }
        }
    }
    /// Is `cons ∧ c` satisfiable? Returns a model when it is.
    fn feasible(&mut self, st: &State, c: E, must_solve: bool) -> Result<Option<Vec<u8>>, String> {
        match expr::isc(c) {
            Some(1) => return Ok(Some(st.model.clone())),
            Some(_) => return Ok(None),
            None => {}
        }
        if let Some(&l) = st.cons.last() {
            if l == c {
                return Ok(Some(st.model.clone()));
            }
        }
        if expr::eval(c, &st.model) == 1 {
            return Ok(Some(st.model.clone()));
        }
        // independence slice
        let mut vs = expr::vars(c);
        let mut set = vec![c];
        let mut used = vec![false; st.cons.len()];
        loop {
            let mut ch = false;
            for (i, k) in st.cons.iter().enumerate() {
                if !used[i] && expr::vars(*k) & vs != 0 {
                    used[i] = true;
                    vs |= expr::vars(*k);
                    set.push(*k);
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        // One byte involved: decide by its finite domain (every 1-variable conjunct has already been
        // folded into it). Verdicts of assertions, and a sample of the rest, still go to z3.
        let mut dom_unsat = false;
        if vs.count_ones() == 1 {
            dom_unsat = true;
            let i = vs.trailing_zeros() as usize;
            let mut md = st.model.clone();
            for v in 0..256usize {
                if dom_has(&st.doms[i], v) {
                    md[i] = v as u8;
                    if expr::eval(c, &md) == 1 {
                        solver::FAST_SAT.fetch_add(1, Relaxed);
                        return Ok(Some(md));
                    }
                }
            }
        }
        for i in 0..st.vars.len() {
            if vs >> i & 1 == 1 {
                let (lo, hi) = st.vars[i];
                let vals: Vec<u8> = (lo..=hi).filter(|v| dom_has(&st.doms[i], *v as usize)).collect();
                if vals.len() != hi as usize - lo as usize + 1 {
                    set.push(member(expr::var(i, lo, hi), &vals, &[!0; 4]));
                }
            }
        }
        if dom_unsat && !must_solve {
            // (z3 is slow on IEEE arithmetic and large terms: there the domain verdict stands alone, sampled)
            if (solver::uses_fp(c) || solver::bigger(c, 150)) && solver::DOM_UNSAT.fetch_add(1, Relaxed) % 256 != 0 {
                return Ok(None);
            }
        }
        let mut doms = vec![];
        for i in 0..st.vars.len() {
            if vs >> i & 1 == 1 {
                doms.push((i as u8, st.vars[i].0, st.vars[i].1));
            }
        }
        let left = self.ex.cfg.deadline.saturating_duration_since(Instant::now()).as_millis() as u32;
        let t0 = Instant::now();
        let ans = if dom_unsat && solver::bigger(c, 150) {
            // large assertion over one byte: one query per value, which z3 decides by propagation
            let (i, (lo, hi)) = (doms[0].0, (doms[0].1, doms[0].2));
            let mut a = Ans::Unsat;
            for v in (lo..=hi).filter(|v| dom_has(&st.doms[i as usize], *v as usize)) {
                set.push(expr::eq(expr::var(i as usize, lo, hi), expr::konst(8, v as u64)));
                a = self.z.check(&set, &doms, left);
                set.pop();
                if !matches!(a, Ans::Unsat) {
                    break;
                }
            }
            a
        } else {
            self.z.check(&set, &doms, left)
        };
        let el = t0.elapsed().as_millis();
        if el > 500 {
            let tr = self.trace(st);
            let mut g = self.ex.res.lock().unwrap();
            if g.slow.len() < 100 {
                g.slow.push(format!("{el} ms, {} conjuncts, {} vars, {:?}: {}", set.len(), vs.count_ones(), ans, tr[..tr.len().min(4)].join(" < ")));
                if let Some(d) = &self.ex.cfg.slow_dir {
                    std::fs::write(format!("{d}/s{}.smt2", g.slow.len()), self.z.last_query(&set, &doms)).ok();
                }
            }
        }
        match ans {
            Ans::Sat(_) if dom_unsat => Err("finite-domain verdict contradicted by z3".into()),
            Ans::Unknown if dom_unsat && !must_solve => Ok(None),
            Ans::Sat(v) => {
                let mut md = st.model.clone();
                for (i, x) in v {
                    md[i as usize] = x;
                }
                if set.iter().any(|k| expr::eval(*k, &md) != 1) {
                    return Err("solver model does not satisfy the encoding (translation mismatch)".into());
                }
                Ok(Some(md))
            }
            Ans::Unsat => Ok(None),
            Ans::Unknown if Instant::now() > self.ex.cfg.deadline => Err("time budget exhausted".into()),
            Ans::Unknown => Err(format!("solver returned unknown at {}", self.trace(st)[..3.min(st.frames.len() + 1)].join(" < "))),
        }
    }
    /// Branch on boolean expression `c`; forks a re-executing sibling when both sides are feasible.
    fn decide(&mut self, st: &mut State, c: E) -> Result<bool, End> {
        if let Some(k) = expr::isc(c) {
            return Ok(k == 1);
        }
        let v = expr::eval(c, &st.model) == 1;
        if let Some(&l) = st.cons.last() {
            if l == c || l == expr::not(c) {
                return Ok(v);
            }
        }
        if expr::vars(c) & !st.fixed == 0 {
            return Ok(v);
        }
        let (taken, other) = if v { (c, expr::not(c)) } else { (expr::not(c), c) };
        match self.feasible(st, other, false) {
            Ok(Some(md)) => {
                let mut s2 = Box::new(st.clone());
                s2.model = md;
                s2.forks += 1;
                self.add_con(&mut s2, other);
                self.r.forks += 1;
                *self.r.fork_sites.entry((st.fi, st.pc)).or_default() += 1;
                self.push(s2);
                self.add_con(st, taken);
                Ok(v)
            }
            Ok(None) => Ok(v),
            Err(e) => Err(End::Incomplete(e)),
        }
    }
    fn concretize(&mut self, st: &mut State, s: Slot) -> Result<u64, End> {
        if s.e == 0 {
            return Ok(s.v);
        }
        let v = expr::eval(s.e, &st.model);
        if expr::vars(s.e) & !st.fixed == 0 {
            return Ok(v);
        }
        self.r.conc += 1;
        let c = expr::eq(s.e, expr::konst(expr::w(s.e), v));
        // under the model c holds, so `decide` continues with it
        self.decide(st, c)?;
        Ok(v)
    }

    // ------------------------------------------------------------ memory
    #[inline(always)]
    fn page(st: &State, a: u64) -> Option<&Page> {
        st.mem.get((a >> PB) as usize).map(|p| &**p)
    }
    #[inline(always)]
    fn page_mut(st: &mut State, a: u64) -> Option<&mut Page> {
        let p = st.mem.get_mut((a >> PB) as usize)?;
        if Arc::strong_count(p) != 1 {
            *p = Arc::new((**p).clone());
        }
        Some(unsafe { &mut *(Arc::as_ptr(p) as *mut Page) })
    }
    #[inline]
    fn byte(st: &State, a: u64) -> Option<Slot> {
        let p = Self::page(st, a)?;
        let o = a as usize & (PS - 1);
        Some(Slot { v: p.d[o] as u64, e: p.s.as_ref().map_or(0, |s| s[o]) })
    }
    fn put_byte(st: &mut State, a: u64, s: Slot) -> Option<()> {
        let p = Self::page_mut(st, a)?;
        let o = a as usize & (PS - 1);
        p.d[o] = s.v as u8;
        if s.e != 0 {
            p.s.get_or_insert_with(|| Box::new([0; PS]))[o] = s.e;
        } else if let Some(x) = &mut p.s {
            x[o] = 0;
        }
        Some(())
    }
    /// 128-bit product by a small constant: the high half is a sum of threshold comparisons,
    /// which keeps checked multiplications linear (compiler-rt's limb products are not)
    fn multi3(st: &mut State, a: &[Slot]) -> Option<()> {
        let ret = a[0];
        let small = |lo: Slot, hi: Slot| (lo.e == 0 && hi.e == 0 && hi.v == 0 && lo.v <= 64).then_some(lo.v);
        let (x, xh, c) = match (small(a[3], a[4]), small(a[1], a[2])) {
            (Some(c), _) => (a[1], a[2], c),
            (_, Some(c)) => (a[3], a[4], c),
            _ => return None,
        };
        if ret.e != 0 || (x.e == 0 && xh.e == 0) {
            return None;
        }
        let (x, xh) = (fit(x, 64), fit(xh, 64));
        let lo = expr::bin(Op::Mul, x, expr::konst(64, c));
        let mut hi = expr::bin(Op::Mul, xh, expr::konst(64, c));
        let nx = expr::get(x);
        let top = (nx.max as u128 * c as u128) >> 64;
        for j in 1..=top {
            let t = ((j << 64) + c as u128 - 1) / c as u128;
            let ge = expr::not(expr::ult(x, expr::konst(64, t as u64)));
            hi = expr::bin(Op::Add, hi, expr::zext(ge, 64));
        }
        Self::store_raw(st, ret.v, 8, norm(lo))?;
        Self::store_raw(st, ret.v + 8, 8, norm(hi))
    }
    /// zero-extended little-endian load of n bytes; expr width = 8n
    fn load_raw(st: &State, a: u64, n: usize) -> Option<Slot> {
        let o = a as usize & (PS - 1);
        if o + n <= PS {
            let p = Self::page(st, a)?;
            if p.s.as_ref().is_none_or(|s| s[o..o + n].iter().all(|e| *e == 0)) {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&p.d[o..o + n]);
                return Some(cs(u64::from_le_bytes(b)));
            }
        }
        let mut any = false;
        let mut by = [Slot::default(); 8];
        for (i, x) in by.iter_mut().enumerate().take(n) {
            *x = Self::byte(st, a.wrapping_add(i as u64))?;
            if x.e != 0 && expr::vars(x.e) & !st.fixed == 0 {
                *x = cs(expr::eval(x.e, &st.model));
            }
            any |= x.e != 0;
        }
        if !any {
            let mut v = 0;
            for i in (0..n).rev() {
                v = v << 8 | by[i].v;
            }
            return Some(cs(v));
        }
        let tob = |s: Slot| if s.e != 0 { s.e } else { expr::konst(8, s.v) };
        let mut e = tob(by[n - 1]);
        for i in (0..n - 1).rev() {
            e = expr::concat(e, tob(by[i]));
        }
        if let Some(k) = expr::isc(e) {
            return Some(cs(k));
        }
        Some(Slot { v: 0, e })
    }
    fn store_raw(st: &mut State, a: u64, n: usize, s: Slot) -> Option<()> {
        if s.e == 0 {
            let o = a as usize & (PS - 1);
            if o + n <= PS {
                let p = Self::page_mut(st, a)?;
                p.d[o..o + n].copy_from_slice(&s.v.to_le_bytes()[..n]);
                if let Some(x) = &mut p.s {
                    x[o..o + n].fill(0);
                }
                return Some(());
            }
            for i in 0..n {
                Self::put_byte(st, a.wrapping_add(i as u64), cs(s.v >> (8 * i) & 255))?;
            }
            return Some(());
        }
        for i in 0..n {
            let b = expr::extract(s.e, 8 * i as u8, 8);
            let sl = match expr::isc(b) {
                Some(k) => cs(k),
                None => Slot { v: 0, e: b },
            };
            Self::put_byte(st, a.wrapping_add(i as u64), sl)?;
        }
        Some(())
    }
    /// Load through a symbolic address that depends on one byte variable: table as ITE over its domain.
    fn load_sym(&mut self, st: &mut State, addr: E, off: u64, n: usize) -> Result<Option<Slot>, End> {
        let vs = expr::vars(addr) & !st.fixed;
        if vs.count_ones() != 1 {
            // base + index over different bytes: fix the widest-ranging terms, keep the narrowest
            let nd = expr::get(addr).n;
            if nd.op == Op::Add {
                let rng = |e: E| expr::get(e).max - expr::get(e).min;
                let (fixt, keep) = if rng(nd.a) > rng(nd.b) { (nd.a, nd.b) } else { (nd.b, nd.a) };
                if expr::isc(fixt).is_none() && expr::isc(keep).is_none() {
                    let v = self.concretize(st, Slot { v: 0, e: fixt })?;
                    return self.load_sym(st, keep, off.wrapping_add(v), n);
                }
            }
            return Ok(None);
        }
        let all = vs;
        let i = all.trailing_zeros() as usize;
        let mut md = st.model.clone();
        let mut groups: Vec<(Slot, Vec<u8>)> = vec![];
        let (mut lo, mut hi) = (u64::MAX, 0u64);
        for v in 0..256usize {
            if !dom_has(&st.doms[i], v) {
                continue;
            }
            md[i] = v as u8;
            let a = expr::eval(addr, &md).wrapping_add(off);
            lo = lo.min(a);
            hi = hi.max(a);
            if hi - lo > 1 << 16 {
                return Ok(None);
            }
            let Some(s) = Self::load_raw(st, a, n) else { return Ok(None) };
            match groups.iter_mut().find(|g| g.0.e == s.e && (s.e != 0 || g.0.v == s.v)) {
                Some(g) => g.1.push(v as u8),
                None => groups.push((s, vec![v as u8])),
            }
        }
        if groups.is_empty() {
            return Ok(None);
        }
        // a table of pointers (automaton states, vtables): split by target instead of building a
        // symbolic pointer
        let msz = (st.mem.len() as u64) << PB;
        if n == 8 && groups.len() > 1 && groups.iter().all(|g| g.0.e == 0 && (g.0.v == 0 || g.0.v > 0x10000 && g.0.v < msz)) {
            let x = expr::var(i, st.vars[i].0, st.vars[i].1);
            let cur = st.model[i];
            let g = groups.iter().find(|g| g.1.contains(&cur)).expect("model inside domain");
            let c = member(x, &g.1, &st.doms[i]);
            self.r.conc += 1;
            self.decide(st, c)?;
            return Ok(Some(g.0));
        }
        groups.sort_by_key(|g| g.1.len());
        let wd = 8 * n as u8;
        let toe = |s: Slot| if s.e != 0 { s.e } else { expr::konst(wd, s.v) };
        let x = expr::var(i, st.vars[i].0, st.vars[i].1);
        let mut r = toe(groups.last().unwrap().0);
        for (s, vals) in groups[..groups.len() - 1].iter().rev() {
            r = expr::ite(member(x, vals, &st.doms[i]), toe(*s), r);
        }
        Ok(Some(match expr::isc(r) {
            Some(k) => cs(k),
            None => Slot { v: 0, e: r },
        }))
    }

    // ------------------------------------------------------------ execution
    fn exec(&mut self, st: &mut Box<State>) -> End {
        match self.exec_inner(st) {
            Ok(()) => End::Done,
            Err(e) => e,
        }
    }

    fn exec_inner(&mut self, st: &mut Box<State>) -> Result<(), End> {
        let m = self.ex.m;
        let mut budget: u32 = 200_000;
        'frame: loop {
            let f = &m.funcs[st.fi as usize];
            if !st.vars.is_empty() {
                self.r.funcs[st.fi as usize] = true;
            }
            let code = f.code.as_ptr();
            let consts = f.consts.as_ptr();
            let base = st.base as usize;
            let need = base + f.frame as usize + 16;
            if st.regs.len() < need {
                st.regs.resize(need * 2, Slot::default());
            }
            let regs = unsafe { st.regs.as_mut_ptr().add(base) };
            let mut pc = st.pc as usize;
            macro_rules! rd {
                ($r:expr) => {{
                    let r = $r;
                    if r & CBIT != 0 { cs(unsafe { *consts.add((r & 0x7fff) as usize) }) } else { unsafe { *regs.add(r as usize) } }
                }};
            }
            macro_rules! wr {
                ($d:expr, $s:expr) => {{
                    let s: Slot = $s;
                    unsafe { *regs.add($d as usize) = s }
                }};
            }
            macro_rules! save {
                () => {
                    st.pc = pc as u32
                };
            }
            loop {
                let ins = unsafe { &*code.add(pc) };
                budget -= 1;
                if budget == 0 {
                    budget = 200_000;
                    st.steps += 200_000;
                    self.r.steps += 200_000;
                    self.nst += 1;
                    if self.ex.stop.load(Relaxed) {
                        return Err(End::Stopped);
                    }
                    if Instant::now() > self.ex.cfg.deadline {
                        self.ex.stop.store(true, Relaxed);
                        return Err(End::Stopped);
                    }
                    if st.steps > self.ex.cfg.max_steps {
                        return Err(End::Trap("no answer within the step bound".into()));
                    }
                }
                macro_rules! b32 {
                    (|$x:ident, $y:ident| $f:expr) => {{
                        let (a, b) = (rd!(ins.a), rd!(ins.b));
                        if a.e | b.e == 0 {
                            let ($x, $y) = (a.v as u32, b.v as u32);
                            wr!(ins.d, cs(($f) as u32 as u64));
                            pc += 1;
                        } else {
                            save!();
                            let r = self.slow(st, ins.op, a, b)?;
                            wr!(ins.d, r);
                            pc += 1;
                        }
                    }};
                }
                macro_rules! b64 {
                    (|$x:ident, $y:ident| $f:expr) => {{
                        let (a, b) = (rd!(ins.a), rd!(ins.b));
                        if a.e | b.e == 0 {
                            let ($x, $y) = (a.v, b.v);
                            wr!(ins.d, cs(($f) as u64));
                            pc += 1;
                        } else {
                            save!();
                            let r = self.slow(st, ins.op, a, b)?;
                            wr!(ins.d, r);
                            pc += 1;
                        }
                    }};
                }
                macro_rules! fb {
                    (|$x:ident, $y:ident| $f:expr) => {{
                        let (a, b) = (rd!(ins.a), rd!(ins.b));
                        if a.e | b.e == 0 {
                            let ($x, $y) = (f64::from_bits(a.v), f64::from_bits(b.v));
                            wr!(ins.d, cs($f));
                            pc += 1;
                        } else {
                            save!();
                            let r = self.slow(st, ins.op, a, b)?;
                            wr!(ins.d, r);
                            pc += 1;
                        }
                    }};
                }
                macro_rules! u1 {
                    (|$x:ident| $f:expr) => {{
                        let a = rd!(ins.a);
                        if a.e == 0 {
                            let $x = a.v;
                            wr!(ins.d, cs(($f) as u64));
                            pc += 1;
                        } else {
                            save!();
                            let r = self.slow(st, ins.op, a, cs(0))?;
                            wr!(ins.d, r);
                            pc += 1;
                        }
                    }};
                }
                macro_rules! load {
                    ($n:expr, |$x:ident| $f:expr) => {{
                        let a = rd!(ins.a);
                        let mut fast = false;
                        if a.e == 0 {
                            let ad = a.v.wrapping_add(ins.imm);
                            let o = ad as usize & (PS - 1);
                            if let Some(p) = st.mem.get((ad >> PB) as usize) {
                                if o + $n <= PS && p.s.is_none() {
                                    let mut b = [0u8; 8];
                                    b[..$n].copy_from_slice(&p.d[o..o + $n]);
                                    let $x = u64::from_le_bytes(b);
                                    wr!(ins.d, cs(($f) as u64));
                                    fast = true;
                                }
                            }
                        }
                        if !fast {
                            save!();
                            let r = self.slow_load(st, ins.op, a, ins.imm)?;
                            wr!(ins.d, r);
                        }
                        pc += 1;
                    }};
                }
                macro_rules! store {
                    ($n:expr) => {{
                        let (a, b) = (rd!(ins.a), rd!(ins.b));
                        let mut fast = false;
                        if a.e | b.e == 0 {
                            let ad = a.v.wrapping_add(ins.imm);
                            let o = ad as usize & (PS - 1);
                            if o + $n <= PS {
                                if let Some(p) = Self::page_mut(st, ad) {
                                    if p.s.is_none() {
                                        p.d[o..o + $n].copy_from_slice(&b.v.to_le_bytes()[..$n]);
                                        fast = true;
                                    }
                                }
                            }
                        }
                        if !fast {
                            save!();
                            let ad = self.concretize(st, a)?.wrapping_add(ins.imm);
                            if Self::store_raw(st, ad, $n, b).is_none() {
                                return Err(End::Trap("out-of-bounds store".into()));
                            }
                        }
                        pc += 1;
                    }};
                }
                match ins.op {
                    COPY => {
                        let a = rd!(ins.a);
                        wr!(ins.d, a);
                        pc += 1;
                    }
                    BR => pc = ins.imm as u32 as usize,
                    BR_IF => {
                        let a = rd!(ins.a);
                        let t = if a.e == 0 {
                            a.v as u32 != 0
                        } else {
                            save!();
                            let c = expr::not(expr::eq(fit(a, 32), expr::konst(32, 0)));
                            self.decide(st, c)?
                        };
                        pc = if t { ins.imm as u32 as usize } else { pc + 1 };
                    }
                    BR_IFZ => {
                        let a = rd!(ins.a);
                        let t = if a.e == 0 {
                            a.v as u32 == 0
                        } else {
                            save!();
                            let c = expr::eq(fit(a, 32), expr::konst(32, 0));
                            self.decide(st, c)?
                        };
                        pc = if t { ins.imm as u32 as usize } else { pc + 1 };
                    }
                    CMPBR => {
                        let cop = (ins.imm >> 32) as u16;
                        let neg = ins.imm >> 48 != 0;
                        let a = rd!(ins.a);
                        let b = if cop == 0x45 || cop == 0x50 { cs(0) } else { rd!(ins.b) };
                        let t = if a.e | b.e == 0 {
                            cmp(cop, a.v, b.v)
                        } else {
                            save!();
                            let c = sym_cmp(cop, a, b);
                            self.decide(st, c)?
                        };
                        pc = if t != neg { ins.imm as u32 as usize } else { pc + 1 };
                    }
                    BR_TABLE => {
                        let a = rd!(ins.a);
                        let tb = &m.br_tables[ins.imm as usize];
                        let v = if a.e == 0 {
                            a.v as u32
                        } else {
                            save!();
                            self.br_table(st, a, tb)?
                        };
                        pc = tb[(v as usize).min(tb.len() - 1)] as usize;
                    }
                    RET => {
                        let n = ins.d as usize;
                        if n == 1 {
                            let a = rd!(ins.a);
                            unsafe { *regs = a };
                        } else {
                            for k in 0..n {
                                let s = unsafe { *regs.add(ins.a as usize + k) };
                                unsafe { *regs.add(k) = s };
                            }
                        }
                        match st.frames.pop() {
                            None => return Ok(()),
                            Some((fi, p, b)) => {
                                st.fi = fi;
                                st.pc = p;
                                st.base = b;
                                continue 'frame;
                            }
                        }
                    }
                    CALL | CALL_IND => {
                        let fi = if ins.op == CALL {
                            ins.imm as u32
                        } else {
                            let ix = rd!(ins.a);
                            save!();
                            let ix = self.concretize(st, ix)? as usize;
                            match m.table.get(ix) {
                                Some(&f) if f != u32::MAX => {
                                    if m.canon[m.ftype[f as usize] as usize] as u64 != ins.imm {
                                        return Err(End::Trap("indirect call type mismatch".into()));
                                    }
                                    f
                                }
                                _ => return Err(End::Trap("undefined table element".into())),
                            }
                        };
                        let g = &m.funcs[fi as usize];
                        save!();
                        if let Some(imp) = g.import {
                            let args = unsafe { regs.add(ins.d as usize) };
                            let r = self.import(st, imp, args)?;
                            if g.nresults > 0 {
                                wr!(ins.d, r);
                            }
                            pc += 1;
                            continue;
                        }
                        if g.special == 1 {
                            let args = unsafe { regs.add(ins.d as usize) };
                            let r = self.memcmp(st, args)?;
                            wr!(ins.d, r);
                            pc += 1;
                            continue;
                        }
                        if g.special == 2 && g.nparams == 5 {
                            let args = unsafe { std::slice::from_raw_parts(regs.add(ins.d as usize), 5) };
                            if Self::multi3(st, args).is_some() {
                                pc += 1;
                                continue;
                            }
                        }
                        if st.frames.len() > 20_000 {
                            return Err(End::Trap("call stack exhausted".into()));
                        }
                        st.frames.push((st.fi, pc as u32 + 1, st.base));
                        st.fi = fi;
                        st.pc = 0;
                        st.base += ins.d as u32;
                        let nb = st.base as usize;
                        let need = nb + g.frame as usize + 16;
                        if st.regs.len() < need {
                            st.regs.resize(need * 2, Slot::default());
                        }
                        for k in g.nparams..g.nlocals {
                            st.regs[nb + k as usize] = Slot::default();
                        }
                        continue 'frame;
                    }
                    SELECT => {
                        let c = rd!(ins.imm as u16);
                        let (a, b) = (rd!(ins.a), rd!(ins.b));
                        if c.e == 0 {
                            wr!(ins.d, if c.v as u32 != 0 { a } else { b });
                        } else {
                            save!();
                            let r = self.select(st, a, b, c)?;
                            wr!(ins.d, r);
                        }
                        pc += 1;
                    }
                    GGET => {
                        let s = st.globals[ins.imm as usize];
                        wr!(ins.d, s);
                        pc += 1;
                    }
                    GSET => {
                        st.globals[ins.imm as usize] = rd!(ins.a);
                        pc += 1;
                    }
                    MSIZE => {
                        let n = st.mem.len() as u64 >> (16 - PB);
                        wr!(ins.d, cs(n));
                        pc += 1;
                    }
                    MGROW => {
                        let a = rd!(ins.a);
                        save!();
                        let n = self.concretize(st, a)?;
                        let old = st.mem.len() as u64 >> (16 - PB);
                        if old + n > 1 << 13 {
                            wr!(ins.d, cs(u64::MAX));
                        } else {
                            let z = Arc::new(Page { d: [0; PS], s: None });
                            let nl = ((old + n) << (16 - PB)) as usize;
                            st.mem.resize(nl, z);
                            wr!(ins.d, cs(old));
                        }
                        pc += 1;
                    }
                    MCOPY => {
                        let (d, s, n) = (rd!(ins.d), rd!(ins.a), rd!(ins.b));
                        save!();
                        let n = self.concretize(st, n)?;
                        let d = self.concretize(st, d)?;
                        let s = self.concretize(st, s)?;
                        if !mcopy(st, d, s, n) {
                            return Err(End::Trap("out-of-bounds memory.copy".into()));
                        }
                        pc += 1;
                    }
                    MFILL => {
                        let (d, v, n) = (rd!(ins.d), rd!(ins.a), rd!(ins.b));
                        save!();
                        let n = self.concretize(st, n)?;
                        let d = self.concretize(st, d)?;
                        let v = if v.e == 0 { cs(v.v & 255) } else { norm(expr::extract(v.e, 0, 8)) };
                        let mut i = 0;
                        while i < n {
                            let a = d + i;
                            let o = a as usize & (PS - 1);
                            let l = ((PS - o) as u64).min(n - i) as usize;
                            match Self::page_mut(st, a) {
                                None => return Err(End::Trap("out-of-bounds memory.fill".into())),
                                Some(p) => {
                                    p.d[o..o + l].fill(v.v as u8);
                                    if v.e != 0 {
                                        p.s.get_or_insert_with(|| Box::new([0; PS]))[o..o + l].fill(v.e);
                                    } else if let Some(x) = &mut p.s {
                                        x[o..o + l].fill(0);
                                    }
                                }
                            }
                            i += l as u64;
                        }
                        pc += 1;
                    }
                    UNREACH => {
                        save!();
                        return Err(End::Trap("unreachable executed".into()));
                    }
                    // loads
                    0x28 | 0x2a | 0x35 => load!(4, |x| x),
                    0x29 | 0x2b => load!(8, |x| x),
                    0x2c => load!(1, |x| x as i8 as i32 as u32),
                    0x2d | 0x31 => load!(1, |x| x),
                    0x2e => load!(2, |x| x as i16 as i32 as u32),
                    0x2f | 0x33 => load!(2, |x| x),
                    0x30 => load!(1, |x| x as i8 as i64),
                    0x32 => load!(2, |x| x as i16 as i64),
                    0x34 => load!(4, |x| x as i32 as i64),
                    0x36 | 0x38 | 0x3e => store!(4),
                    0x37 | 0x39 => store!(8),
                    0x3a | 0x3c => store!(1),
                    0x3b | 0x3d => store!(2),
                    // compares
                    0x45 => u1!(|x| x as u32 == 0),
                    0x46..=0x4f => b32!(|x, y| cmp(ins.op, x as u64, y as u64)),
                    0x50 => u1!(|x| x == 0),
                    0x51..=0x5a => b64!(|x, y| cmp(ins.op, x, y)),
                    0x61 => fb!(|x, y| (x == y) as u64),
                    0x62 => fb!(|x, y| (x != y) as u64),
                    0x63 => fb!(|x, y| (x < y) as u64),
                    0x64 => fb!(|x, y| (x > y) as u64),
                    0x65 => fb!(|x, y| (x <= y) as u64),
                    0x66 => fb!(|x, y| (x >= y) as u64),
                    // i32
                    0x67 => u1!(|x| (x as u32).leading_zeros()),
                    0x68 => u1!(|x| (x as u32).trailing_zeros()),
                    0x69 => u1!(|x| (x as u32).count_ones()),
                    0x6a => b32!(|x, y| x.wrapping_add(y)),
                    0x6b => b32!(|x, y| x.wrapping_sub(y)),
                    0x6c => b32!(|x, y| x.wrapping_mul(y)),
                    0x6d..=0x70 | 0x7f..=0x82 => {
                        let (a, b) = (rd!(ins.a), rd!(ins.b));
                        save!();
                        let r = self.div(st, ins.op, a, b)?;
                        wr!(ins.d, r);
                        pc += 1;
                    }
                    0x71 => b32!(|x, y| x & y),
                    0x72 => b32!(|x, y| x | y),
                    0x73 => b32!(|x, y| x ^ y),
                    0x74 => b32!(|x, y| x << (y & 31)),
                    0x75 => b32!(|x, y| (x as i32) >> (y & 31)),
                    0x76 => b32!(|x, y| x >> (y & 31)),
                    0x77 => b32!(|x, y| x.rotate_left(y & 31)),
                    0x78 => b32!(|x, y| x.rotate_right(y & 31)),
                    // i64
                    0x79 => u1!(|x| x.leading_zeros()),
                    0x7a => u1!(|x| x.trailing_zeros()),
                    0x7b => u1!(|x| x.count_ones()),
                    0x7c => b64!(|x, y| x.wrapping_add(y)),
                    0x7d => b64!(|x, y| x.wrapping_sub(y)),
                    0x7e => b64!(|x, y| x.wrapping_mul(y)),
                    0x83 => b64!(|x, y| x & y),
                    0x84 => b64!(|x, y| x | y),
                    0x85 => b64!(|x, y| x ^ y),
                    0x86 => b64!(|x, y| x << (y & 63)),
                    0x87 => b64!(|x, y| (x as i64) >> (y & 63)),
                    0x88 => b64!(|x, y| x >> (y & 63)),
                    0x89 => b64!(|x, y| x.rotate_left(y as u32 & 63)),
                    0x8a => b64!(|x, y| x.rotate_right(y as u32 & 63)),
                    // f64
                    0x99 => u1!(|x| x & !(1 << 63)),
                    0x9a => u1!(|x| x ^ (1 << 63)),
                    0x9b => u1!(|x| f64::from_bits(x).ceil().to_bits()),
                    0x9c => u1!(|x| f64::from_bits(x).floor().to_bits()),
                    0x9d => u1!(|x| f64::from_bits(x).trunc().to_bits()),
                    0x9e => u1!(|x| f64::from_bits(x).round_ties_even().to_bits()),
                    0x9f => u1!(|x| f64::from_bits(x).sqrt().to_bits()),
                    0xa0 => fb!(|x, y| (x + y).to_bits()),
                    0xa1 => fb!(|x, y| (x - y).to_bits()),
                    0xa2 => fb!(|x, y| (x * y).to_bits()),
                    0xa3 => fb!(|x, y| (x / y).to_bits()),
                    0xa4 => fb!(|x, y| x.min(y).to_bits()),
                    0xa5 => fb!(|x, y| x.max(y).to_bits()),
                    0xa6 => b64!(|x, y| x & !(1 << 63) | y & (1 << 63)),
                    // conversions
                    0xa7 => u1!(|x| x as u32),
                    0xac => u1!(|x| x as i32 as i64),
                    0xad => u1!(|x| x as u32),
                    0xaa => u1!(|x| f64::from_bits(x) as i32 as u32),
                    0xab => u1!(|x| f64::from_bits(x) as u32),
                    0xb0 => u1!(|x| f64::from_bits(x) as i64),
                    0xb1 => u1!(|x| f64::from_bits(x) as u64),
                    0xb6 => u1!(|x| (f64::from_bits(x) as f32).to_bits()),
                    0xb7 => u1!(|x| (x as i32 as f64).to_bits()),
                    0xb8 => u1!(|x| (x as u32 as f64).to_bits()),
                    0xb9 => u1!(|x| (x as i64 as f64).to_bits()),
                    0xba => u1!(|x| (x as f64).to_bits()),
                    0xbb => u1!(|x| (f32::from_bits(x as u32) as f64).to_bits()),
                    0xbc..=0xbf => u1!(|x| x),
                    0xc0 => u1!(|x| x as i8 as i32 as u32),
                    0xc1 => u1!(|x| x as i16 as i32 as u32),
                    0xc2 => u1!(|x| x as i8 as i64),
                    0xc3 => u1!(|x| x as i16 as i64),
                    0xc4 => u1!(|x| x as i32 as i64),
                    0xd2 => u1!(|x| f64::from_bits(x) as i32 as u32),
                    0xd3 => u1!(|x| f64::from_bits(x) as u32),
                    0xd6 => u1!(|x| f64::from_bits(x) as i64),
                    0xd7 => u1!(|x| f64::from_bits(x) as u64),
                    o => {
                        save!();
                        // remaining f32 operations: concrete only
                        let (a, b) = (rd!(ins.a), if (0x5b..=0x60).contains(&o) || (0x92..=0x98).contains(&o) { rd!(ins.b) } else { cs(0) });
                        let x = self.concretize(st, a)?;
                        let y = self.concretize(st, b)?;
                        match f32op(o, x, y) {
                            Some(v) => wr!(ins.d, cs(v)),
                            None => return Err(End::Incomplete(format!("unsupported wasm opcode {o:#x}"))),
                        }
                        pc += 1;
                    }
                }
            }
        }
    }

    fn br_table(&mut self, st: &mut State, a: Slot, tb: &[u32]) -> Result<u32, End> {
        let a = cs_e(fit(a, 32));
        let v = expr::eval(a.e, &st.model) as u32;
        let n = tb.len() - 1;
        let tgt = tb[(v as usize).min(n)];
        // condition: index leads to the same target
        let mut c = expr::fls();
        let mut k = 0;
        while k < n {
            if tb[k] == tgt {
                let mut j = k;
                while j + 1 < n && tb[j + 1] == tgt {
                    j += 1;
                }
                let lo = expr::konst(32, k as u64);
                let hi = expr::konst(32, j as u64);
                let r = if k == j { expr::eq(a.e, lo) } else { expr::and1(expr::not(expr::ult(a.e, lo)), expr::not(expr::ult(hi, a.e))) };
                c = expr::or1(c, r);
                k = j + 1;
            } else {
                k += 1;
            }
        }
        if tb[n] == tgt {
            c = expr::or1(c, expr::not(expr::ult(a.e, expr::konst(32, n as u64))));
        }
        let t = self.decide(st, c)?;
        debug_assert!(t);
        Ok(v)
    }

    fn select(&mut self, st: &mut State, a: Slot, b: Slot, c: Slot) -> Result<Slot, End> {
        let cond = expr::not(expr::eq(fit(c, 32), expr::konst(32, 0)));
        if let Some(k) = expr::isc(cond) {
            return Ok(if k == 1 { a } else { b });
        }
        if expr::vars(cond) & !st.fixed == 0 {
            return Ok(if expr::eval(cond, &st.model) == 1 { a } else { b });
        }
        // width: from a symbolic arm, else 64 when either constant needs it. Wasm is typed, but the
        // IR is not: with two constant arms the width is recovered lazily (values < 2^32 are valid in
        // both widths), so use 64 only when forced and otherwise remember 32-bit-ness by value.
        let wd = if a.e != 0 { expr::w(a.e) } else if b.e != 0 { expr::w(b.e) } else { 0 };
        if wd == 0 {
            // keep both views consistent: represent as 64-bit; consumers narrow when they need 32 bits
            let t = expr::ite(cond, expr::konst(64, a.v), expr::konst(64, b.v));
            return Ok(norm(t));
        }
        let toe = |s: Slot| if s.e != 0 { s.e } else { expr::konst(wd, s.v) };
        Ok(norm(expr::ite(cond, toe(a), toe(b))))
    }

    fn slow_load(&mut self, st: &mut State, op: u16, a: Slot, off: u64) -> Result<Slot, End> {
        let n = match op {
            0x28 | 0x2a | 0x34 | 0x35 => 4,
            0x29 | 0x2b => 8,
            0x2c | 0x2d | 0x30 | 0x31 => 1,
            _ => 2,
        };
        let raw = if a.e != 0 {
            match self.load_sym(st, a.e, off, n)? {
                Some(s) => Some(s),
                None => {
                    let ad = self.concretize(st, a)?;
                    Self::load_raw(st, ad.wrapping_add(off), n)
                }
            }
        } else {
            Self::load_raw(st, a.v.wrapping_add(off), n)
        };
        let Some(r) = raw else { return Err(End::Trap("out-of-bounds load".into())) };
        if r.e == 0 {
            let x = r.v;
            return Ok(cs(match op {
                0x2c => x as i8 as i32 as u32 as u64,
                0x2e => x as i16 as i32 as u32 as u64,
                0x30 => x as i8 as i64 as u64,
                0x32 => x as i16 as i64 as u64,
                0x34 => x as i32 as i64 as u64,
                _ => x,
            }));
        }
        let e = match op {
            0x28 | 0x29 | 0x2a | 0x2b => r.e,
            0x2c | 0x2e => expr::sext(r.e, 32),
            0x2d | 0x2f => expr::zext(r.e, 32),
            0x30 | 0x32 | 0x34 => expr::sext(r.e, 64),
            _ => expr::zext(r.e, 64),
        };
        Ok(norm(e))
    }

    fn div(&mut self, st: &mut State, op: u16, a: Slot, b: Slot) -> Result<Slot, End> {
        let is32 = op <= 0x70;
        let bv = self.concretize(st, b)?;
        if bv == 0 {
            return Err(End::Trap("integer divide by zero".into()));
        }
        let k = if is32 { op - 0x6d } else { op - 0x7f };
        if a.e == 0 {
            let r = if is32 {
                let (x, y) = (a.v as u32, bv as u32);
                (match k {
                    0 => match (x as i32).checked_div(y as i32) {
                        Some(v) => v as u32,
                        None => return Err(End::Trap("integer overflow".into())),
                    },
                    1 => x / y,
                    2 => (x as i32).wrapping_rem(y as i32) as u32,
                    _ => x % y,
                }) as u64
            } else {
                let (x, y) = (a.v, bv);
                match k {
                    0 => match (x as i64).checked_div(y as i64) {
                        Some(v) => v as u64,
                        None => return Err(End::Trap("integer overflow".into())),
                    },
                    1 => x / y,
                    2 => (x as i64).wrapping_rem(y as i64) as u64,
                    _ => x % y,
                }
            };
            return Ok(cs(r));
        }
        let wd = if is32 { 32 } else { 64 };
        let x = fit(a, wd);
        let o = [Op::SDiv, Op::UDiv, Op::SRem, Op::URem][k as usize];
        Ok(norm(expr::bin(o, x, expr::konst(wd, bv))))
    }

    fn slow(&mut self, st: &mut State, op: u16, a: Slot, b: Slot) -> Result<Slot, End> {
        if let 0x45..=0x5a = op {
            let c = sym_cmp(op, a, b);
            return Ok(norm(expr::zext(c, 32)));
        }
        let b32 = |o: Op| Ok(norm(expr::bin(o, fit(a, 32), fit(b, 32))));
        let b64 = |o: Op| Ok(norm(expr::bin(o, fit(a, 64), fit(b, 64))));
        let sh = |o: Op, w: u8| {
            let amt = expr::bin(Op::And, fit(b, w), expr::konst(w, w as u64 - 1));
            Ok(norm(expr::bin(o, fit(a, w), amt)))
        };
        let rot = |left: bool, w: u8| {
            let x = fit(a, w);
            let amt = expr::bin(Op::And, fit(b, w), expr::konst(w, w as u64 - 1));
            let inv = expr::bin(Op::And, expr::bin(Op::Sub, expr::konst(w, w as u64), amt), expr::konst(w, w as u64 - 1));
            let (l, r) = if left { (amt, inv) } else { (inv, amt) };
            if let Some(0) = expr::isc(amt) {
                return Ok(norm(x));
            }
            Ok(norm(expr::bin(Op::Or, expr::bin(Op::Shl, x, l), expr::bin(Op::LShr, x, r))))
        };
        match op {
            0x67 => Ok(norm(expr::un(Op::Clz, fit(a, 32)))),
            0x68 => Ok(norm(expr::un(Op::Ctz, fit(a, 32)))),
            0x69 => Ok(norm(expr::un(Op::Popcnt, fit(a, 32)))),
            0x79 => Ok(norm(expr::un(Op::Clz, fit(a, 64)))),
            0x7a => Ok(norm(expr::un(Op::Ctz, fit(a, 64)))),
            0x7b => Ok(norm(expr::un(Op::Popcnt, fit(a, 64)))),
            0x6a => b32(Op::Add),
            0x6b => b32(Op::Sub),
            0x6c => b32(Op::Mul),
            0x71 => b32(Op::And),
            0x72 => b32(Op::Or),
            0x73 => b32(Op::Xor),
            0x74 => sh(Op::Shl, 32),
            0x75 => sh(Op::AShr, 32),
            0x76 => sh(Op::LShr, 32),
            0x77 => rot(true, 32),
            0x78 => rot(false, 32),
            0x7c => b64(Op::Add),
            0x7d => b64(Op::Sub),
            0x7e => b64(Op::Mul),
            0x83 => b64(Op::And),
            0x84 => b64(Op::Or),
            0x85 => b64(Op::Xor),
            0x86 => sh(Op::Shl, 64),
            0x87 => sh(Op::AShr, 64),
            0x88 => sh(Op::LShr, 64),
            0x89 => rot(true, 64),
            0x8a => rot(false, 64),
            0xa7 => Ok(norm(expr::extract(fit(a, 64), 0, 32))),
            0xac => Ok(norm(expr::sext(fit(a, 32), 64))),
            0xad => Ok(norm(expr::zext(fit(a, 32), 64))),
            0xc0 => Ok(norm(expr::sext(expr::extract(a.e, 0, 8), 32))),
            0xc1 => Ok(norm(expr::sext(expr::extract(a.e, 0, 16), 32))),
            0xc2 => Ok(norm(expr::sext(expr::extract(a.e, 0, 8), 64))),
            0xc3 => Ok(norm(expr::sext(expr::extract(a.e, 0, 16), 64))),
            0xc4 => Ok(norm(expr::sext(expr::extract(fit(a, 64), 0, 32), 64))),
            0xbc..=0xbf => Ok(a),
            0x99 => Ok(norm(expr::bin(Op::And, fit(a, 64), expr::konst(64, !(1 << 63))))),
            0x9a => Ok(norm(expr::bin(Op::Xor, fit(a, 64), expr::konst(64, 1 << 63)))),
            0xa6 => {
                let x = expr::bin(Op::And, fit(a, 64), expr::konst(64, !(1 << 63)));
                let y = expr::bin(Op::And, fit(b, 64), expr::konst(64, 1 << 63));
                Ok(norm(expr::bin(Op::Or, x, y)))
            }
            0xa0..=0xa3 => {
                let o = [Op::FAdd, Op::FSub, Op::FMul, Op::FDiv][op as usize - 0xa0];
                let (mut x, mut y) = (fit(a, 64), fit(b, 64));
                if op >= 0xa2 && expr::isc(x).is_none() && expr::isc(y).is_none() {
                    if expr::powerish(y) {
                        y = expr::konst(64, self.concretize(st, b)?);
                    } else if expr::powerish(x) {
                        x = expr::konst(64, self.concretize(st, a)?);
                    } else if std::env::var_os("VP_FP").is_some() {
                        eprintln!("fp: {} . {}", expr::show(x), expr::show(y));
                    }
                }
                Ok(norm(expr::farith(o, x, y)))
            }
            0x61..=0x66 => {
                let (x, y) = (fit(a, 64), fit(b, 64));
                let r = match op {
                    0x61 => expr::fcmp(Op::FEq, x, y),
                    0x62 => expr::not(expr::fcmp(Op::FEq, x, y)),
                    0x63 => expr::fcmp(Op::FLt, x, y),
                    0x64 => expr::fcmp(Op::FLt, y, x),
                    0x65 => expr::fcmp(Op::FLe, x, y),
                    _ => expr::fcmp(Op::FLe, y, x),
                };
                Ok(norm(expr::zext(r, 32)))
            }
            0xb7 | 0xb9 => {
                let x = if op == 0xb7 { expr::sext(fit(a, 32), 64) } else { fit(a, 64) };
                Ok(norm(expr::ffrom(true, x)))
            }
            0xb8 | 0xba => {
                let x = if op == 0xb8 { expr::zext(fit(a, 32), 64) } else { fit(a, 64) };
                Ok(norm(expr::ffrom(false, x)))
            }
            _ => {
                // concrete fallback: exhaustive case split over the operand's feasible values
                let x = self.concretize(st, a)?;
                let y = self.concretize(st, b)?;
                let (fx, fy) = (f64::from_bits(x), f64::from_bits(y));
                let r = match op {
                    0x9b => fx.ceil().to_bits(),
                    0x9c => fx.floor().to_bits(),
                    0x9d => fx.trunc().to_bits(),
                    0x9e => fx.round_ties_even().to_bits(),
                    0x9f => fx.sqrt().to_bits(),
                    0xa4 => fx.min(fy).to_bits(),
                    0xa5 => fx.max(fy).to_bits(),
                    0xaa | 0xd2 => fx as i32 as u32 as u64,
                    0xab | 0xd3 => fx as u32 as u64,
                    0xb0 | 0xd6 => fx as i64 as u64,
                    0xb1 | 0xd7 => fx as u64,
                    0xb6 => (fx as f32).to_bits() as u64,
                    0xbb => (f32::from_bits(x as u32) as f64).to_bits(),
                    _ => return Err(End::Incomplete(format!("unsupported symbolic opcode {op:#x}"))),
                };
                Ok(cs(r))
            }
        }
    }

    fn memcmp(&mut self, st: &mut State, args: *mut Slot) -> Result<Slot, End> {
        let (a, b, n) = unsafe { (*args, *args.add(1), *args.add(2)) };
        let n = self.concretize(st, n)?;
        let a = self.concretize(st, a)?;
        let b = self.concretize(st, b)?;
        let mut diffs: Vec<(E, E)> = vec![];
        for i in 0..n {
            let (Some(mut x), Some(mut y)) = (Self::byte(st, a + i), Self::byte(st, b + i)) else {
                return Err(End::Trap("out-of-bounds memcmp".into()));
            };
            for s in [&mut x, &mut y] {
                if s.e != 0 && expr::vars(s.e) & !st.fixed == 0 {
                    *s = cs(expr::eval(s.e, &st.model));
                }
            }
            if x.e | y.e == 0 {
                if x.v != y.v {
                    diffs.push((expr::konst(8, x.v), expr::konst(8, y.v)));
                    break;
                }
            } else if x.e != y.e {
                let ex = if x.e != 0 { x.e } else { expr::konst(8, x.v) };
                let ey = if y.e != 0 { y.e } else { expr::konst(8, y.v) };
                diffs.push((ex, ey));
            }
        }
        let mut r = expr::konst(32, 0);
        for (x, y) in diffs.into_iter().rev() {
            let d = expr::bin(Op::Sub, expr::zext(x, 32), expr::zext(y, 32));
            r = expr::ite(expr::eq(x, y), r, d);
        }
        Ok(norm(r))
    }

    fn text(&self, st: &State, p: u64, n: u64) -> String {
        let mut v = vec![];
        for i in 0..n {
            if let Some(s) = Self::byte(st, p + i) {
                v.push(if s.e == 0 { s.v as u8 } else { expr::eval(s.e, &st.model) as u8 });
            }
        }
        String::from_utf8_lossy(&v).into_owned()
    }

    fn new_var(&mut self, st: &mut State, name: u32, lo: u8, hi: u8) -> Result<E, End> {
        let i = st.vars.len();
        if i >= 128 {
            return Err(End::Incomplete("more than 128 symbolic bytes".into()));
        }
        st.vars.push((lo, hi));
        st.names.push(name);
        st.model.push(lo);
        let mut d = [0u64; 4];
        for v in lo..=hi {
            d[v as usize >> 6] |= 1 << (v & 63);
        }
        st.doms.push(d);
        if lo == hi {
            st.fixed |= 1 << i;
        }
        Ok(expr::var(i, lo, hi))
    }

    fn import(&mut self, st: &mut Box<State>, imp: usize, args: *mut Slot) -> Result<Slot, End> {
        let arg = |i: usize| unsafe { *args.add(i) };
        match self.ex.m.imports[imp].as_str() {
            "vp_sym_byte" => {
                let nm = self.text(st, arg(0).v, arg(1).v);
                let id = self.ex.intern(&nm);
                let e = self.new_var(st, id, arg(2).v as u8, arg(3).v as u8)?;
                Ok(norm(expr::zext(e, 32)))
            }
            "vp_assume" => {
                let a = arg(0);
                if a.e == 0 {
                    return if a.v as u32 != 0 { Ok(cs(0)) } else { Err(End::Assumed) };
                }
                let c = expr::not(expr::eq(fit(a, 32), expr::konst(32, 0)));
                match self.feasible(st, c, false) {
                    Ok(Some(md)) => {
                        st.model = md;
                        self.add_con(st, c);
                        Ok(cs(0))
                    }
                    Ok(None) => Err(End::Assumed),
                    Err(e) => Err(End::Incomplete(e)),
                }
            }
            "vp_check" => {
                let a = arg(0);
                let msg = self.text(st, arg(1).v, arg(2).v);
                self.r.checks += 1;
                *self.r.check_msgs.entry(msg.clone()).or_default() += 1;
                if a.e == 0 {
                    if a.v as u32 != 0 {
                        return Ok(cs(0));
                    }
                    let tr = self.trace(st);
                    self.cex("check", msg, st.model.clone(), tr);
                    return Err(End::Assumed);
                }
                self.r.checks_sym += 1;
                let bad = expr::eq(fit(a, 32), expr::konst(32, 0));
                match self.feasible(st, bad, true) {
                    Ok(Some(md)) => {
                        let tr = self.trace(st);
                        self.cex("check", msg, md, tr);
                        Err(End::Assumed)
                    }
                    Ok(None) => Ok(cs(0)),
                    Err(e) => Err(End::Incomplete(e)),
                }
            }
            "vp_reach" => {
                let s = self.text(st, arg(0).v, arg(1).v);
                let id = self.ex.intern(&s);
                if !st.reached.contains(&id) {
                    st.reached.push(id);
                }
                Ok(cs(0))
            }
            "vp_observe" => {
                st.obs.push(arg(0));
                Ok(cs(0))
            }
            "vp_hash_mode" => {
                st.hash_mode = arg(0).v as u32;
                st.hmap.clear();
                Ok(cs(0))
            }
            "vp_hash_write" => {
                let acc = arg(0);
                if st.hash_mode == 0 {
                    return Ok(acc);
                }
                let (p, n) = (arg(1).v, self.concretize(st, arg(2))?);
                // only keys that contain a harness word (`q...`) get arbitrary hashes
                let mut h = self.concretize(st, acc)?;
                let mut word = h >> 63;
                for i in 0..n {
                    let b = Self::byte(st, p + i).unwrap_or_default();
                    let v = self.concretize(st, b)?;
                    word |= (v == b'q' as u64) as u64;
                    h = (h ^ v).wrapping_mul(0x100000001b3).rotate_left(7) ^ 0x9e3779b97f4a7c15;
                }
                Ok(cs(h & !(1 << 63) | word << 63))
            }
            "vp_hash_finish" => {
                if st.hash_mode == 0 {
                    return Ok(cs(0));
                }
                let h = self.concretize(st, arg(0))?;
                if h >> 63 == 0 {
                    return Ok(cs(0));
                }
                if let Some(x) = st.hmap.iter().find(|x| x.0 == h) {
                    return Ok(norm(x.1));
                }
                let id = self.ex.intern("hash");
                let hi = (st.hash_mode - 1).min(255) as u8;
                let v = self.new_var(st, id, 0, hi)?;
                let e = expr::zext(v, 64);
                st.hmap.push((h, e));
                Ok(norm(e))
            }
            "vp_split" => {
                let v = self.concretize(st, arg(0))?;
                Ok(cs(v))
            }
            "vp_is_symbolic" => {
                let a = arg(0);
                Ok(cs((a.e != 0 && expr::vars(a.e) & !st.fixed != 0) as u64))
            }
            "vp_panic" => {
                let s = self.text(st, arg(0).v, arg(1).v.min(600));
                st.panic = Some(s);
                Ok(cs(0))
            }
            "vp_note" => {
                let s = self.text(st, arg(0).v, arg(1).v);
                if self.r.notes.len() < 2000 {
                    self.r.notes.push(s);
                }
                Ok(cs(0))
            }
            "vp_done" => Err(End::Done),
            o => Err(End::Incomplete(format!("unknown import {o}"))),
        }
    }
}

fn member(x: E, vals: &[u8], dom: &[u64; 4]) -> E {
    // maximal runs of domain values inside the group
    let mut r = expr::fls();
    let mut i = 0;
    while i < vals.len() {
        let lo = vals[i];
        let mut hi = lo;
        while i + 1 < vals.len() {
            let nx = vals[i + 1];
            let gap = (hi as usize + 1..nx as usize).any(|v| dom_has(dom, v));
            if gap {
                break;
            }
            hi = nx;
            i += 1;
        }
        let c = if lo == hi {
            expr::eq(x, expr::konst(8, lo as u64))
        } else {
            expr::and1(expr::not(expr::ult(x, expr::konst(8, lo as u64))), expr::not(expr::ult(expr::konst(8, hi as u64), x)))
        };
        r = expr::or1(r, c);
        i += 1;
    }
    r
}

fn cs_e(e: E) -> Slot {
    Slot { v: 0, e }
}
fn norm(e: E) -> Slot {
    match expr::isc(e) {
        Some(k) => cs(k),
        None => Slot { v: 0, e },
    }
}
/// View a slot as an expression of exactly `w` bits (constant selects are 64-bit until used).
fn fit(s: Slot, w: u8) -> E {
    if s.e == 0 {
        return expr::konst(w, s.v);
    }
    let ew = expr::w(s.e);
    if ew == w {
        s.e
    } else if ew > w {
        expr::extract(s.e, 0, w)
    } else {
        expr::zext(s.e, w)
    }
}

#[inline(always)]
fn cmp(op: u16, x: u64, y: u64) -> bool {
    match op {
        0x45 => x as u32 == 0,
        0x46 => x as u32 == y as u32,
        0x47 => x as u32 != y as u32,
        0x48 => (x as i32) < y as i32,
        0x49 => (x as u32) < y as u32,
        0x4a => x as i32 > y as i32,
        0x4b => x as u32 > y as u32,
        0x4c => x as i32 <= y as i32,
        0x4d => x as u32 <= y as u32,
        0x4e => x as i32 >= y as i32,
        0x4f => x as u32 >= y as u32,
        0x50 => x == 0,
        0x51 => x == y,
        0x52 => x != y,
        0x53 => (x as i64) < y as i64,
        0x54 => x < y,
        0x55 => x as i64 > y as i64,
        0x56 => x > y,
        0x57 => x as i64 <= y as i64,
        0x58 => x <= y,
        0x59 => x as i64 >= y as i64,
        _ => x >= y,
    }
}
fn sym_cmp(op: u16, a: Slot, b: Slot) -> E {
    let (w, k) = if op < 0x50 { (32, op - 0x45) } else { (64, op - 0x50) };
    let x = fit(a, w);
    if k == 0 {
        return expr::eq(x, expr::konst(w, 0));
    }
    let y = fit(b, w);
    match k {
        1 => expr::eq(x, y),
        2 => expr::not(expr::eq(x, y)),
        3 => expr::slt(x, y),
        4 => expr::ult(x, y),
        5 => expr::slt(y, x),
        6 => expr::ult(y, x),
        7 => expr::not(expr::slt(y, x)),
        8 => expr::not(expr::ult(y, x)),
        9 => expr::not(expr::slt(x, y)),
        _ => expr::not(expr::ult(x, y)),
    }
}

fn mcopy(st: &mut State, d: u64, s: u64, n: u64) -> bool {
    let lim = (st.mem.len() as u64) << PB;
    if d.checked_add(n).is_none_or(|e| e > lim) || s.checked_add(n).is_none_or(|e| e > lim) {
        return false;
    }
    if n == 0 || d == s {
        return true;
    }
    // gather source then scatter (handles overlap); chunked by page
    let mut data = Vec::with_capacity(n as usize);
    let mut sh: Option<Vec<E>> = None;
    let mut i = 0u64;
    while i < n {
        let a = s + i;
        let o = a as usize & (PS - 1);
        let l = ((PS - o) as u64).min(n - i) as usize;
        let p = &st.mem[(a >> PB) as usize];
        data.extend_from_slice(&p.d[o..o + l]);
        if let Some(x) = &p.s {
            if x[o..o + l].iter().any(|e| *e != 0) {
                let v = sh.get_or_insert_with(|| vec![0; n as usize]);
                v[i as usize..i as usize + l].copy_from_slice(&x[o..o + l]);
            }
        }
        i += l as u64;
    }
    let mut i = 0u64;
    while i < n {
        let a = d + i;
        let o = a as usize & (PS - 1);
        let l = ((PS - o) as u64).min(n - i) as usize;
        let p = Worker::page_mut(st, a).unwrap();
        p.d[o..o + l].copy_from_slice(&data[i as usize..i as usize + l]);
        match &sh {
            Some(v) => {
                let src = &v[i as usize..i as usize + l];
                if src.iter().any(|e| *e != 0) || p.s.is_some() {
                    p.s.get_or_insert_with(|| Box::new([0; PS]))[o..o + l].copy_from_slice(src);
                }
            }
            None => {
                if let Some(x) = &mut p.s {
                    x[o..o + l].fill(0)
                }
            }
        }
        i += l as u64;
    }
    true
}

fn f32op(op: u16, x: u64, y: u64) -> Option<u64> {
    let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
    let r = |f: f32| Some(f.to_bits() as u64);
    match op {
        0x5b => Some((a == b) as u64),
        0x5c => Some((a != b) as u64),
        0x5d => Some((a < b) as u64),
        0x5e => Some((a > b) as u64),
        0x5f => Some((a <= b) as u64),
        0x60 => Some((a >= b) as u64),
        0x8b => r(a.abs()),
        0x8c => r(-a),
        0x8d => r(a.ceil()),
        0x8e => r(a.floor()),
        0x8f => r(a.trunc()),
        0x91 => r(a.sqrt()),
        0x92 => r(a + b),
        0x93 => r(a - b),
        0x94 => r(a * b),
        0x95 => r(a / b),
        0x96 => r(a.min(b)),
        0x97 => r(a.max(b)),
        0x98 => r(a.copysign(b)),
        0xa8 | 0xd0 => Some(a as i32 as u32 as u64),
        0xa9 | 0xd1 => Some(a as u32 as u64),
        0xae | 0xd4 => Some(a as i64 as u64),
        0xaf | 0xd5 => Some(a as u64),
        0xb2 => r(x as i32 as f32),
        0xb3 => r(x as u32 as f32),
        0xb4 => r(x as i64 as f32),
        0xb5 => r(x as f32),
        _ => None,
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

#[allow(dead_code)]
pub type Unused = FxMap<u32, u32>;
