//! Hash-consed bit-vector expressions (global, append-only, lock-free reads).
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::Mutex;
use std::sync::atomic::{AtomicPtr, AtomicU32, Ordering::*};

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var, // k = idx | lo<<16 | hi<<24, w = 8
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Not,
    Ite,
    Concat,
    Extract, // k = lo
    ZExt,
    SExt,
    Clz,
    Ctz,
    Popcnt,
    // IEEE double operations on 64-bit patterns (round to nearest even)
    FAdd,
    FSub,
    FMul,
    FDiv,
    FEq,
    FLt,
    FLe,
    FFromU, // u64 -> f64
    FFromS,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u64,
}
#[derive(Clone, Copy)]
pub struct NodeM {
    pub n: Node,
    pub vars: u128,
    pub min: u64,
    pub max: u64,
}

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
        self.0 ^= self.0 >> 29;
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;

const CH: usize = 16;
const NCH: usize = 8192;
static CHUNKS: [AtomicPtr<NodeM>; NCH] = [const { AtomicPtr::new(std::ptr::null_mut()) }; NCH];
static NEXT: AtomicU32 = AtomicU32::new(1);
const NSH: usize = 64;
static SHARDS: [Mutex<Option<FxMap<Node, E>>>; NSH] = [const { Mutex::new(None) }; NSH];
static GROW: Mutex<()> = Mutex::new(());

pub fn count() -> u32 {
    NEXT.load(Relaxed)
}

#[inline]
pub fn get(e: E) -> &'static NodeM {
    unsafe { &*CHUNKS[(e >> CH) as usize].load(Acquire).add((e & ((1 << CH) - 1)) as usize) }
}

fn intern(n: Node, vars: u128, min: u64, max: u64) -> E {
    let mut h = Fx::default();
    std::hash::Hash::hash(&n, &mut h);
    let s = (h.finish() >> 40) as usize % NSH;
    let mut g = SHARDS[s].lock().unwrap();
    let m = g.get_or_insert_with(FxMap::default);
    if let Some(&e) = m.get(&n) {
        return e;
    }
    let id = NEXT.fetch_add(1, Relaxed);
    let ch = (id >> CH) as usize;
    assert!(ch < NCH, "expression arena full");
    let mut p = CHUNKS[ch].load(Acquire);
    if p.is_null() {
        let _l = GROW.lock().unwrap();
        p = CHUNKS[ch].load(Acquire);
        if p.is_null() {
            let lay = std::alloc::Layout::array::<NodeM>(1 << CH).unwrap();
            p = unsafe { std::alloc::alloc_zeroed(lay) as *mut NodeM };
            CHUNKS[ch].store(p, Release);
        }
    }
    unsafe { p.add((id & ((1 << CH) - 1)) as usize).write(NodeM { n, vars, min, max }) };
    m.insert(n, id);
    id
}

#[inline]
pub fn mask(w: u8) -> u64 {
    if w >= 64 { !0 } else { (1u64 << w) - 1 }
}

pub fn konst(w: u8, v: u64) -> E {
    let v = v & mask(w);
    intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v }, 0, v, v)
}
pub fn var(idx: usize, lo: u8, hi: u8) -> E {
    assert!(idx < 128, "more than 128 symbolic bytes");
    intern(
        Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: idx as u64 | (lo as u64) << 16 | (hi as u64) << 24 },
        1u128 << idx,
        lo as u64,
        hi as u64,
    )
}
#[inline]
pub fn isc(e: E) -> Option<u64> {
    let n = get(e);
    if n.n.op == Op::Const { Some(n.n.k) } else { None }
}
pub fn w(e: E) -> u8 {
    get(e).n.w
}
pub fn vars(e: E) -> u128 {
    get(e).vars
}

fn raw(op: Op, w: u8, a: E, b: E, c: E, k: u64, min: u64, max: u64) -> E {
    let mut v = 0;
    for x in [a, b, c] {
        if x != 0 {
            v |= get(x).vars;
        }
    }
    if min == max && v != 0 {
        return konst(w, min);
    }
    intern(Node { op, w, a, b, c, k }, v, min, max)
}

fn sx(v: u64, w: u8) -> i64 {
    if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) }
}

pub fn fold(op: Op, w: u8, x: u64, y: u64) -> u64 {
    let m = mask(w);
    (match op {
        Op::Add => x.wrapping_add(y),
        Op::Sub => x.wrapping_sub(y),
        Op::Mul => x.wrapping_mul(y),
        Op::UDiv => if y == 0 { m } else { x / y },
        Op::URem => if y == 0 { x } else { x % y },
        Op::SDiv => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 { if a < 0 { 1 } else { m } } else { a.wrapping_div(b) as u64 }
        }
        Op::SRem => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 { x } else { a.wrapping_rem(b) as u64 }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => if y >= w as u64 { 0 } else { x << y },
        Op::LShr => if y >= w as u64 { 0 } else { x >> y },
        Op::AShr => {
            let s = sx(x, w);
            (if y >= w as u64 { s >> 63 } else { s >> y }) as u64
        }
        Op::FAdd => (f64::from_bits(x) + f64::from_bits(y)).to_bits(),
        Op::FSub => (f64::from_bits(x) - f64::from_bits(y)).to_bits(),
        Op::FMul => (f64::from_bits(x) * f64::from_bits(y)).to_bits(),
        Op::FDiv => (f64::from_bits(x) / f64::from_bits(y)).to_bits(),
        _ => unreachable!(),
    }) & m
}

pub fn not(a: E) -> E {
    let n = get(a).n;
    debug_assert_eq!(n.w, 1);
    match n.op {
        Op::Const => konst(1, n.k ^ 1),
        Op::Not => n.a,
        _ => raw(Op::Not, 1, a, 0, 0, 0, 0, 1),
    }
}
pub fn tru() -> E {
    konst(1, 1)
}
pub fn fls() -> E {
    konst(1, 0)
}
pub fn and1(a: E, b: E) -> E {
    bin(Op::And, a, b)
}
pub fn or1(a: E, b: E) -> E {
    bin(Op::Or, a, b)
}

pub fn eq(a: E, b: E) -> E {
    if a == b {
        return tru();
    }
    let (a, b) = if isc(a).is_some() || (isc(b).is_none() && a > b) { (b, a) } else { (a, b) };
    let (na, nb) = (get(a), get(b));
    debug_assert_eq!(na.n.w, nb.n.w);
    if na.max < nb.min || nb.max < na.min {
        return fls();
    }
    let wd = na.n.w;
    if let Some(k) = isc(b) {
        if isc(a).is_some() {
            return fls();
        }
        if wd == 1 {
            return if k == 1 { a } else { not(a) };
        }
        match na.n.op {
            Op::ZExt => {
                let x = na.n.a;
                return eq(x, konst(w(x), k));
            }
            Op::SExt => {
                let x = na.n.a;
                let kx = konst(w(x), k);
                if sx(k & mask(w(x)), w(x)) as u64 & mask(wd) != k {
                    return fls();
                }
                return eq(x, kx);
            }
            Op::Concat => {
                let lw = w(na.n.b);
                return and1(eq(na.n.a, konst(w(na.n.a), k >> lw)), eq(na.n.b, konst(lw, k)));
            }
            Op::Ite => {
                let (c, t, f) = (na.n.a, na.n.b, na.n.c);
                if let Some(tk) = isc(t) {
                    let r = eq(f, b);
                    return if tk == k { or1(c, r) } else { and1(not(c), r) };
                }
                if let Some(fk) = isc(f) {
                    let r = eq(t, b);
                    return if fk == k { or1(not(c), r) } else { and1(c, r) };
                }
            }
            Op::Add => {
                if let Some(c) = isc(na.n.b) {
                    return eq(na.n.a, konst(wd, k.wrapping_sub(c)));
                }
            }
            Op::Xor => {
                if let Some(c) = isc(na.n.b) {
                    return eq(na.n.a, konst(wd, k ^ c));
                }
                if k == 0 {
                    return eq(na.n.a, na.n.b);
                }
            }
            Op::Sub if k == 0 => return eq(na.n.a, na.n.b),
            Op::Or if k == 0 => return and1(eq(na.n.a, b), eq(na.n.b, b)),
            _ => {}
        }
    } else {
        if na.n.op == Op::Concat && nb.n.op == Op::Concat && w(na.n.b) == w(nb.n.b) {
            return and1(eq(na.n.a, nb.n.a), eq(na.n.b, nb.n.b));
        }
        if na.n.op == Op::ZExt && nb.n.op == Op::ZExt && w(na.n.a) == w(nb.n.a) {
            return eq(na.n.a, nb.n.a);
        }
    }
    if let Some(r) = lin_eq(a, b) {
        return konst(1, r as u64);
    }
    if wd >= 16 && (arith(a) || arith(b)) {
        if let Some(e) = exact(a).add(&exact(b), -1).and_then(|d| canon(&d, true)) {
            return e;
        }
    }
    raw(Op::Eq, 1, a, b, 0, 0, 0, 1)
}

pub fn ult(a: E, b: E) -> E {
    if a == b {
        return fls();
    }
    let (na, nb) = (get(a), get(b));
    if na.max < nb.min {
        return tru();
    }
    if na.min >= nb.max {
        return fls();
    }
    let wd = na.n.w;
    if nb.n.op == Op::Const && nb.n.k == 1 {
        return eq(a, konst(wd, 0));
    }
    if na.n.op == Op::Const && na.n.k == 0 {
        return not(eq(b, a));
    }
    if na.n.op == Op::ZExt && nb.n.op == Op::ZExt && w(na.n.a) == w(nb.n.a) {
        return ult(na.n.a, nb.n.a);
    }
    if na.n.op == Op::ZExt && nb.n.op == Op::Const {
        let x = na.n.a;
        return ult(x, konst(w(x), nb.n.k)); // range check above guarantees it fits
    }
    if nb.n.op == Op::ZExt && na.n.op == Op::Const {
        let x = nb.n.a;
        return ult(konst(w(x), na.n.k), x);
    }
    if na.n.op == Op::Ite && nb.n.op == Op::Const && isc(na.n.b).is_some() && isc(na.n.c).is_some() {
        return ite(na.n.a, ult(na.n.b, b), ult(na.n.c, b));
    }
    if let Some(r) = lin_ult(a, b) {
        return konst(1, r as u64);
    }
    if wd >= 16 && (arith(a) || arith(b)) {
        if let Some(e) = exact(a).add(&exact(b), -1).and_then(|d| canon(&d, false)) {
            return e;
        }
    }
    raw(Op::Ult, 1, a, b, 0, 0, 0, 1)
}

pub fn slt(a: E, b: E) -> E {
    if a == b {
        return fls();
    }
    let (na, nb) = (get(a), get(b));
    let wd = na.n.w;
    let half = 1u64 << (wd - 1);
    let (an, bn) = (na.max < half, nb.max < half);
    let (ag, bg) = (na.min >= half, nb.min >= half);
    if (an && bn) || (ag && bg) {
        return ult(a, b);
    }
    if an && bg {
        return fls();
    }
    if ag && bn {
        return tru();
    }
    if let (Some(x), Some(y)) = (isc(a), isc(b)) {
        return konst(1, (sx(x, wd) < sx(y, wd)) as u64);
    }
    if na.n.op == Op::SExt && nb.n.op == Op::Const {
        let x = na.n.a;
        let k = sx(nb.n.k, wd);
        let h = 1i64 << (w(x) - 1);
        if k >= -h && k < h {
            return slt(x, konst(w(x), nb.n.k));
        }
    }
    if wd >= 16 && (arith(a) || arith(b)) {
        if let (Some(x), Some(y)) = (signed(a), signed(b)) {
            if let Some(e) = x.add(&y, -1).and_then(|d| canon(&d, false)) {
                return e;
            }
        }
    }
    raw(Op::Slt, 1, a, b, 0, 0, 0, 1)
}

pub fn ite(c: E, t: E, f: E) -> E {
    if let Some(k) = isc(c) {
        return if k == 1 { t } else { f };
    }
    if t == f {
        return t;
    }
    let nc = get(c).n;
    if nc.op == Op::Not {
        return ite(nc.a, f, t);
    }
    let (nt, nf) = (get(t), get(f));
    let wd = nt.n.w;
    debug_assert_eq!(wd, nf.n.w);
    if wd == 1 {
        match (isc(t), isc(f)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return or1(c, f),
            (Some(0), None) => return and1(not(c), f),
            (None, Some(1)) => return or1(not(c), t),
            (None, Some(0)) => return and1(c, t),
            _ => {}
        }
    } else if let (Some(1), Some(0)) = (isc(t), isc(f)) {
        return zext(c, wd);
    } else if let (Some(0), Some(1)) = (isc(t), isc(f)) {
        return zext(not(c), wd);
    }
    // ite(c, ite(c, x, _), f)
    if nt.n.op == Op::Ite && nt.n.a == c {
        return ite(c, nt.n.b, f);
    }
    if nf.n.op == Op::Ite && nf.n.a == c {
        return ite(c, t, nf.n.c);
    }
    raw(Op::Ite, wd, c, t, f, 0, nt.min.min(nf.min), nt.max.max(nf.max))
}

pub fn zext(a: E, to: u8) -> E {
    let n = get(a);
    if n.n.w == to {
        return a;
    }
    debug_assert!(n.n.w < to);
    match n.n.op {
        Op::Const => konst(to, n.n.k),
        Op::ZExt => zext(n.n.a, to),
        _ => raw(Op::ZExt, to, a, 0, 0, 0, n.min, n.max),
    }
}
pub fn sext(a: E, to: u8) -> E {
    let n = get(a);
    let fw = n.n.w;
    if fw == to {
        return a;
    }
    let half = 1u64 << (fw - 1);
    if n.max < half {
        return zext(a, to);
    }
    match n.n.op {
        Op::Const => konst(to, sx(n.n.k, fw) as u64),
        Op::SExt => sext(n.n.a, to),
        _ => raw(Op::SExt, to, a, 0, 0, 0, 0, mask(to)),
    }
}
pub fn extract(a: E, lo: u8, wd: u8) -> E {
    let n = get(a);
    let aw = n.n.w;
    debug_assert!(lo + wd <= aw);
    if wd == aw {
        return a;
    }
    match n.n.op {
        Op::Const => return konst(wd, n.n.k >> lo),
        Op::Extract => return extract(n.n.a, n.n.k as u8 + lo, wd),
        Op::Concat => {
            let lw = w(n.n.b);
            if lo >= lw {
                return extract(n.n.a, lo - lw, wd);
            }
            if lo + wd <= lw {
                return extract(n.n.b, lo, wd);
            }
            return concat(extract(n.n.a, 0, lo + wd - lw), extract(n.n.b, lo, lw - lo));
        }
        Op::ZExt => {
            let iw = w(n.n.a);
            if lo >= iw {
                return konst(wd, 0);
            }
            if lo + wd <= iw {
                return extract(n.n.a, lo, wd);
            }
            return zext(extract(n.n.a, lo, iw - lo), wd);
        }
        Op::SExt => {
            let iw = w(n.n.a);
            if lo + wd <= iw {
                return extract(n.n.a, lo, wd);
            }
            if lo < iw {
                return sext(extract(n.n.a, lo, iw - lo), wd);
            }
        }
        Op::And | Op::Or | Op::Xor => {
            return bin(n.n.op, extract(n.n.a, lo, wd), extract(n.n.b, lo, wd));
        }
        Op::Add | Op::Sub | Op::Mul if lo == 0 && (wd == 8 || wd == 32 || wd == 1) => {
            return bin(n.n.op, extract(n.n.a, 0, wd), extract(n.n.b, 0, wd));
        }
        Op::Ite => {
            if (isc(n.n.b).is_some() && (isc(n.n.c).is_some() || get(n.n.c).n.op == Op::Ite)) || isc(n.n.c).is_some() {
                return ite(n.n.a, extract(n.n.b, lo, wd), extract(n.n.c, lo, wd));
            }
        }
        _ => {}
    }
    if lo as u32 >= 64 - n.max.leading_zeros() && n.max != 0 || n.max == 0 {
        return konst(wd, 0);
    }
    if wd == 1 && lo + 1 == aw && aw >= 16 && arith(a) {
        if let Some(e) = signed(a).and_then(|d| canon(&d, false)) {
            return e;
        }
    }
    if n.min >> lo == n.max >> lo {
        return konst(wd, n.min >> lo);
    }
    if lo == 0 {
        if n.max <= mask(wd) {
            return raw(Op::Extract, wd, a, 0, 0, 0, n.min, n.max);
        }
        return raw(Op::Extract, wd, a, 0, 0, 0, 0, mask(wd));
    }
    let mx = (n.max >> lo).min(mask(wd));
    let mn = if n.max >> lo <= mask(wd) { n.min >> lo } else { 0 };
    raw(Op::Extract, wd, a, 0, 0, lo as u64, mn, mx)
}
pub fn concat(h: E, l: E) -> E {
    let (nh, nl) = (get(h), get(l));
    let (hw, lw) = (nh.n.w, nl.n.w);
    let wd = hw + lw;
    if let (Some(x), Some(y)) = (isc(h), isc(l)) {
        return konst(wd, x << lw | y);
    }
    if isc(h) == Some(0) {
        return zext(l, wd);
    }
    if nh.n.op == Op::ZExt && isc(l).is_none_or(|_| true) && w(nh.n.a) + lw < wd {
        let inner = concat(nh.n.a, l);
        return zext(inner, wd);
    }
    if nh.n.op == Op::Extract && nl.n.op == Op::Extract && nh.n.a == nl.n.a && nh.n.k == nl.n.k + lw as u64 {
        return extract(nh.n.a, nl.n.k as u8, wd);
    }
    if nh.n.op == Op::Extract && nh.n.k >= lw as u64 && matches!(get(nh.n.a).n.op, Op::Add | Op::Sub | Op::Mul) && extract(nh.n.a, (nh.n.k - lw as u64) as u8, lw) == l {
        return extract(nh.n.a, (nh.n.k - lw as u64) as u8, wd);
    }
    if nh.n.op == Op::Concat && isc(nh.n.a).is_some() && get(nh.n.b).n.op == Op::Extract {
        let inner = concat(nh.n.b, l);
        if get(inner).n.op != Op::Concat {
            return concat(nh.n.a, inner);
        }
    }
    // constant high bits of a value whose range fixes them
    if let (Some(k), Op::Extract) = (isc(h), nl.n.op) {
        let x = get(nl.n.a);
        if nl.n.k == 0 && wd <= x.n.w && x.min >> lw == x.max >> lw && (x.min >> lw) & mask(hw) == k {
            return extract(nl.n.a, 0, wd);
        }
    }
    // (concat (extract x hi) x_low) where l is all of the low part of concat
    if nl.n.op == Op::Concat {
        // right-nest merge: concat(h, concat(l1,l2)) with h,l1 adjacent extracts
        let l1 = get(nl.n.a);
        if nh.n.op == Op::Extract && l1.n.op == Op::Extract && nh.n.a == l1.n.a && nh.n.k == l1.n.k + l1.n.w as u64 {
            return concat(concat(h, nl.n.a), nl.n.b);
        }
    }
    raw(Op::Concat, wd, h, l, 0, 0, nh.min << lw | nl.min, nh.max << lw | nl.max)
}

pub fn bin(op: Op, a: E, b: E) -> E {
    let (na, nb) = (get(a), get(b));
    let wd = na.n.w;
    debug_assert_eq!(wd, nb.n.w, "{op:?}");
    let m = mask(wd);
    if let (Some(x), Some(y)) = (isc(a), isc(b)) {
        return konst(wd, fold(op, wd, x, y));
    }
    match op {
        Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor => {
            if isc(a).is_some() || (isc(b).is_none() && a > b) {
                return bin2(op, b, a);
            }
            bin2(op, a, b)
        }
        Op::Sub => {
            if a == b {
                return konst(wd, 0);
            }
            if let Some(c) = isc(b) {
                return bin(Op::Add, a, konst(wd, c.wrapping_neg() & m));
            }
            let (mn, mx) = if na.min >= nb.max { (na.min - nb.max, na.max - nb.min) } else { wrapped(a, b, -1, wd) };
            raw(op, wd, a, b, 0, 0, mn, mx)
        }
        _ => bin2(op, a, b),
    }
}

fn bin2(op: Op, a: E, b: E) -> E {
    let (na, nb) = (get(a), get(b));
    let wd = na.n.w;
    let m = mask(wd);
    let cb = isc(b);
    match op {
        Op::Add => {
            if cb == Some(0) {
                return a;
            }
            if let Some(c) = cb {
                if na.n.op == Op::Add {
                    if let Some(c1) = isc(na.n.b) {
                        return bin(Op::Add, na.n.a, konst(wd, c.wrapping_add(c1)));
                    }
                }
                let (lo, hi) = (na.min as u128 + c as u128, na.max as u128 + c as u128);
                let lim = m as u128 + 1;
                let (mn, mx) = if hi < lim {
                    (lo as u64, hi as u64)
                } else if lo >= lim {
                    ((lo - lim) as u64, (hi - lim) as u64)
                } else {
                    (0, m)
                };
                return raw(op, wd, a, b, 0, 0, mn, mx);
            }
            let hi = na.max as u128 + nb.max as u128;
            let (mn, mx) = if hi <= m as u128 { (na.min + nb.min, hi as u64) } else { wrapped(a, b, 1, wd) };
            raw(op, wd, a, b, 0, 0, mn, mx)
        }
        Op::Mul => {
            match cb {
                Some(0) => return b,
                Some(1) => return a,
                Some(c) if c.is_power_of_two() => {
                    return bin(Op::Shl, a, konst(wd, c.trailing_zeros() as u64));
                }
                _ => {}
            }
            let hi = na.max as u128 * nb.max as u128;
            let (mn, mx) = if hi <= m as u128 {
                (na.min * nb.min, hi as u64)
            } else if let Some(c) = cb {
                wrap_range(modular(a).scale(c as i128), wd)
            } else {
                (0, m)
            };
            raw(op, wd, a, b, 0, 0, mn, mx)
        }
        Op::And => {
            if a == b {
                return a;
            }
            if let Some(c) = cb {
                if c == 0 {
                    return b;
                }
                if c == m {
                    return a;
                }
                // low mask
                if (c & c.wrapping_add(1)) == 0 {
                    if na.max <= c {
                        return a;
                    }
                    let k = c.trailing_ones() as u8;
                    return zext(extract(a, 0, k), wd);
                }
                if na.n.op == Op::And {
                    if let Some(c1) = isc(na.n.b) {
                        return bin(Op::And, na.n.a, konst(wd, c & c1));
                    }
                }
                if na.n.op == Op::ZExt {
                    let x = na.n.a;
                    return zext(bin(Op::And, x, konst(w(x), c)), wd);
                }
                if na.n.op == Op::Ite && isc(na.n.b).is_some() && isc(na.n.c).is_some() {
                    return ite(na.n.a, bin(op, na.n.b, b), bin(op, na.n.c, b));
                }
                if na.n.op == Op::Concat {
                    let lw = w(na.n.b);
                    return concat(
                        bin(Op::And, na.n.a, konst(wd - lw, c >> lw)),
                        bin(Op::And, na.n.b, konst(lw, c)),
                    );
                }
            } else if wd == 1 {
                if (na.n.op == Op::Not && na.n.a == b) || (nb.n.op == Op::Not && nb.n.a == a) {
                    return fls();
                }
            } else if na.n.op == Op::ZExt && nb.n.op == Op::ZExt && w(na.n.a) == w(nb.n.a) {
                return zext(bin(op, na.n.a, nb.n.a), wd);
            }
            raw(op, wd, a, b, 0, 0, 0, na.max.min(nb.max))
        }
        Op::Or | Op::Xor => {
            if a == b {
                return if op == Op::Or { a } else { konst(wd, 0) };
            }
            if cb == Some(0) {
                return a;
            }
            if wd == 1 {
                if let Some(1) = cb {
                    return if op == Op::Or { b } else { not(a) };
                }
                if op == Op::Or && ((na.n.op == Op::Not && na.n.a == b) || (nb.n.op == Op::Not && nb.n.a == a)) {
                    return tru();
                }
            }
            if op == Op::Xor {
                if let Some(c) = cb {
                    if na.n.op == Op::Xor {
                        if let Some(c1) = isc(na.n.b) {
                            return bin(op, na.n.a, konst(wd, c ^ c1));
                        }
                    }
                    if na.n.op == Op::ZExt && w(na.n.a) == 1 && c == 1 {
                        return zext(not(na.n.a), wd);
                    }
                }
            }
            if op == Op::Or && cb == Some(m) {
                return b;
            }
            // disjoint concat(h,0) | zext(y)
            for (x, y) in [(na, b), (nb, a)] {
                if x.n.op == Op::Concat && isc(x.n.b) == Some(0) {
                    let lw = w(x.n.b);
                    if get(y).max <= mask(lw) {
                        return concat(x.n.a, extract(y, 0, lw));
                    }
                }
                if x.n.op == Op::ZExt && get(x.n.a).n.op == Op::Concat {
                    let cc = get(x.n.a).n;
                    if isc(cc.b) == Some(0) {
                        let lw = w(cc.b);
                        if get(y).max <= mask(lw) {
                            return zext(concat(cc.a, extract(y, 0, lw)), wd);
                        }
                    }
                }
            }
            if na.n.op == Op::ZExt && nb.n.op == Op::ZExt && w(na.n.a) == w(nb.n.a) {
                return zext(bin(op, na.n.a, nb.n.a), wd);
            }
            if na.n.op == Op::ZExt {
                if let Some(c) = cb {
                    if c <= mask(w(na.n.a)) {
                        return zext(bin(op, na.n.a, konst(w(na.n.a), c)), wd);
                    }
                }
            }
            let bits = 64 - (na.max | nb.max).leading_zeros();
            let mx = if bits >= 64 { !0 } else { (1u64 << bits) - 1 };
            raw(op, wd, a, b, 0, 0, if op == Op::Or { na.min.max(nb.min) } else { 0 }, mx & m)
        }
        Op::Shl => {
            if let Some(c) = cb {
                if c == 0 {
                    return a;
                }
                if c >= wd as u64 {
                    return konst(wd, 0);
                }
                return concat(extract(a, 0, wd - c as u8), konst(c as u8, 0));
            }
            raw(op, wd, a, b, 0, 0, 0, m)
        }
        Op::LShr => {
            if let Some(c) = cb {
                if c == 0 {
                    return a;
                }
                if c >= wd as u64 {
                    return konst(wd, 0);
                }
                return zext(extract(a, c as u8, wd - c as u8), wd);
            }
            raw(op, wd, a, b, 0, 0, 0, na.max)
        }
        Op::AShr => {
            if let Some(c) = cb {
                if c == 0 {
                    return a;
                }
                let c = c.min(wd as u64 - 1);
                return sext(extract(a, c as u8, wd - c as u8), wd);
            }
            if na.max < 1 << (wd - 1) {
                return bin(Op::LShr, a, b);
            }
            raw(op, wd, a, b, 0, 0, 0, m)
        }
        Op::UDiv => {
            if let Some(c) = cb {
                if c == 1 {
                    return a;
                }
                if c.is_power_of_two() {
                    return bin(Op::LShr, a, konst(wd, c.trailing_zeros() as u64));
                }
                if c != 0 {
                    return raw(op, wd, a, b, 0, 0, na.min / c, na.max / c);
                }
            }
            raw(op, wd, a, b, 0, 0, 0, m)
        }
        Op::URem => {
            if let Some(c) = cb {
                if c.is_power_of_two() {
                    return bin(Op::And, a, konst(wd, c - 1));
                }
                if c != 0 {
                    if na.max < c {
                        return a;
                    }
                    return raw(op, wd, a, b, 0, 0, 0, na.max.min(c - 1));
                }
            }
            raw(op, wd, a, b, 0, 0, 0, na.max)
        }
        _ => raw(op, wd, a, b, 0, 0, 0, m),
    }
}

pub fn un(op: Op, a: E) -> E {
    let n = get(a);
    if let Op::Const = n.n.op {
        return konst(n.n.w, fold1(op, n.n.w, n.n.k));
    }
    let wd = n.n.w;
    match op {
        Op::Clz => {
            let (lo, hi) = (fold1(op, wd, get(a).max), fold1(op, wd, get(a).min));
            raw(op, wd, a, 0, 0, 0, lo, hi)
        }
        Op::Ctz | Op::Popcnt => raw(op, wd, a, 0, 0, 0, 0, wd as u64),
        _ => raw(op, wd, a, 0, 0, 0, 0, mask(wd)),
    }
}
fn fold1(op: Op, w: u8, x: u64) -> u64 {
    match op {
        Op::Clz => x.leading_zeros() as u64 - (64 - w as u64),
        Op::Ctz => (x.trailing_zeros() as u64).min(w as u64),
        Op::Popcnt => x.count_ones() as u64,
        Op::FFromU => (x as f64).to_bits(),
        Op::FFromS => (x as i64 as f64).to_bits(),
        _ => unreachable!(),
    }
}
// ---- IEEE doubles: comparisons, conversions from integers and products with powers of
// two are spelled out in bit-vector terms; the remaining operations use Z3's FP theory.
const FABS: u64 = !(1 << 63);
const FINF: u64 = 0x7ff << 52;
fn kk(v: u64) -> E {
    konst(64, v)
}
fn bool64(b: E) -> E {
    zext(b, 64)
}
pub fn fcmp(op: Op, a: E, b: E) -> E {
    if let (Some(x), Some(y)) = (isc(a), isc(b)) {
        return konst(1, ffold(op, x, y));
    }
    let (ma, mb) = (bin(Op::And, a, kk(FABS)), bin(Op::And, b, kk(FABS)));
    let nan = or1(ult(kk(FINF), ma), ult(kk(FINF), mb));
    let zero = eq(bin(Op::Or, ma, mb), kk(0));
    let key = |x: E| {
        let s = extract(x, 63, 1);
        ite(s, bin(Op::Xor, x, kk(!0)), bin(Op::Or, x, kk(1 << 63)))
    };
    let lt = || ult(key(a), key(b));
    let r = match op {
        Op::FEq => or1(eq(a, b), zero),
        Op::FLt => and1(lt(), not(zero)),
        _ => or1(or1(lt(), eq(a, b)), zero),
    };
    and1(r, not(nan))
}
fn ffold(op: Op, x: u64, y: u64) -> u64 {
    let (x, y) = (f64::from_bits(x), f64::from_bits(y));
    (match op {
        Op::FEq => x == y,
        Op::FLt => x < y,
        _ => x <= y,
    }) as u64
}
/// round half to even of `x >> sh` (sh is a term, 1..=63)
fn round_shift(x: E, sh: E) -> E {
    let q = bin(Op::LShr, x, sh);
    let half = bin(Op::Shl, kk(1), bin(Op::Sub, sh, kk(1)));
    let rem = bin(Op::And, x, bin(Op::Sub, bin(Op::Shl, kk(1), sh), kk(1)));
    let odd = extract(q, 0, 1);
    let up = or1(ult(half, rem), and1(eq(half, rem), odd));
    bin(Op::Add, q, bool64(up))
}
/// the double nearest to an integer: one node (it is monotone, so its range is known),
/// spelled out by `ffrom_bits` for the solver
pub fn ffrom(signed: bool, x: E) -> E {
    let n = get(x);
    if n.n.op == Op::Const {
        return kk(fold1(if signed { Op::FFromS } else { Op::FFromU }, 64, n.n.k));
    }
    if signed && n.max >> 63 == 1 {
        return raw(Op::FFromS, 64, x, 0, 0, 0, 0, !0);
    }
    let (lo, hi) = (fold1(Op::FFromU, 64, n.min), fold1(Op::FFromU, 64, n.max));
    raw(Op::FFromU, 64, x, 0, 0, 0, lo, hi)
}
pub fn ffrom_bits(signed: bool, x: E) -> E {
    let neg = if signed { slt(x, kk(0)) } else { fls() };
    let m = ite(neg, bin(Op::Sub, kk(0), x), x);
    let lz = un(Op::Clz, m);
    let n = bin(Op::Shl, m, lz);
    let q = if get(m).max >> 53 == 0 { bin(Op::LShr, n, kk(11)) } else { round_shift(n, kk(11)) };
    // q includes the implicit bit: (exp - 1) << 52 + q
    let e = bin(Op::Sub, kk(1022 + 63), lz);
    let v = bin(Op::Add, bin(Op::Shl, e, kk(52)), q);
    let v = ite(eq(m, kk(0)), kk(0), v);
    bin(Op::Or, v, bin(Op::Shl, bool64(neg), kk(63)))
}
/// k if the constant is +-2^k
fn pow2(c: u64) -> Option<i64> {
    let m = c & FABS;
    if m == 0 || m >= FINF {
        return None;
    }
    let (e, f) = ((m >> 52) as i64, m & ((1 << 52) - 1));
    if e == 0 { f.is_power_of_two().then(|| f.trailing_zeros() as i64 - 1074) } else { (f == 0).then_some(e - 1023) }
}
/// x * c for c = +-2^k
fn fscale(x: E, c: u64) -> E {
    let (neg, k, n) = (c >> 63 == 1, pow2(c).unwrap(), get(x));
    if k == 0 {
        return if neg { bin(Op::Xor, x, kk(1 << 63)) } else { x };
    }
    if !neg && n.max <= FINF {
        let (lo, hi) = (fold(Op::FMul, 64, n.min, c), fold(Op::FMul, 64, n.max, c));
        return raw(Op::FMul, 64, x, kk(c), 0, 0, lo, hi);
    }
    raw(Op::FMul, 64, x, kk(c), 0, 0, 0, !0)
}
/// the bits of an arithmetic node if they can be spelled out
pub fn farith_bits(op: Op, x: E, c: E) -> Option<E> {
    let c = isc(c)?;
    let (Op::FMul, Some(k)) = (op, pow2(c)) else { return None };
    let s = bin(Op::Xor, bin(Op::And, x, kk(1 << 63)), kk(c & 1 << 63));
    let a = bin(Op::And, x, kk(FABS));
    let e = bin(Op::LShr, a, kk(52));
    let f = bin(Op::And, a, kk((1 << 52) - 1));
    let sub = eq(e, kk(0));
    let up = bin(Op::Sub, un(Op::Clz, f), kk(11));
    let m = ite(sub, bin(Op::Shl, f, up), bin(Op::Or, f, kk(1 << 52)));
    let ne = bin(Op::Add, ite(sub, bin(Op::Sub, kk(1), up), e), kk(k as u64));
    let normal = bin(Op::Add, bin(Op::Shl, bin(Op::Sub, ne, kk(1)), kk(52)), m);
    let sh = bin(Op::Sub, kk(1), ne);
    let sh = ite(ult(sh, kk(60)), sh, kk(60));
    let small = round_shift(m, sh);
    let r = ite(slt(ne, kk(1)), small, ite(slt(kk(2046), ne), kk(FINF), normal));
    let r = ite(eq(a, kk(0)), kk(0), ite(ult(a, kk(FINF)), r, a));
    Some(bin(Op::Or, r, s))
}
/// Are the 52 fraction bits zero whatever the inputs?
fn nofrac(e: E) -> bool {
    let n = get(e).n;
    match n.op {
        Op::Ite => nofrac(n.b) && nofrac(n.c),
        Op::Add | Op::Sub | Op::Or | Op::Xor => nofrac(n.a) && nofrac(n.b),
        Op::Shl => isc(n.b).is_some_and(|k| k >= 52),
        Op::Concat => w(n.b) >= 52 && isc(n.b) == Some(0),
        Op::Const => n.k << 12 == 0,
        _ => false,
    }
}
/// Can only be a power of two (then it is worth one path per value)?
pub fn powerish(e: E) -> bool {
    let n = get(e).n;
    match n.op {
        Op::Ite => powerish(n.b) && powerish(n.c),
        Op::Shl => nofrac(e) || isc(n.a).is_some_and(u64::is_power_of_two),
        _ => nofrac(e),
    }
}
pub fn farith(op: Op, a: E, b: E) -> E {
    if let (Some(x), Some(y)) = (isc(a), isc(b)) {
        return konst(64, fold(op, 64, x, y));
    }
    if let Some(c) = isc(a) && op == Op::FMul && pow2(c).is_some() {
        return fscale(b, c);
    }
    if let Some(c) = isc(b) && pow2(c).is_some() {
        if op == Op::FMul {
            return fscale(a, c);
        }
        let i = 1.0 / f64::from_bits(c);
        if op == Op::FDiv && pow2(i.to_bits()).is_some() {
            return fscale(a, i.to_bits());
        }
    }
    crate::solver::ANY_FP.store(true, Relaxed);
    let (a, b) = if matches!(op, Op::FMul | Op::FAdd) && (isc(a).is_some() || isc(b).is_none() && a > b) { (b, a) } else { (a, b) };
    // a positive factor or divisor keeps the order of numbers that are not negative
    if let Some(c) = isc(b) && matches!(op, Op::FMul | Op::FDiv) && c > 0 && c < FINF && get(a).max <= FINF {
        let (lo, hi) = (fold(op, 64, get(a).min, c), fold(op, 64, get(a).max, c));
        return raw(op, 64, a, b, 0, 0, lo, hi);
    }
    raw(op, 64, a, b, 0, 0, 0, !0)
}
#[cfg(test)]
mod fp {
    use super::*;
    #[test]
    fn agrees_with_hardware() {
        let mut r = 88172645463325252u64;
        let mut next = || { r ^= r << 13; r ^= r >> 7; r ^= r << 17; r };
        let x = (0..8).fold(0, |acc, i| if i == 0 { var(0, 0, 255) } else { concat(var(i, 0, 255), acc) });
        let y = (8..16).fold(0, |acc, i| if i == 8 { var(8, 0, 255) } else { concat(var(i, 0, 255), acc) });
        let pick = |s: u64, a: u64| match s % 8 {
            0 => a,
            1 => a & ((1 << 52) - 1) | (a & 1) << 63,
            2 => a >> (a % 64),
            3 => (a >> 12) | ((a % 40) << 52),
            4 => (a >> 12) | ((2046 - a % 40) << 52),
            5 => [0, 1 << 63, FINF, FINF | 1 << 63, FINF | 1, 1, (1 << 52) - 1, 1 << 52][(a % 8) as usize],
            6 => (a % 4096) << (a / 4096 % 52),
            _ => (1 << (a % 64)) + (a >> 32) % 3,
        };
        let (u, s) = (ffrom_bits(false, x), ffrom_bits(true, x));
        let cmp: Vec<(Op, E)> = [Op::FEq, Op::FLt, Op::FLe].iter().map(|o| (*o, fcmp(*o, x, y))).collect();
        let ks: Vec<f64> = [-1074, -1073, -1023, -1022, -700, -53, -2, -1, 0, 1, 3, 52, 600, 1022, 1023].iter().flat_map(|k: &i32| {
            let v = if *k < -1022 { f64::from_bits(1 << (k + 1074)) } else { f64::from_bits(((k + 1023) as u64) << 52) };
            [v, -v]
        }).collect();
        let sc: Vec<(f64, E)> = ks.iter().map(|v| (*v, farith_bits(Op::FMul, x, kk(v.to_bits())).unwrap())).collect();
        for _ in 0..60000 {
            let (s1, s2) = (next(), next());
            let (a, b) = (pick(s1, next()), if s1 & 64 == 0 { pick(s2, next()) } else { pick(s1, next()) });
            let md: Vec<u8> = a.to_le_bytes().into_iter().chain(b.to_le_bytes()).collect();
            assert_eq!(eval(u, &md), (a as f64).to_bits(), "{a:x}");
            assert_eq!(eval(s, &md), (a as i64 as f64).to_bits(), "{a:x}");
            for (o, e) in &cmp {
                assert_eq!(eval(*e, &md), ffold(*o, a, b), "{o:?} {a:x} {b:x}");
            }
            for (v, m) in &sc {
                let (want, got) = (f64::from_bits(a) * v, eval(*m, &md));
                assert!(want.is_nan() && f64::from_bits(got).is_nan() || want.to_bits() == got, "{a:x} {v:e} {got:x} {:x}", want.to_bits());
            }
        }
    }
}

// ---------------------------------------------------------------- evaluation
struct Memo {
    val: Vec<u64>,
    stamp: Vec<u32>,
    cur: u32,
}
thread_local! { static MEMO: RefCell<Memo> = const { RefCell::new(Memo { val: Vec::new(), stamp: Vec::new(), cur: 0 }) }; }

pub fn eval(e: E, model: &[u8]) -> u64 {
    if let Some(k) = isc(e) {
        return k;
    }
    MEMO.with(|m| {
        let mut m = m.borrow_mut();
        let n = count() as usize + 1;
        if m.val.len() < n {
            let nn = n + n / 4 + 4096;
            m.val.resize(nn, 0);
            m.stamp.resize(nn, 0);
        }
        m.cur = m.cur.wrapping_add(1);
        if m.cur == 0 {
            m.stamp.iter_mut().for_each(|s| *s = 0);
            m.cur = 1;
        }
        ev(e, model, &mut m)
    })
}

fn ev(e: E, md: &[u8], m: &mut Memo) -> u64 {
    let nm = get(e);
    let n = &nm.n;
    match n.op {
        Op::Const => return n.k,
        Op::Var => return md[(n.k & 0xffff) as usize] as u64,
        _ => {}
    }
    let ix = e as usize;
    if m.stamp[ix] == m.cur {
        return m.val[ix];
    }
    let r = match n.op {
        Op::Eq => (ev(n.a, md, m) == ev(n.b, md, m)) as u64,
        Op::Ult => (ev(n.a, md, m) < ev(n.b, md, m)) as u64,
        Op::Slt => {
            let ww = w(n.a);
            (sx(ev(n.a, md, m), ww) < sx(ev(n.b, md, m), ww)) as u64
        }
        Op::Not => ev(n.a, md, m) ^ 1,
        Op::Ite => if ev(n.a, md, m) == 1 { ev(n.b, md, m) } else { ev(n.c, md, m) },
        Op::Concat => ev(n.a, md, m) << w(n.b) | ev(n.b, md, m),
        Op::Extract => (ev(n.a, md, m) >> n.k) & mask(n.w),
        Op::ZExt => ev(n.a, md, m),
        Op::SExt => sx(ev(n.a, md, m), w(n.a)) as u64 & mask(n.w),
        Op::Clz | Op::Ctz | Op::Popcnt | Op::FFromU | Op::FFromS => fold1(n.op, n.w, ev(n.a, md, m)),
        Op::FEq | Op::FLt | Op::FLe => ffold(n.op, ev(n.a, md, m), ev(n.b, md, m)),
        _ => fold(n.op, n.w, ev(n.a, md, m), ev(n.b, md, m)),
    };
    m.stamp[ix] = m.cur;
    m.val[ix] = r;
    r
}

pub fn show(e: E) -> String {
    fn go(e: E, d: usize, o: &mut String) {
        let n = get(e).n;
        match n.op {
            Op::Const => o.push_str(&format!("{:#x}:{}", n.k, n.w)),
            Op::Var => o.push_str(&format!("v{}", n.k & 0xffff)),
            _ if d > 8 => o.push_str(".."),
            _ => {
                o.push_str(&format!("({:?}:{}", n.op, n.w));
                if n.op == Op::Extract {
                    o.push_str(&format!("@{}", n.k));
                }
                for x in [n.a, n.b, n.c] {
                    if x != 0 {
                        o.push(' ');
                        go(x, d + 1, o);
                    }
                }
                o.push(')');
            }
        }
    }
    let mut o = String::new();
    go(e, 0, &mut o);
    o
}

// ------------------------------------------------------- linear normal forms
/// sum of coeff * atom + k.  `exact`: the equation holds over the integers;
/// otherwise it holds modulo 2^w of the expression it was computed for.
#[derive(Clone, Default)]
pub struct Lin {
    t: Vec<(E, i128)>,
    k: i128,
}
const LIM: i128 = 1 << 100;
impl Lin {
    fn konst(k: i128) -> Lin {
        Lin { t: Vec::new(), k }
    }
    fn atom(e: E) -> Lin {
        Lin { t: vec![(e, 1)], k: 0 }
    }
    fn add(&self, o: &Lin, s: i128) -> Option<Lin> {
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            let pick = if j == o.t.len() {
                0
            } else if i == self.t.len() {
                1
            } else if self.t[i].0 < o.t[j].0 {
                0
            } else if self.t[i].0 > o.t[j].0 {
                1
            } else {
                2
            };
            let (e, c) = match pick {
                0 => self.t[i],
                1 => (o.t[j].0, o.t[j].1.checked_mul(s)?),
                _ => (self.t[i].0, self.t[i].1.checked_add(o.t[j].1.checked_mul(s)?)?),
            };
            i += (pick != 1) as usize;
            j += (pick != 0) as usize;
            if c.abs() > LIM {
                return None;
            }
            if c != 0 {
                t.push((e, c));
            }
        }
        let k = self.k.checked_add(o.k.checked_mul(s)?)?;
        if k.abs() > LIM || t.len() > 64 {
            return None;
        }
        Some(Lin { t, k })
    }
    fn scale(&self, s: i128) -> Option<Lin> {
        Lin::default().add(self, s)
    }
    fn range(&self) -> Option<(i128, i128)> {
        let (mut lo, mut hi) = (self.k, self.k);
        for (e, c) in &self.t {
            let n = get(*e);
            let (a, b) = (c.checked_mul(n.min as i128)?, c.checked_mul(n.max as i128)?);
            lo = lo.checked_add(a.min(b))?;
            hi = hi.checked_add(a.max(b))?;
        }
        Some((lo, hi))
    }
    fn reduce(mut self, w: u8) -> Lin {
        let m = mask(w) as i128;
        self.t.retain_mut(|x| {
            x.1 &= m;
            x.1 != 0
        });
        self.k &= m;
        self
    }
}
thread_local! {
    static LINS: RefCell<FxMap<(E, bool), std::rc::Rc<Lin>>> = RefCell::new(FxMap::default());
}

/// integer-exact linear form (falls back to the expression itself as an atom)
fn exact(e: E) -> std::rc::Rc<Lin> {
    if let Some(r) = LINS.with(|m| m.borrow().get(&(e, true)).cloned()) {
        return r;
    }
    let nm = get(e);
    let n = nm.n;
    let top = mask(n.w) as i128;
    // accept a candidate if, after removing a multiple of 2^w, it cannot wrap
    let fit = |c: Option<Lin>| -> Option<Lin> {
        let mut c = c?;
        let (lo, _) = c.range()?;
        c.k -= lo.div_euclid(top + 1) * (top + 1);
        let (lo, hi) = c.range()?;
        (lo >= 0 && hi <= top).then_some(c)
    };
    let r = match n.op {
        Op::Const => Some(Lin::konst(n.k as i128)),
        Op::Add => fit(exact(n.a).add(&exact(n.b), 1)),
        Op::Sub => fit(exact(n.a).add(&exact(n.b), -1)),
        Op::Mul => match isc(n.b) {
            Some(k) => fit(exact(n.a).scale(k as i128)),
            None => None,
        },
        Op::ZExt => Some((*exact(n.a)).clone()),
        Op::Concat => exact(n.a).scale(1i128 << w(n.b)).and_then(|h| h.add(&exact(n.b), 1)),
        Op::Extract if n.k == 0 && get(n.a).max <= mask(n.w) => Some((*exact(n.a)).clone()),
        _ => None,
    };
    let r = std::rc::Rc::new(r.unwrap_or_else(|| Lin::atom(e)));
    LINS.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 2_000_000 {
            m.clear();
        }
        m.insert((e, true), r.clone());
    });
    r
}

/// linear form modulo 2^w
fn modular(e: E) -> std::rc::Rc<Lin> {
    if let Some(r) = LINS.with(|m| m.borrow().get(&(e, false)).cloned()) {
        return r;
    }
    let n = get(e).n;
    let r = match n.op {
        Op::Add => modular(n.a).add(&modular(n.b), 1),
        Op::Sub => modular(n.a).add(&modular(n.b), -1),
        Op::Mul => match isc(n.b) {
            Some(k) => modular(n.a).scale(k as i128),
            None => None,
        },
        Op::Concat if isc(n.b) == Some(0) => {
            // a shift: the dropped high bits do not matter modulo 2^w
            let x = get(n.a).n;
            let src = if x.op == Op::Extract && x.k == 0 && w(x.a) == n.w { modular(x.a) } else { exact(n.a) };
            src.scale(1i128 << w(n.b))
        }
        _ => None,
    };
    let r = std::rc::Rc::new(r.map(|l| l.reduce(n.w)).unwrap_or_else(|| (*exact(e)).clone().reduce(n.w)));
    LINS.with(|m| {
        m.borrow_mut().insert((e, false), r.clone());
    });
    r
}

fn arith(e: E) -> bool {
    let n = get(e).n;
    match n.op {
        Op::Add | Op::Sub | Op::Mul => true,
        Op::ZExt | Op::Extract => arith(n.a),
        Op::Concat => isc(n.b) == Some(0) || arith(n.a) || arith(n.b),
        _ => false,
    }
}

/// decide a == b by normal forms
fn lin_eq(a: E, b: E) -> Option<bool> {
    if !arith(a) && !arith(b) {
        return None;
    }
    let wd = w(a);
    if let Some(d) = modular(a).add(&modular(b), -1) {
        let d = d.reduce(wd);
        if d.t.is_empty() {
            return Some(d.k == 0);
        }
    }
    let d = exact(a).add(&exact(b), -1)?;
    let (lo, hi) = d.range()?;
    if lo > 0 || hi < 0 { Some(false) } else { None }
}
fn lin_ult(a: E, b: E) -> Option<bool> {
    if !arith(a) && !arith(b) {
        return None;
    }
    let d = exact(a).add(&exact(b), -1)?;
    let (lo, hi) = d.range()?;
    if hi < 0 {
        Some(true)
    } else if lo >= 0 {
        Some(false)
    } else {
        None
    }
}

/// range of a +/- b when it may leave [0, 2^w) by a constant number of wraps
fn wrapped(a: E, b: E, s: i128, wd: u8) -> (u64, u64) {
    wrap_range(modular(a).add(&modular(b), s), wd)
}
fn wrap_range(l: Option<Lin>, wd: u8) -> (u64, u64) {
    let m = mask(wd);
    let lim = m as i128 + 1;
    // the value is known modulo 2^w, any representative range will do
    let mut l = match l {
        Some(l) => l.reduce(wd),
        None => return (0, m),
    };
    for x in &mut l.t {
        if x.1 > lim / 2 {
            x.1 -= lim;
        }
    }
    match l.range() {
        Some((lo, hi)) => {
            let q = lo.div_euclid(lim) * lim;
            if hi - q < lim { ((lo - q) as u64, (hi - q) as u64) } else { (0, m) }
        }
        None => (0, m),
    }
}

/// the value as a signed integer, when that is linear without wrapping
fn signed(e: E) -> Option<Lin> {
    let wd = w(e);
    let lim = mask(wd) as i128 + 1;
    let mut l = (*modular(e)).clone();
    for x in &mut l.t {
        if x.1 >= lim / 2 {
            x.1 -= lim;
        }
    }
    let (lo, hi) = l.range()?;
    // choose the representative nearest to zero
    let q = (lo + (hi - lo) / 2 + lim / 2).div_euclid(lim) * lim;
    l.k -= q;
    (lo - q >= -lim / 2 && hi - q < lim / 2).then_some(l)
}

/// sum of positive multiples, by Horner's rule where the coefficients allow it, so that
/// decimal prefixes share structure
fn rebuild(t: &[(E, i128)], wd: u8) -> E {
    let mut t: Vec<(E, i128)> = t.to_vec();
    t.sort_by(|x, y| y.1.cmp(&x.1).then(x.0.cmp(&y.0)));
    let at = |e: E| if w(e) <= wd { zext(e, wd) } else { extract(e, 0, wd) };
    let mut acc = at(t[0].0);
    for i in 0..t.len() {
        let next = if i + 1 < t.len() { t[i + 1].1 } else { 1 };
        if t[i].1 % next != 0 {
            // not a chain
            let mut s = konst(wd, 0);
            for (e, c) in &t {
                s = bin(Op::Add, s, bin(Op::Mul, at(*e), konst(wd, *c as u64)));
            }
            return s;
        }
        acc = bin(Op::Mul, acc, konst(wd, (t[i].1 / next) as u64));
        if i + 1 < t.len() {
            acc = bin(Op::Add, acc, at(t[i + 1].0));
        }
    }
    acc
}

/// d < 0 (or d == 0) as a comparison of one canonical sum with a constant
fn canon(d: &Lin, equal: bool) -> Option<E> {
    if d.t.len() < 2 {
        return None;
    }
    let pos = d.t.iter().all(|x| x.1 > 0);
    if !pos && !d.t.iter().all(|x| x.1 < 0) {
        return None;
    }
    let t: Vec<(E, i128)> = d.t.iter().map(|x| (x.0, x.1.abs())).collect();
    let (lo, hi) = Lin { t: t.clone(), k: 0 }.range()?;
    if hi >= 1 << 64 || lo < 0 {
        return None;
    }
    // pos: sum < -k; neg: sum > k
    let k = if pos { -d.k } else { d.k };
    if equal {
        if k < lo || k > hi {
            return Some(fls());
        }
        let p = rebuild(&t, 64);
        return Some(raw(Op::Eq, 1, p, konst(64, k as u64), 0, 0, 0, 1));
    }
    let k = if pos { k } else { k + 1 };
    let r = if k <= lo {
        fls()
    } else if k > hi {
        tru()
    } else {
        raw(Op::Ult, 1, rebuild(&t, 64), konst(64, k as u64), 0, 0, 0, 1)
    };
    Some(if pos { r } else { not(r) })
}
