//! C02/C03: integer literals mean exactly their mathematical value, or are rejected.
use super::{sym, util::*};
use serde_json::Value;

/// A literal: its text, its digits (most significant first), radix and sign.
struct Lit { t: Vec<u8>, d: Vec<u8>, radix: u64, neg: bool }

fn lit(neg: bool, radix: u64, n: usize, suffix: bool) -> Lit {
    let mid = match radix {
        16 if n > 4 => sym::one_of("mid", b"0fA5"),
        8 if n > 18 => sym::one_of("mid", b"07"),
        _ => b'0',
    };
    let mut t = Vec::new();
    let mut ds = Vec::new();
    if neg { t.push(b'-'); }
    match radix {
        16 => { t.push(b'0'); t.push(if sym::flag("bigx") { b'X' } else { b'x' }); }
        8 => t.push(b'0'),
        _ => {}
    }
    for i in 0..n {
        let d = match radix {
            8 if n > 18 && i > 4 && i + 5 < n => if mid == b'0' { b'0' } else { b'7' },
            // long decimals: the middle digits are those of 2^63
            10 if (9..=11).contains(&n) && i > 1 && i + 3 < n => b"4294967295"[i],
            10 if n > 16 && i > 2 && i + 4 < n => b"9223372036854775808"[i.min(18)],
            10 if i == 0 && n > 1 => sym::byte("d", b'1', b'9'),
            10 => sym::byte("d", b'0', b'9'),
            8 => sym::byte("o", b'0', b'7'),
            // any hexadecimal digit of either case; long literals repeat one digit in the middle
            _ => {
                let c = if n > 4 && i > 1 && i + 2 < n { mid } else { sym::from_set("h", b"0123456789abcdefABCDEF") };
                t.push(c);
                b'0' + (c & 15) + 9 * (c >> 6)
            }
        };
        if radix != 16 { t.push(d); }
        ds.push(d - b'0');
    }
    if suffix { t.push(if sym::flag("bigl") { b'L' } else { b'l' }); }
    Lit { t, d: ds, radix, neg }
}

impl Lit {
    /// value modulo 2^64
    fn mag(&self) -> u64 { self.d.iter().fold(0u64, |a, d| a.wrapping_mul(self.radix).wrapping_add(*d as u64)) }
    /// is the magnitude at most `lim` (Horner's rule, comparing before every step)
    fn at_most(&self, lim: u64) -> bool {
        let (mut acc, mut fits) = (0u64, 1u32);
        let (q, r) = (lim / self.radix, lim % self.radix);
        for d in &self.d {
            let d = *d as u64;
            fits &= (acc < q) as u32 | ((acc == q) as u32 & (d <= r) as u32);
            acc = acc.wrapping_mul(self.radix).wrapping_add(d);
        }
        fits != 0
    }
    /// does the value fit a signed 64-bit integer
    fn fits(&self) -> bool { self.at_most(if self.neg { 1u64 << 63 } else { (1u64 << 63) - 1 }) }
    fn value(&self) -> i64 { let m = self.mag() as i64; if self.neg { m.wrapping_neg() } else { m } }
    fn text(&self) -> String { sym::text(self.t.clone()) }
}

fn int(v: &Value) -> Option<i64> { v.as_i64() }

fn long_case(l: Lit) {
    let s = l.text();
    let r = idl(format!("protocol P {{ record R {{ @p([{s}]) long f = {s}; }} }}"));
    let fits = l.fits();
    match r {
        Ok(o) => {
            sym::reach("accepted");
            let f = field(&o.json, 0, 0);
            let (d, p) = (int(&f["default"]), int(&f["type"]["p"][0]));
            sym::check(d.is_some() & p.is_some(), "integer literal is not emitted as an integer");
            sym::check(fits, "integer literal outside the 64-bit range is accepted");
            sym::check(d.unwrap() == l.value(), "default: emitted integer differs from the literal's value");
            sym::check(p.unwrap() == l.value(), "annotation: emitted integer differs from the literal's value");
            sym::observe(d.unwrap() as u64);
        }
        Err(_) => {
            sym::reach("rejected");
            sym::check(!fits, "integer literal inside the 64-bit range is rejected");
        }
    }
}

pub fn int_dec() { let n = sym::pick("n", 20) + 1; let neg = sym::flag("neg"); long_case(lit(neg, 10, n, false)) }
pub fn int_suffix() {
    let neg = sym::flag("neg");
    let (r, n) = sym::one_of("form", &[(10, 1), (10, 3), (10, 10), (10, 19), (16, 1), (16, 8), (16, 16), (8, 1), (8, 11), (8, 21)]);
    long_case(lit(neg, r, n, true))
}
pub fn int_hex() { let n = sym::pick("n", 17) + 1; let neg = sym::flag("neg"); long_case(lit(neg, 16, n, false)) }
pub fn int_oct() { let n = sym::pick("n", 23) + 1; let neg = sym::flag("neg"); long_case(lit(neg, 8, n, false)) }

// ---- C03: sizes, precision, scale -------------------------------------------------

fn u32_lit() -> Lit {
    let (r, n) = sym::one_of("form", &[(10, 1), (10, 2), (10, 5), (10, 9), (10, 10), (10, 11), (16, 1), (16, 4), (16, 8), (16, 9), (8, 1), (8, 5), (8, 11), (8, 12)]);
    let (neg, suffix) = sym::one_of("form2", &[(false, false), (true, false), (false, true)]);
    let mut l = lit(neg, r, n, false);
    if suffix { l.t.push(sym::from_set("L", b"lL")); l.neg = true; }
    l
}

/// Fixed sizes are unsigned 32-bit values; a sign or a long suffix is an error.
pub fn fixed_size() {
    let l = u32_lit();
    let s = l.text();
    let fits = !l.neg && l.at_most(u32::MAX as u64);
    match idl(format!("protocol P {{ fixed F({s}); }}")) {
        Ok(o) => {
            sym::reach("accepted");
            let v = o.json["types"][0]["size"].as_u64();
            sym::check(v.is_some(), "fixed size is not emitted as an integer");
            sym::check(fits, "fixed size outside the unsigned 32-bit range is accepted");
            sym::check(v.unwrap() == l.mag(), "emitted fixed size differs from the literal's value");
            sym::observe(v.unwrap());
        }
        Err(_) => { sym::reach("rejected"); sym::check(!fits, "valid fixed size is rejected"); }
    }
}

/// `decimal(p)` and `decimal(p, 0)` for every literal form.
pub fn decimal_precision() {
    let l = u32_lit();
    let s = l.text();
    let scale = sym::flag("scale");
    let good = (!l.neg) as u32 & l.at_most(u32::MAX as u64) as u32 & (l.mag() != 0) as u32;
    match idl(format!("protocol P {{ record R {{ decimal({s}{}) f; }} }}", if scale { ", 0" } else { "" })) {
        Ok(o) => {
            sym::reach("accepted");
            let t = &field(&o.json, 0, 0)["type"];
            sym::check(t["type"] == "bytes" && t["logicalType"] == "decimal", "decimal is not emitted as a decimal over bytes");
            sym::check(good != 0, "decimal precision that is zero or out of range is accepted");
            sym::check(t["precision"].as_u64() == Some(l.mag()), "emitted precision differs from the literal's value");
            sym::check(t.get("scale").map_or(Some(0), |s| s.as_u64()) == Some(0), "emitted scale differs from 0");
        }
        Err(_) => { sym::reach("rejected"); sym::check(good == 0, "valid decimal precision is rejected"); }
    }
}

/// `decimal(p, s)`: accepted exactly when 0 < p and s <= p, whatever the literal forms.
pub fn decimal_scale() {
    // a fixed head and one or two arbitrary digits
    let form = |name| {
        let (radix, head, n) = sym::one_of(name, &[(10, "", 1), (10, "1", 1), (10, "429496729", 1), (16, "0x", 1), (16, "0Xfffffff", 1), (8, "0", 2), (8, "03777777777", 1)]);
        let mut l = lit(false, radix, n, false);
        let tail = l.t[l.t.len() - n..].to_vec();
        l.t = head.bytes().chain(tail).collect();
        let skip = match radix { 16 => 2, 8 => 1, _ => 0 };
        l.d = head.bytes().skip(skip).map(|c| (c as char).to_digit(16).unwrap() as u8).chain(l.d).collect();
        l
    };
    let fixed = |name| {
        let s = sym::one_of(name, &["1", "0", "4294967295"]);
        Lit { t: s.into(), d: s.bytes().map(|b| b - b'0').collect(), radix: 10, neg: false }
    };
    let (p, s) = match sym::pick("which", 3) {
        0 => (lit(false, 10, 1, false), lit(false, 10, 1, false)),
        1 => (fixed("p"), form("s")),
        _ => (form("p"), fixed("s")),
    };
    let (pt, st) = (p.text(), s.text());
    let lim = u32::MAX as u64;
    let good = p.at_most(lim) as u32 & s.at_most(lim) as u32 & (p.mag() != 0) as u32 & (s.mag() <= p.mag()) as u32;
    match idl(format!("protocol P {{ record R {{ decimal({pt},{st}) f; }} }}")) {
        Ok(o) => {
            sym::reach("accepted");
            let t = &field(&o.json, 0, 0)["type"];
            sym::check(good != 0, "decimal with scale above precision (or a bad precision) is accepted");
            sym::check(t["precision"].as_u64() == Some(p.mag()), "emitted precision differs from the literal's value");
            sym::check(t.get("scale").map_or(Some(0), |s| s.as_u64()) == Some(s.mag()), "emitted scale differs from the literal's value");
        }
        Err(_) => { sym::reach("rejected"); sym::check(good == 0, "valid decimal precision and scale are rejected"); }
    }
}
