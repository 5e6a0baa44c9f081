//! C05: a floating-point literal denotes the nearest double.
use super::{sym, util::*};
use serde_json::Value;

/// the double nearest to m * 2^e (ties to even)
fn nearest(m: u128, e: i64) -> f64 {
    if m == 0 { return 0.0 }
    // the bit length decides every shift below: one path per length
    let top = sym::split(127 - m.leading_zeros() as u64) as i64;
    let drop = (top - 52).max(-1074 - e);
    if drop > 127 { return 0.0 }
    let q = if drop <= 0 { (m as u64) << -drop } else {
        let q = (m >> drop) as u64;
        let rest = m << (128 - drop);
        q + u64::from(rest > 1 << 127 || rest == 1 << 127 && q % 2 == 1)
    };
    let low = e + drop;
    if low + 52 > 1023 { return f64::INFINITY }
    // q < 2^52: subnormal; q = 2^53: the carry moves into the exponent
    f64::from_bits(if q < 1 << 52 { q } else { q - (1 << 52) + (((low + 52 + 1023) as u64) << 52) })
}
fn source(lit: &str, ty: &str) -> String {
    match sym::pick("where", 3) { 0 => format!("@k({lit}) protocol P {{ }}"), 1 => format!("protocol P {{ record R {{ {ty} f = {lit}; }} }}"), _ => format!("@k([{{\"a\": {lit}}}]) protocol P {{ }}") }
}
fn emitted(lit: &str, ty: &str) -> Option<Value> {
    match idl(source(lit, ty)) {
        Ok(o) => { sym::reach("accepted"); Some(if let Some(v) = o.json.get("k") { if v.is_array() { v[0]["a"].clone() } else { v.clone() } } else { field(&o.json, 0, 0)["default"].clone() }) }
        Err(_) => { sym::reach("rejected"); None }
    }
}
/// `got` is the number `want`
fn same(got: Option<Value>, want: f64) -> bool {
    let Some(got) = got else { check(false, "a floating-point literal is rejected"); return false };
    if want.is_infinite() { check(got == Value::String(if want > 0.0 { "Infinity" } else { "-Infinity" }.into()), "a literal beyond the range of doubles is not infinity"); return false }
    check(got.is_f64(), "a floating-point literal does not give a floating-point number");
    check(got.as_f64().unwrap_or(f64::NAN).to_bits() == want.to_bits(), "a floating-point literal gives another number than the nearest double");
    true
}
/// ... and is printed as that number (only where every digit is split into its values)
fn printed(got: Option<Value>, want: f64) {
    if !same(got.clone(), want) { return }
    let t = got.unwrap().to_string();
    check(t.parse::<f64>().is_ok_and(|x| x.to_bits() == want.to_bits()), "a floating-point number is printed as another one");
}
fn sign() -> (&'static str, f64) { if sym::flag("minus") { ("-", -1.0) } else { ("", 1.0) } }
/// digits, points, exponents and suffixes in any arrangement
pub fn float_decimal() {
    let (s, f) = sign();
    let d = |n: &str| sym::byte(n, b'0', b'9') as char;
    let (i, g) = (sym::pick("int", 3), sym::pick("frac", 2));
    sym::assume(i + g > 0);
    let int: String = (0..i).map(|k| if k == 0 { d("i") } else { '7' }).collect();
    let frac: String = (0..g).map(|k| if k == 0 { d("f") } else { '3' }).collect();
    let dot = g > 0 || sym::flag("dot");
    let e = sym::one_of("exp", &["", "e5", "E+10", "e-7", "e308", "E-320"]);
    let suffix = sym::one_of("suffix", if e.is_empty() { &["", "f", "F", "d", "D"] } else { &["", "F", "d"] });
    sym::assume(dot || !e.is_empty() || !suffix.is_empty());
    let body = format!("{int}{}{frac}{e}", if dot { "." } else { "" });
    let want = f * body.to_lowercase().parse::<f64>().unwrap();
    let lit = format!("{s}{body}{suffix}");
    let got = emitted(&lit, "double");
    same(got, want);
}
/// printing: every digit value on its own
pub fn float_print() {
    let (s, f) = sign();
    let c = sym::pick("c", 10);
    let body = sym::one_of("lit", &["#.0", "0.#", "12#e10", "#.7e300", "9.#e-310", "1#e15", "1#e16", "1#e17", "0.0000#", "123456789.98765432#", "0x1.#p-1030", "0x#.8p70"]).replace('#', &c.to_string());
    let want = f * if let Some(h) = body.strip_prefix("0x") { let (m, p) = h.split_once('p').unwrap(); let (a, b) = m.split_once('.').unwrap(); nearest(u128::from_str_radix(&format!("{a}{b}"), 16).unwrap(), p.parse::<i64>().unwrap() - 4) } else { body.parse().unwrap() };
    printed(emitted(&format!("{s}{body}"), "double"), want);
}
/// famous hard cases and boundaries, with arbitrary last digits
pub fn float_hard() {
    let (s, f) = sign();
    let c = sym::byte("c", b'0', b'9') as char;
    let t = sym::one_of("lit", &["1797693134862315#08e292", "1.797693134862315#e308", "2.225073858507201#e-308", "4.9#e-324", "2.47032822920623#e-324", "0.#", "9007199254740993.#", "900719925474099#.5", "1#.0", "123456789012345678901234567890#.0", "0.00000000000000000000000000000000000#", "6.02214076e2#", "17976931348623158#.0e292", "8.5#e-1"]).replace('#', &c.to_string());
    let want = f * t.parse::<f64>().unwrap();
    let lit = format!("{s}{t}");
    let got = emitted(&lit, "double");
    same(got, want);
}
/// hexadecimal: the literal `mant` with a point before its last `point` digits
fn hex(mant: &[u8], point: usize, e: i32, forms: bool) {
    let (s, x, dot, p, plus, suffix) = if forms { sym::one_of("form", &[("", "0x", "", "p", "", ""), ("-", "0X", ".", "P", "+", ""), ("", "0x", ".", "p", "", "f"), ("-", "0x", "", "P", "+", "D"), ("-", "0X", "", "p", "+", "F"), ("", "0X", ".", "P", "", "d")]) } else { ("", "0x", "", "p", "", "") };
    let f = if s == "-" { -1.0 } else { 1.0 };
    let m = mant.iter().fold(0u128, |m, c| m << 4 | (if *c <= b'9' { *c - b'0' } else { (*c | 32) - b'a' + 10 }) as u128);
    let (a, b) = mant.split_at(mant.len() - point);
    let mut l = format!("@k({s}{x}").into_bytes();
    l.extend_from_slice(a);
    l.extend_from_slice(if point > 0 { b"." } else { dot.as_bytes() });
    l.extend_from_slice(b);
    l.extend_from_slice(format!("{p}{}{e}{suffix}) protocol P {{ }}", if e >= 0 { plus } else { "" }).as_bytes());
    let want = f * nearest(m, e as i64 - 4 * point as i64);
    match idl(sym::text(l)) {
        Ok(o) => { sym::reach("accepted"); same(Some(o.json["k"].clone()), want); }
        Err(_) => { sym::reach("rejected"); same(None, want); }
    }
}
fn hexit(n: &str) -> u8 { let (a, b) = sym::one_of("class", &[(b'0', b'9'), (b'a', b'f'), (b'A', b'F')]); sym::byte(n, a, b) }
/// one to three arbitrary digits, any position of the point
pub fn float_hex_digits() {
    let n = sym::pick("n", 3) + 1;
    let t: Vec<u8> = (0..n).map(|i| hexit(["h", "i", "j"][i])).collect();
    let point = sym::pick("point", n + 1);
    hex(&t, point, sym::one_of("e", &[0, 3, -2]), true);
}
/// mantissas around the 53 bits of a double: every rounding decision
fn long(ns: &[usize], es: &[i32]) {
    let n = sym::one_of("n", ns);
    // the leading digit by its number of bits (the point where the mantissa is cut depends on it)
    let (a, b) = sym::one_of("lead", &[(b'1', b'1'), (b'2', b'3'), (b'4', b'7'), (b'8', b'9'), (b'a', b'f')]);
    let mut t = vec![sym::byte("h", a, b)];
    for i in 1..n { t.push(if i + 1 == n { hexit("z") } else { sym::byte(["d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "da", "db", "dc", "dd", "de", "df", "d10", "d11", "d12"][i - 1], b'0', b'9') }) }
    let point = sym::one_of("point", &[0, 1]);
    hex(&t, point, sym::one_of("e", es), false);
}
pub fn float_hex_round() { long(&[13, 14, 15, 16, 17, 19], &[5, -60]) }
/// the ends of the range: overflow, subnormal numbers, underflow
pub fn float_hex_range() { long(&[2, 14], &[1020, 1019, 1016, 971, 968, 967, -1021, -1050, -1073, -1074, -1075, -1078, -1082, -1126, -1130]) }
/// exponents of any size
pub fn float_hex_exponent() {
    let (s, f) = sign();
    let d = sym::byte("d", b'1', b'9');
    let m = sym::one_of("m", &["1", "0", "0.0", "f.8", "."]);
    let m = if m == "." { format!("{}", d as char) } else { m.to_string() };
    let neg = sym::flag("neg");
    let n = sym::one_of("n", &[4, 9, 10, 11, 19, 20, 24]);
    let mut e = sym::text(vec![d]);
    for i in 1..n { e.push(['0', '9', '2'][i % 3]) }
    let want = f * if m.starts_with('0') || neg { 0.0 } else { f64::INFINITY };
    same(emitted(&format!("{s}0x{m}p{}{}{e}", if neg { "-" } else { sym::one_of("plus", &["", "+"]) }, if sym::flag("zeros") { "00000000000" } else { "" }), "double"), want);
}
/// words
pub fn float_words() {
    let (l, w) = sym::one_of("w", &[("NaN", "NaN"), ("-NaN", "NaN"), ("Infinity", "Infinity"), ("-Infinity", "-Infinity")]);
    let got = emitted(l, sym::one_of("ty", &["double", "float"]));
    check(got == Some(st(w)), "a floating-point word does not denote itself");
}
