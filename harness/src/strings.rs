//! C04: string literals denote the characters their escapes stand for.
use super::{sym, util::*};
use serde_json::{json, Value};

const HEX: &[u8] = b"0123456789abcdefABCDEF";
fn hexval(c: u8) -> u32 { (c as u32 & 15) + 9 * (c as u32 >> 6) }
fn esc(c: u8) -> u8 { match c { b'n' => 10, b'r' => 13, b't' => 9, b'b' => 8, b'f' => 12, c => c } }
fn push(out: &mut Vec<u8>, c: u32) {
    match c {
        0..=0x7f => out.push(c as u8),
        0x80..=0x7ff => out.extend([0xc0 | (c >> 6) as u8, 0x80 | (c & 0x3f) as u8]),
        0x800..=0xffff => out.extend([0xe0 | (c >> 12) as u8, 0x80 | ((c >> 6) & 0x3f) as u8, 0x80 | (c & 0x3f) as u8]),
        _ => out.extend([0xf0 | (c >> 18) as u8, 0x80 | ((c >> 12) & 0x3f) as u8, 0x80 | ((c >> 6) & 0x3f) as u8, 0x80 | (c & 0x3f) as u8]),
    }
}
/// one piece of a literal: appended to the text and, decoded, to the value
fn piece(t: &mut Vec<u8>, v: &mut Vec<u8>) {
    match sym::pick("piece", 10) {
        0 => { let c = sym::byte("plain", 0x23, 0x5b); t.push(c); v.push(c) }
        1 => { let c = sym::byte("plain", 0x5d, 0x7e); t.push(c); v.push(c) }
        2 => { let c = sym::from_set("esc", b"btnfr\"'\\"); t.extend([b'\\', c]); v.push(esc(c)) }
        3 => { let d = sym::byte("o", b'0', b'7'); t.extend([b'\\', d]); v.push(d - b'0'); if sym::flag("then") { t.extend(*b"8z"); v.extend(*b"8z") } else { t.push(b' '); v.push(b' ') } }
        4 => { // two octal digits, ended by a non-octal character
            let (c, d) = (sym::byte("o", b'0', b'7'), sym::byte("o", b'0', b'7'));
            t.extend([b'\\', c, d, b'9']);
            v.push((c - b'0') * 8 + d - b'0');
            v.push(b'9');
        }
        5 => { // three octal digits: the third belongs to the escape only up to \377
            let (a, c, d) = (sym::byte("o", b'0', b'7'), sym::byte("o", b'0', b'7'), sym::byte("o", b'0', b'7'));
            t.extend([b'\\', a, c, d, b'7']);
            if a <= b'3' { push(v, (a - b'0') as u32 * 64 + (c - b'0') as u32 * 8 + (d - b'0') as u32) } else { v.push((a - b'0') * 8 + c - b'0'); v.push(d) }
            v.push(b'7');
        }
        6 => { // \uXXXX outside the surrogates
            let h: Vec<u8> = (0..4).map(|i| if i == 1 { sym::from_set("h", HEX) } else { sym::from_set("h", b"0147cdDfF") }).collect();
            t.extend(*b"\\u");
            t.extend(&h);
            let c = h.iter().fold(0, |a, c| a * 16 + hexval(*c));
            sym::assume((c < 0xd800) | (c > 0xdfff));
            push(v, c);
        }
        7 => { // a surrogate pair
            let hi = [b'd', sym::from_set("hi", b"89abAB"), sym::from_set("hi", b"03F"), b'D'];
            let lo = [b'D', sym::from_set("lo", b"cdefCF"), sym::from_set("lo", b"09a"), b'e'];
            for x in [hi, lo] { t.extend(*b"\\u"); t.extend(x); }
            let c = |x: [u8; 4]| x.iter().fold(0u32, |a, c| a * 16 + hexval(*c));
            push(v, 0x10000 + ((c(hi) - 0xd800) << 10) + (c(lo) - 0xdc00));
        }
        8 => { let x = [0xc3 + sym::choice("l2", 8) as u8, 0x80 + sym::choice("t2", 64) as u8]; t.extend(x); v.extend(x) }
        _ => { let x = sym::one_of("long", &["\u{20ac}", "\u{fffd}", "\u{1f600}", "\u{2028}"]); t.extend(x.bytes()); v.extend(x.bytes()) }
    }
}
fn literal(n: usize) -> (String, String) {
    let (mut t, mut v) = (vec![], vec![]);
    for _ in 0..n { piece(&mut t, &mut v) }
    (sym::text(t), sym::text(v))
}
fn same(v: &Value, want: &str, m: &str) { check(v.as_str() == Some(want), m) }

/// annotation values and defaults, two pieces in a row
pub fn string_value() {
    let (t, v) = literal(2);
    let out = must(format!("protocol P {{ @p(\"{t}\") record R {{ string f = \"{t}\"; bytes @q([\"{t}\"]) g; }} }}"), "a legal string literal is rejected");
    sym::reach("accepted");
    same(&out["types"][0]["p"], &v, "annotation string differs from the literal's value");
    same(&field(&out, 0, 0)["default"], &v, "string default differs from the literal's value");
    same(&field(&out, 0, 1)["q"][0], &v, "nested annotation string differs from the literal's value");
}
/// object keys
pub fn string_key() {
    let (t, v) = literal(1);
    let out = must(format!("protocol P {{ record R {{ map<int> f = {{\"k{t}\": 1}}; }} }}"), "a legal string literal is rejected");
    sym::reach("accepted");
    let o = field(&out, 0, 0)["default"].as_object();
    check(o.is_some_and(|o| o.len() == 1 && *o.keys().next().unwrap() == format!("k{v}")), "object key differs from the literal's value");
}
/// import-like uses: aliases, orders, namespaces with escaped letters
pub fn string_names() {
    let c = [sym::byte("h", b'4', b'5'), sym::byte("h", b'1', b'9')];
    let n = sym::text(vec![b'Q', (c[0] - b'0') * 16 + c[1] - b'0']);
    let e = format!("Q\\u00{}", sym::text(c.to_vec()));
    let out = must(format!("@namespace(\"x.{e}\") protocol P {{ @aliases([\"{e}\"]) record R {{ int @aliases([\"{e}\"]) f; }} }}"), "a legal string literal is rejected");
    sym::reach("accepted");
    check(out["namespace"] == st(&format!("x.{n}")) && out["types"][0]["aliases"] == json!([n]) && field(&out, 0, 0)["aliases"] == json!([n]), "escapes in names are not decoded");
}
/// Any one-character escape: exactly the documented ones are legal.
pub fn string_escape_set() {
    let c = sym::byte("c", 0x20, 0x7e);
    let legal = b"btnfr\"'\\".iter().fold(false, |a, x| a | (*x == c)) | ((c >= b'0') & (c <= b'7'));
    let t = sym::text(vec![b'a', b'\\', c, b'z']);
    match idl(format!("protocol P {{ @p(\"{t}\") record R {{ }} }}")) {
        Ok(o) => {
            check(legal, "an undefined escape is accepted");
            sym::reach("accepted");
            let want = if c >= b'0' && c <= b'7' { c - b'0' } else { esc(c) };
            same(&o.json["types"][0]["p"], &sym::text(vec![b'a', want, b'z']), "annotation string differs from the literal's value");
        }
        Err(_) => { sym::reach("rejected"); check(!legal, "a legal escape is rejected"); }
    }
}
/// Lone surrogates never corrupt their neighbours or crash; the text is kept as written.
pub fn string_lone_surrogate() {
    let any = |first: u8| [first, sym::from_set("h", b"89abcdefABCDEF"), sym::from_set("h", b"0F"), sym::from_set("h", b"1fF")];
    let a = any(b'D');
    let t = format!("\\u{}", sym::text(a.to_vec()));
    let (follow, tail) = match sym::pick("follow", 7) {
        0 => (String::new(), String::new()),
        1 => ("z".into(), "z".into()),
        2 => ("\\n".into(), "\n".into()),
        3 => ("\\u0041".into(), "A".into()),
        4 => ("\\ue000".into(), "\u{e000}".into()),
        5 => ("\\\\udc00".into(), "\\udc00".into()),
        _ => { // another one that is not the second half of a pair
            let b = any(b'd');
            let low = |c: u8| (c >= b'c') & (c <= b'f') | (c >= b'C') & (c <= b'F');
            sym::assume(low(a[1]) | !low(b[1]));
            let b = format!("\\u{}", sym::text(b.to_vec()));
            (b.clone(), b)
        }
    };
    let out = must(format!("protocol P {{ @p(\"x{t}{follow}\") record R {{ }} }}"), "a lone surrogate escape is rejected");
    sym::reach("accepted");
    same(&out["types"][0]["p"], &format!("x{t}{tail}"), "text around a lone surrogate is corrupted");
}

fn one(t: Vec<u8>, v: Vec<u8>, m: &str) {
    let (t, v) = (sym::text(t), sym::text(v));
    let out = must(format!("@p(\"{t}\") protocol P {{ }}"), "a legal string literal is rejected");
    sym::reach("accepted");
    same(&out["p"], &v, m);
}
/// an arbitrary hexadecimal digit and its value
fn hexdigit(case: u8) -> (u8, u32) {
    let c = sym::byte("h", *b"0Aa".get(case as usize).unwrap(), *b"9Ff".get(case as usize).unwrap());
    (c, if case == 0 { (c - b'0') as u32 } else if case == 1 { (c - b'A') as u32 + 10 } else { (c - b'a') as u32 + 10 })
}
/// every \uXXXX outside the surrogates
pub fn string_unicode() {
    let cases: Vec<u8> = (0..4).map(|_| sym::pick("case", 3) as u8).collect();
    let h: Vec<(u8, u32)> = cases.iter().map(|c| hexdigit(*c)).collect();
    let mut t = b"\\u".to_vec();
    let mut v = vec![];
    t.extend(h.iter().map(|h| h.0));
    let c = h.iter().fold(0, |a, c| a * 16 + c.1);
    sym::assume((c < 0xd800) | (c > 0xdfff));
    push(&mut v, c);
    one(t, v, "a unicode escape does not denote its character");
}
/// every surrogate pair
pub fn string_pair() {
    let hi = [b'd', sym::from_set("hi", b"89abAB"), sym::from_set("hi", HEX), sym::from_set("hi", HEX)];
    let lo = [b'D', sym::from_set("lo", b"cdefCDEF"), sym::from_set("lo", HEX), sym::from_set("lo", HEX)];
    let mut t = vec![];
    for x in [hi, lo] { t.extend(*b"\\u"); t.extend(x) }
    let c = |x: [u8; 4]| x.iter().fold(0u32, |a, c| a * 16 + hexval(*c));
    let mut v = vec![];
    push(&mut v, 0x10000 + ((c(hi) - 0xd800) << 10) + (c(lo) - 0xdc00));
    one(t, v, "a surrogate pair does not denote its character");
}
