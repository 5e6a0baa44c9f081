use super::sym;
use serde_json::Value;

pub fn leak(s: impl Into<String>) -> &'static str { Box::leak(s.into().into_boxed_str()) }
pub fn idl(s: impl Into<String>) -> miette::Result<avdl::IdlOutput> {
    let s = leak(s);
    sym::input(s);
    avdl::Idl::new().convert_str(s)
}
pub fn schemata(s: impl Into<String>) -> miette::Result<avdl::SchemataOutput> {
    let s = leak(s);
    sym::input(s);
    avdl::Idl2Schemata::new().extract_str(s)
}

/// Populate the parser's caches with concrete text so that symbolic runs start warm
/// (the caches are an implementation detail of the ANTLR runtime; without warming, every
/// byte value that was never seen before forks into a cold-cache path).
pub fn warm() {
    let _ = idl("/** p */ @namespace(\"a.b\") protocol P { import idl \"zz\"; }");
    let _ = idl("@namespace(\"a.b\") protocol P { /** d */ @aliases([\"q\", \"a.b\"]) record R { /** x */ long @order(\"ignore\") f = 12; string s = \"a\"; union{null,int} u = null; \
        int? k = -0x1F; double d = 1.5e3; boolean t = true; map<int> m = {}; array<bytes> a = []; decimal(3, 1) z; date y; M.N.O w; } \
        enum E {A,B} = A; fixed F(4); error X { int i; } array<int> f(map<string> m, int i = 3) throws X; void g() oneway; }");
    let _ = idl("namespace a.b; schema R; record R { E e; } enum E { A, B }");
    // digits of every literal kind, identifier characters, string and comment characters
    let mut t = String::from("protocol P { record R { int f = ");
    let mut lits: Vec<String> = Vec::new();
    for c in "0123456789".chars() {
        lits.push(format!("{c}"));
        for d in "0123456789".chars() {
            if c == '0' && d > '7' { continue; }
            lits.push(format!("{c}{d}"));
            lits.push(format!("{c}{d}{d}"));
            lits.push(format!("-{c}{d}"));
        }
        lits.push(format!("{c}.{c}{c}e{c}{c}"));
        lits.push(format!(".{c}{c}"));
        lits.push(format!("{c}e+{c}{c}"));
        lits.push(format!("{c}E-{c}{c}f"));
    }
    for c in "0123456789abcdefABCDEF".chars() {
        lits.push(format!("0x{c}{c}{c}"));
        lits.push(format!("0x{c}.{c}{c}p1"));
    }
    lits.extend(["1L", "1l", "0x1L", "01L", "1_1", "0x1_1", "0_1", "1__1", "NaN", "-NaN", "Infinity", "-Infinity", "1f", "1d", "1F", "1D", "1.", "1.5f", "1.5D", "0x1p+1", "0x1P-1d", "0x1.p1f", "+1"].map(String::from));
    for l in lits { t.push_str("["); t.push_str(&l); t.push_str(","); t.push_str(&l); t.push_str("]"); }
    let _ = idl(t);
    let name: String = ('a'..='z').chain('A'..='Z').chain('0'..='9').chain(['_']).collect();
    let _ = idl(format!("protocol P {{ record {name} {{ int {name}{name}; }} @{name}.{name}-{name}(\"\") fixed `{name}` (3); }}"));
    for a in 'a'..='z' {
        let _ = idl(format!("protocol P {{ record {a}{a}{a} {{ int {}{a}; }} record _{a}{a} {{}} }}", a.to_ascii_uppercase()));
    }
    let mut s = String::from("protocol P { @p(\"");
    for c in 0x20u8..0x7f {
        if c != b'"' && c != b'\\' { s.push(c as char); s.push(c as char); }
    }
    for e in ["\\n", "\\r", "\\t", "\\b", "\\f", "\\\\", "\\\"", "\\'", "\\0", "\\1", "\\7", "\\12", "\\377", "\\u0041", "\\uuD83D\\uDE00", "\u{e9}\u{20ac}\u{1f600}"] { s.push_str(e); s.push_str(e); }
    for c in 0..8u8 { for d in 0..8u8 { s.push_str(&format!("\\{c}\\{c}{d}\\{}{c}{d}", c & 3)); } }
    for c in "0123456789abcdefABCDEF".chars() { s.push_str(&format!("\\u{c}{c}{c}{c}\\u0{c}{c}{c}")); }
    s.push_str("\") record R {} }");
    let _ = idl(s.clone());
    let mut d = String::from("/** * x ** y */ /**/ /***/ // line\n protocol P { /** ");
    for c in 0x09u8..0x7f { if c != b'*' && c != b'/' { d.push(c as char); d.push('*'); d.push(c as char); } }
    d.push_str("/ // ** / * /\n*/ record R {} }");
    let _ = idl(d);
}

pub fn ok<T>(r: &miette::Result<T>) -> bool { r.is_ok() }
pub fn types(v: &Value) -> &[Value] { v["types"].as_array().map(|a| &a[..]).unwrap_or(&[]) }
pub fn field<'a>(v: &'a Value, ty: usize, f: usize) -> &'a Value { &v["types"][ty]["fields"][f] }
pub fn check(c: bool, m: &str) { sym::check(c, m) }

/// An arbitrary identifier of `n` characters (letters, digits, underscore).
pub fn ident(name: &str, n: usize) -> String {
    let first: Vec<u8> = (b'A'..=b'Z').chain(b'a'..=b'z').chain([b'_']).collect();
    let rest: Vec<u8> = first.iter().copied().chain(b'0'..=b'9').collect();
    sym::text((0..n).map(|i| sym::from_set(name, if i == 0 { &first } else { &rest })).collect())
}
/// Arbitrary lowercase letters.
pub fn lower(name: &str, n: usize) -> String { sym::text((0..n).map(|_| sym::byte(name, b'a', b'z')).collect()) }
/// the error message must say something
pub fn errmsg(e: &miette::Report) -> String { format!("{e:?}") }
pub fn obj(v: &[(&str, Value)]) -> Value { Value::Object(v.iter().map(|(k, v)| (k.to_string(), v.clone())).collect()) }
pub fn st(s: &str) -> Value { Value::String(s.to_string()) }
/// What a panic-free harness expects to compile.
pub fn must(s: String, why: &str) -> Value {
    match idl(s) {
        Ok(o) => o.json,
        Err(e) => { sym::note(&format!("{e:?}")); sym::check(false, why); Value::Null }
    }
}
/// `q` and `n` arbitrary lowercase letters: never a keyword, one path through the lexer.
pub fn word(name: &str, n: usize) -> String { format!("q{}", lower(name, n)) }
/// a file in the scratch directory
pub fn write(name: &str, text: &str) {
    let p = format!("{}/{name}", sym::root());
    sym::input(&format!("{name}: {text}"));
    if let Some((d, _)) = name.rsplit_once('/') { std::fs::create_dir_all(format!("{}/{d}", sym::root())).unwrap() }
    std::fs::write(p, text).unwrap();
}
