//! C21: the answer depends on the input alone, not on the order of hash tables.
use super::{sym, util::*};
use miette::Diagnostic;

/// Everything visible of a diagnostic.
pub fn tell(d: &dyn Diagnostic, out: &mut String) {
    out.push_str(&format!("<{d}"));
    let mut e = d.source();
    while let Some(x) = e { out.push_str(&format!(" because {x}")); e = x.source() }
    if let Some(h) = d.help() { out.push_str(&format!(" help {h}")) }
    if let Some(ls) = d.labels() { for l in ls { out.push_str(&format!(" at {}+{} {:?}", l.offset(), l.len(), l.label())) } }
    if let Some(rs) = d.related() { for r in rs { tell(r, out) } }
    out.push('>');
}
pub fn told(r: &miette::Result<avdl::IdlOutput>) -> String {
    let mut s = String::new();
    match r {
        Ok(o) => { s = serde_json::to_string_pretty(&o.json).unwrap(); for w in &o.warnings { tell(&**w, &mut s) } }
        Err(e) => tell(&**e, &mut s),
    }
    s
}
pub fn told_schemata(r: &miette::Result<avdl::SchemataOutput>) -> String {
    let mut s = String::new();
    match r {
        Ok(o) => { for x in &o.schemas { s.push_str(&format!("{} {}\n", x.name, serde_json::to_string_pretty(&x.schema).unwrap())) } for w in &o.warnings { tell(&**w, &mut s) } }
        Err(e) => tell(&**e, &mut s),
    }
    s
}
const VALID: &[&str] = &[
    "@#a(1) @#b(2) @#c(3) protocol P { }",
    "protocol P { @#z(1) @#b({\"#x\": 1, \"#y\": 2}) record R { int f; } }",
    "protocol P { void #b(); void #a(); void #c(); }",
    "protocol P { record R { @#b(1) @#a(2) int @#d(1) @#c(2) f; } }",
    "protocol P { @#b(1) @#a(2) @#c(3) void m(@#e(1) @#d(2) int p); }",
    "schema R; record R { @#b(1) @#a(2) string f; }",
    "protocol P { @#b(1) @#a(2) enum E { A } @#d(1) @#c(2) fixed F(1); record R { E e; F f; } }",
];
const ERRORS: &[&str] = &[
    "protocol P { void #a(X p); void #b(Y p); void #c(X q); }",
    "protocol P { X #a(); X #b(); X #c(); }",
    "protocol P { void #a(X p, Y q); Y #b(X x); }",
    "protocol P { record R { X a; } void #a(X p); void #b() throws X, Z; }",
    "protocol P { record R { @#a(1) @#b(2) @#c(3) union { null, int } f; } }",
    "protocol P { record R { @#a(1) @#b(2) @#c(3) E f; } enum E { A } }",
    "protocol P { record Q { int #a; int #b; int #c; } record R { Q f = {}; Q g = {\"#z\": 1}; Q h = {\"#a\": 1}; } }",
    "protocol P { record Q { int i; } void #a(Q q = {}); void #b(Q q = {\"i\": \"\"}); }",
    "protocol P { record R { map<int> f = {\"#a\": \"\", \"#b\": null, \"#c\": true}; } }",
    "protocol P { record Rec { Rce #a; Recc #b; } record Recx { } record Recy { } }",
    "protocol P { enum Abc { A } enum Abd { A } enum Abe { A } record R { Abx #a; } }",
    "protocol P { void #a(int i) oneway; int #b(int i) oneway; int #c() oneway; }",
    "@#a(1) @#a(2) @#b(3) @#b(4) protocol P { record R { int `#-a`; int `#-b`; } }",
    "protocol P { record #a { } record #a { } record #b { } record #b { } }",
];
fn both(src: String, k: u32) {
    let src = leak(src);
    sym::input(src);
    sym::hash_mode(0);
    let a = avdl::Idl::new().convert_str(src);
    let x = avdl::Idl2Schemata::new().extract_str(src);
    sym::hash_mode(k);
    let b = avdl::Idl::new().convert_str(src);
    let y = avdl::Idl2Schemata::new().extract_str(src);
    sym::reach(if a.is_ok() { "accepted" } else { "rejected" });
    let (s, t) = (told(&a), told(&b));
    if s != t { sym::note(&format!("{s}\n{t}")) }
    check(s == t, "the same input gives different answers");
    check(told_schemata(&x) == told_schemata(&y), "the same input gives different schemata");
}
/// outputs
pub fn determ_output() { let w = word("w", 1); both(sym::one_of("src", VALID).replace('#', &w), 3) }
/// errors
pub fn determ_error() { let w = word("w", 1); both(sym::one_of("src", ERRORS).replace('#', &w), 3) }
pub fn determ_output_all() { let w = word("w", 1); both(sym::one_of("src", VALID).replace('#', &w), 6) }
pub fn determ_error_all() { let w = word("w", 1); both(sym::one_of("src", ERRORS).replace('#', &w), 6) }
