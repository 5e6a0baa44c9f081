//! C20: a diagnostic's primary label marks the construct it is about.
use super::{sym, util::*};
use miette::Diagnostic;

pub fn label(d: &dyn Diagnostic) -> Option<(usize, usize)> { d.labels()?.next().map(|l| (l.offset(), l.len())) }
/// `<<` and `>>` around the construct; the text without them, and its range.
fn marked(s: &str) -> (String, usize, usize) {
    let (a, b) = (s.find("<<").unwrap(), s.find(">>").unwrap());
    (format!("{}{}{}", &s[..a], &s[a + 2..b], &s[b + 2..]), a, b - 2)
}
/// Text before the file: wide characters, line breaks, carriage returns.
fn prefix() -> String {
    let c = sym::from_set("p", b" a\n\r\t");
    format!("{}{}{}", sym::one_of("wide", &["", "/* \u{e9}\u{20ac} */", "// \u{1f600}\n/*\u{e9}*/ "]), if sym::flag("ws") { "\n\r\n" } else { "" }, if c == b'a' { "/*a*/".to_string() } else { sym::text(vec![c]) })
}
fn template(n: &str) -> (String, bool) {
    // exact: the label is the marked text; otherwise it lies within it
    const T: &[(&str, bool)] = &[
        ("protocol P { record R { <<#>> f; } }", true), ("protocol P { record R { int a; array< <<#>> > f; } }", true), ("protocol P { /** \u{e9} */ record R { union { null, <<#>> } f; } }", true),
        ("protocol P { void m(int i, <<#>> p); }", true), ("protocol P { <<#>> m(); }", true), ("protocol P { void m() throws <<#>>; }", true), ("schema <<#>>; enum E { A }", true), ("namespace x; schema int; record R { <<#>>? f; }", true),
        ("protocol P { record R { int #; string <<#>>; } }", false), ("protocol P { enum R { #, B, <<#>> } }", false), ("protocol P { enum R { A } = <<#>>; }", false), ("protocol P { record # { } <<enum #>> { A } }", false),
        ("protocol P { fixed #(<<5000000000>>); }", true), ("protocol P { record R { int a; int x, # <<= \"z\">>; } }", false), ("protocol P { void m(int #, int b, <<int #>>); }", false), ("protocol P { record R { decimal(3,<<4>>) #; } }", true),
        ("protocol P { record R { union { null, #, <<#>> } f; } fixed #(1); }", false), ("protocol P { record <<`int`>> { } }", true), ("protocol P { <<@namespace(\"#-b\") record R { int a; }>> }", false), ("protocol P { <<int # () oneway;>> }", false),
        ("protocol P { record R { <<@doc(\"#\")>> record r; } }", true), ("protocol P { record Q { int i; } record R { Q q = <<{\"i\": \"#\"}>>; } }", false), ("protocol P { <<import>> idl \"#\"; }", false), ("protocol P { record Q { int i; } void m(int a, Q q = <<{\"i\": \"#\"}>>); }", false), ("protocol P { enum Q { A } int x(int b); void m(Q r = \"A\", array<Q> q = <<[\"A\", {\"#\":1}]>>); }", false),
        ("protocol P { record R { Undef f = <<0x>>; } }", false), ("protocol P { record R { int <<>>} }", false), ("protocol P { record R { @a(<<\">>\n) int f; } }", true), ("protocol P { record # { int i; } <<\"\u{e9}\">> }", false),
    ];
    let (t, exact) = sym::one_of("template", T);
    (t.replace('#', n), exact)
}
/// errors
pub fn spot_error() {
    let n = word("n", 1);
    let (t, exact) = template(&n);
    let _ = exact;
    let (src, a, b) = marked(&t);
    let p = prefix();
    let src = leak(format!("{p}{src}"));
    let (a, b) = (a + p.len(), b + p.len());
    match idl(src) {
        Ok(_) => check(false, "an erroneous file is accepted"),
        Err(e) => {
            sym::reach("rejected");
            let Some((o, l)) = label(&*e) else { check(false, "an error about a place in the file has no location"); return };
            sym::note(&format!("{t} -> {:?}", src.get(o..o + l)));
            if exact { check(o == a && o + l == b, "an error marks another place than the offending name or literal") }
            else { check(o >= a.saturating_sub(if a == b { 1 } else { 0 }) && o <= b && o + l <= b.max(a + 1), "an error marks a place outside the offending construct") }
        }
    }
}

/// warnings about characters the lexer does not know
pub fn spot_warning() {
    let c = sym::one_of("char", &["#", "\\", "^", "\u{20ac}", "\u{1f600}", "\u{1}", "\u{feff}"]);
    let w = word("n", 1);
    let t = sym::one_of("template", &["protocol % W { record Q { int i; } }", "protocol W { record Q { int % i; } }", "protocol W { /* \u{e9} */ record Q { int i = 1 %; } }", "protocol W { @x(\"\u{1f600}\") enum W { A, % B } }", "%protocol W { }", "protocol W { }%", "schema int; %\nenum W { A }", "protocol W { void m(); }\r\n%"]);
    let p = prefix();
    let src = format!("{p}{}", t.replace('W', &w));
    let at = src.find('%').unwrap();
    let src = leak(src.replace('%', c));
    match idl(src) {
        Ok(o) => {
            sym::reach("accepted");
            check(o.warnings.len() == 1, "one unknown character does not give one warning");
            for w in &o.warnings { check(label(&**w) == Some((at, c.len())), "a warning does not mark the unknown character") }
        }
        Err(_) => check(false, "a file with an unknown character between tokens is rejected"),
    }
}
/// an imported file that is wrong in any of many ways marks its import statement
pub fn spot_import() {
    let w = word("w", 1);
    let (kind, bad) = sym::one_of("bad", &[
        ("schema", "{"), ("schema", "{\"type\": \"record\", \"name\": \"#\"}"), ("schema", "{\"type\": \"fixed\", \"name\": \"#\", \"size\": \"x\"}"), ("schema", "{\"type\": \"record\", \"name\": \"#\", \"fields\": [{\"name\": \"f\", \"type\": \"int\", \"default\": \"x\"}]}"),
        ("schema", "{\"type\": \"record\", \"name\": \"#\", \"fields\": [{\"name\": \"f\", \"type\": {\"type\": \"record\", \"name\": \"In\", \"fields\": [{\"name\": \"g\", \"type\": \"Ok\", \"default\": {}}]}}]}"),
        ("schema", "{\"type\": \"enum\", \"name\": \"#\", \"symbols\": [\"A\", \"A\"]}"), ("schema", "{\"type\": \"enum\", \"name\": \"#\", \"symbols\": [\"A\"], \"default\": \"B\"}"), ("schema", "{\"type\": \"enum\", \"name\": \"#-\", \"symbols\": []}"), ("schema", "{\"type\": \"record\", \"name\": \"#\", \"fields\": [{\"name\": \"f\", \"type\": \"Undef\"}]}"),
        ("schema", "{\"type\": \"record\", \"name\": \"#\", \"fields\": [{\"name\": \"f\", \"type\": [\"int\", \"int\"]}]}"),
        ("protocol", "[]"), ("protocol", "{\"protocol\": \"Q\", \"types\": [], \"messages\": {\"#\": {\"request\": [{\"name\": \"p\", \"type\": \"int\", \"default\": \"x\"}], \"response\": \"null\"}}}"),
        ("protocol", "{\"protocol\": \"Q\", \"types\": [], \"messages\": {\"#\": {\"request\": [], \"response\": \"int\", \"one-way\": true}}}"), ("protocol", "{\"protocol\": \"Q\", \"types\": [], \"messages\": {\"#\": {\"request\": [], \"response\": \"Undef\"}}}"),
        ("protocol", "{\"protocol\": \"Q\", \"types\": [{\"type\": \"record\", \"name\": \"#\", \"fields\": [{\"name\": \"f\", \"type\": \"Ok\", \"default\": 1}]}], \"messages\": {}}"), ("protocol", "{\"protocol\": \"Q\", \"types\": [{\"type\": \"map\", \"values\": 3}], \"messages\": {}}"), ("protocol", "none"), ("idl", "none"), ("schema", "none"),
    ]);
    write("ok.avsc", "{\"type\": \"enum\", \"name\": \"Ok\", \"symbols\": [\"A\"]}");
    if bad != "none" { write("bad.json", &bad.replace('#', &w)) }
    let stmt = format!("import {kind} \"bad.json\";");
    let p = prefix();
    let nested = sym::flag("nested");
    let inner = format!("{p}protocol P {{ import schema \"ok.avsc\"; {}{stmt} record L {{ int i; }} }}", sym::one_of("before", &["", "record K { int k; }\n", "/** \u{e9} */ "]));
    write(if nested { "i.avdl" } else { "m.avdl" }, &inner);
    if nested { write("m.avdl", "protocol M { record N { int i; } import idl \"i.avdl\"; }") }
    match avdl::Idl::new().convert(format!("{}/m.avdl", sym::root())) {
        Ok(_) => check(false, "an erroneous import is accepted"),
        Err(e) => {
            sym::reach("rejected");
            let mut found = None;
            let mut d: Option<&dyn Diagnostic> = Some(&*e);
            while let Some(x) = d {
                if let Some(l) = label(x) { found = Some((l, x.source_code().and_then(|c| c.read_span(&(0, 0).into(), 0, 0).ok().and_then(|c| c.name().map(str::to_string))))); break }
                d = x.diagnostic_source();
            }
            sym::note(&format!("{e:?}"));
            let Some(((o, l), n)) = found else { check(false, "an erroneous import has no location"); return };
            check(n.is_some_and(|n| n.ends_with(if nested { "i.avdl" } else { "m.avdl" })), "an erroneous import is attributed to another file");
            let at = inner.rfind(&stmt).unwrap();
            check(o >= at && o + l <= at + stmt.len() && l > 0, "an erroneous import is marked at another place");
        }
    }
}
