//! C01/C20: every input is answered with a result or an explained error, and every
//! diagnostic points into the text it is about.
use super::{sym, util::*};
use miette::Diagnostic;

/// Everything a reporter reads from a diagnostic is there and consistent.
pub fn diag(d: &dyn Diagnostic, depth: usize) {
    check(!d.to_string().is_empty(), "a diagnostic without a message");
    if let Some(h) = d.help() { check(!h.to_string().is_empty(), "an empty help text") }
    if let Some(ls) = d.labels() {
        for l in ls {
            let Some(code) = d.source_code() else { check(false, "a diagnostic with a label but no source"); return };
            match code.read_span(l.inner(), 0, 0) {
                Ok(c) => {
                    check(std::str::from_utf8(c.data()).is_ok(), "a diagnostic's span cuts a character in two");
                }
                Err(_) => check(false, "a diagnostic's span lies outside its source"),
            }
            // with context, as reporters do
            check(code.read_span(l.inner(), 1, 1).is_ok(), "a diagnostic's context cannot be read");
        }
    }
    check(depth < 8, "diagnostics nest endlessly");
    if let Some(rs) = d.related() { for r in rs { diag(r, depth + 1) } }
}
/// Compile both ways; both must answer, agree on acceptance, and explain errors.
pub fn answer(src: &str) {
    let (a, b) = (idl(src), schemata(src));
    match &a {
        Ok(o) => {
            sym::reach("accepted");
            check(o.json.is_object() || o.json.is_array() || o.json.is_string(), "the output is not a schema or protocol");
            for w in &o.warnings { sym::reach("warned"); diag(&**w, 0) }
        }
        Err(e) => { sym::reach("rejected"); diag(&**e, 0) }
    }
    match &b {
        Ok(o) => for w in &o.warnings { diag(&**w, 0) },
        Err(e) => diag(&**e, 0),
    }
}
pub const HOLES: &[&str] = &[
    "#", "protocol P { # }", "protocol # { }", "# protocol P { }", "protocol P { } #", "protocol P { record R { # } }", "protocol P { record # { } }", "protocol P { record R { int # ; } }",
    "protocol P { record R { int f = # ; } }", "protocol P { record R { int f #; } }", "protocol P { record R { # f; } }", "protocol P { enum E { # } }", "protocol P { enum E { A } = # ; }", "protocol P { fixed F(#); }", "protocol P { fixed F#; }",
    "protocol P { record R { decimal(#) f; } }", "@#(1) protocol P { }", "@a# protocol P { }", "@namespace(#) protocol P { }", "protocol P { @aliases(#) record R { } }", "protocol P { record R { int @order(#) f; } }",
    "protocol P { record R { array<#> f; } }", "protocol P { record R { union { # } f; } }", "protocol P { void m(#); }", "protocol P { void m() #; }", "protocol P { error E {} void m() throws #; }", "protocol P { # m(); }",
    "import #", "import idl #;", "protocol P { import # }", "protocol P { import idl \"x#\"; }", "schema #;", "schema # int;", "namespace #; schema int;", "namespace a# schema int;", "protocol P { record `#` { } }", "protocol P { record R { # } ", "protocol P { record R { int f = [#]; } }", "protocol P { record R { map<int> f = {\"k\" # 1}; } }",
    "# record R { }", "record R { } #", "schema int; #", "/** a\n#b\n#c */ protocol P { }", "protocol P { /** * a\n # * b */ record R { /** #*/ int f; } }", "protocol P { record R { /** a */ # /** b */ int f; } }",
];
const WIDE: &[&str] = &["\u{e9}", "\u{80}", "\u{20ac}", "\u{feff}", "\u{1f600}", "\u{10ffff}", "\u{3000}", "\u{a0}", "\u{2028}", "\u{85}", "e\u{301}"];
fn any() -> u8 { sym::byte("c", 0, 0x7f) }
/// one arbitrary ASCII byte (control characters included) anywhere
pub fn total_byte() {
    let pre = sym::one_of("pre", &["", "/* \u{e9}\u{1f600} */\n \u{20ac}"]);
    let t = sym::one_of("template", HOLES);
    answer(&format!("{pre}{}", t.replace('#', &sym::text(vec![any()]))));
}
/// two arbitrary ASCII bytes in a row
pub fn total_two() {
    let t = sym::one_of("template", &[HOLES[1], HOLES[5], HOLES[8], HOLES[12], HOLES[17], HOLES[22], HOLES[23], HOLES[29]]);
    let src = t.replace('#', &sym::text(vec![any(), any()]));
    match idl(src) { Ok(o) => { sym::reach("accepted"); for w in &o.warnings { diag(&**w, 0) } } Err(e) => { sym::reach("rejected"); diag(&*e, 0) } }
}
pub fn total_two_all() {
    let t = sym::one_of("template", HOLES);
    answer(&t.replace('#', &sym::text(vec![any(), any()])));
}
/// wide characters between arbitrary neighbours
pub fn total_wide() {
    let pre = sym::one_of("pre", &["", "/* \u{e9}\u{1f600} */\n \u{20ac}"]);
    let t = sym::one_of("template", HOLES);
    let w = sym::one_of("wide", WIDE);
    let (l, r) = (sym::from_set("l", b"a \"/@"), sym::from_set("r", b"a \"*;"));
    // (also the very first and the very last character of a file)
    let (l, r) = (if pre.is_empty() && sym::flag("first") { vec![] } else { vec![l] }, if sym::flag("last") { vec![] } else { vec![r] });
    answer(&format!("{pre}{}", t.replace('#', &format!("{}{w}{}", sym::text(l), sym::text(r)))));
}
pub const DOC: &str = "@namespace(\"a.b\") protocol P { /** d */ @k([1,{\"x\":-2.5}]) record R { union{null,E} u = null; int? i = 0x1F, j; array<map<E>> m = []; decimal(3,1) d; } enum E { A, B } = A; fixed F(4); error X { string s; } @m(1) int f(R r, int i = 3) throws X; void g() oneway; }";
pub const DOC2: &str = "namespace a.b; schema R?; // c\n /* x */ record R { string @order(\"ignore\") s = \"\\u0041\\n\"; `enum` e; } @aliases([\"Q\"]) enum `enum` { A }";
fn place(n: usize) -> usize {
    let at = sym::pick("at", n.div_ceil(64)) * 64 + sym::pick("at", 64);
    sym::assume(at < n);
    at
}
pub fn edit(doc: &str) -> String {
    let at = place(doc.len());
    let mut b = doc.as_bytes().to_vec();
    match sym::pick("edit", 4) {
        0 => b[at] = any(),
        1 => b.insert(at, any()),
        2 => { b.remove(at); }
        _ => b.truncate(at),
    }
    String::from_utf8(b).unwrap()
}
/// any single edit of a representative document
pub fn total_edit() { answer(&edit(DOC)); }
pub fn total_edit_schema() { answer(&edit(DOC2)); }
/// a wide character dropped anywhere
pub fn total_drop() {
    let doc = sym::one_of("doc", &[DOC, DOC2]);
    let at = place(doc.len());
    answer(&format!("{}{}{}", &doc[..at], sym::one_of("wide", WIDE), &doc[at..]));
}
pub const AVSC: &str = r#"{"type":"record","name":"a.R","doc":"d","aliases":["Q"],"fields":[{"name":"f","type":["null",{"type":"enum","name":"E","symbols":["A"],"default":"A"}],"default":null},{"name":"g","type":{"type":"fixed","name":"F","size":4}},{"name":"h","type":{"type":"bytes","logicalType":"decimal","precision":9,"scale":2},"order":"ignore","x":[1.5,"\u00e9"]}]}"#;
pub const AVPR: &str = r#"{"protocol":"D","namespace":"a","types":[{"type":"error","name":"X","fields":[]}],"messages":{"m":{"request":[{"name":"p","type":"int","default":1}],"response":"X","errors":["X"]},"o":{"request":[],"response":"null","one-way":true}}}"#;
fn import_edit(doc: &str, kind: &str) {
    write("d.json", &edit(doc));
    answer(&format!("protocol P {{ import {kind} \"d.json\"; record L {{ int i; }} }}"));
}
/// any single edit of an imported file
pub fn total_avsc() { import_edit(AVSC, "schema") }
pub fn total_avpr() { import_edit(AVPR, "protocol") }
/// any JSON value in any place of an imported file
pub fn total_json_values() {
    use serde_json::{json, Value};
    let v = match sym::pick("value", 16) {
        0 => Value::Null, 1 => json!(true), 2 => json!(0), 3 => json!(-1), 4 => json!(1e300), 5 => json!(18446744073709551615u64), 6 => json!(""), 7 => st("int"), 8 => st("nope"), 9 => st("."), 10 => json!([]), 11 => json!({}), 12 => json!([["int"]]), 13 => json!({"type": {"type": "int"}}), 14 => json!({"type": "record"}), _ => json!({"name": "n", "type": "enum", "symbols": ["\u{e9}"]}),
    };
    let avpr = sym::flag("avpr");
    let mut doc: Value = serde_json::from_str(if avpr { AVPR } else { AVSC }).unwrap();
    // every member of the document, by a walk
    fn walk(d: &mut Value, n: &mut usize, v: &Value) -> bool {
        match d {
            Value::Object(o) => {
                let keys: Vec<String> = o.keys().cloned().collect();
                for k in keys {
                    if *n == 0 { o.insert(k, v.clone()); return true }
                    *n -= 1;
                    if walk(o.get_mut(&k).unwrap(), n, v) { return true }
                }
                false
            }
            Value::Array(a) => { for x in a.iter_mut() { if *n == 0 { *x = v.clone(); return true } *n -= 1; if walk(x, n, v) { return true } } false }
            _ => false,
        }
    }
    let mut n = sym::pick("at", 64);
    sym::assume(walk(&mut doc, &mut n, &v));
    write("d.json", &doc.to_string());
    answer(&format!("protocol P {{ import {} \"d.json\"; record L {{ int i; }} }}", if avpr { "protocol" } else { "schema" }));
}
/// The `n`-th value in a document (the document itself first) that `f` takes.
pub fn each(d: &mut serde_json::Value, n: &mut usize, f: &mut dyn FnMut(&mut serde_json::Value) -> bool) -> bool {
    use serde_json::Value;
    if *n == 0 { if f(d) { return true } } else { *n -= 1 }
    match d {
        Value::Object(o) => { let keys: Vec<String> = o.keys().cloned().collect(); keys.iter().any(|k| each(o.get_mut(k).unwrap(), n, f)) }
        Value::Array(a) => a.iter_mut().any(|x| each(x, n, f)),
        _ => false,
    }
}
/// drop the `n`-th member of any object in a document
pub fn drop_nth(d: &mut serde_json::Value, n: &mut usize) -> bool {
    use serde_json::Value;
    match d {
        Value::Object(o) => {
            let keys: Vec<String> = o.keys().cloned().collect();
            for k in keys {
                if *n == 0 { o.remove(&k); return true }
                *n -= 1;
                if drop_nth(o.get_mut(&k).unwrap(), n) { return true }
            }
            false
        }
        Value::Array(a) => a.iter_mut().any(|x| drop_nth(x, n)),
        _ => false,
    }
}
/// two escapes in a row in a string, of any kind and completeness
pub fn total_escapes() {
    let hex = |first: &[u8]| sym::text(vec![sym::from_set("h", first), sym::from_set("h", b"07bBcCfF"), sym::from_set("h", b"0f"), sym::from_set("h", b"0f")]);
    let piece = || match sym::pick("escape", 8) {
        0 => format!("\\u{}", hex(b"dD")),
        1 => format!("\\u{}", hex(b"0f")),
        2 => format!("\\{}", sym::text(vec![sym::byte("o", b'0', b'7'), sym::from_set("o", b"07"), sym::from_set("o", b"17")])),
        3 => sym::one_of("odd", &["\\u", "\\ud", "\\ud8", "\\ud80", "\\u{d800}", "\\d", "\\x41", "\\8"]).to_string(),
        4 => "\u{e9}".to_string(),
        5 => "\u{1f600}".to_string(),
        6 => "\\\\".to_string(),
        _ => String::new(),
    };
    let (a, b) = (piece(), piece());
    answer(&format!("protocol P {{ @p(\"{a}{b}\") record R {{ string s = \"{b}{a}\"; }} }}"));
}
/// nested types, values, comments and brackets, complete or cut short, around an arbitrary byte
pub fn total_deep() {
    let (open, close, frame) = sym::one_of("shape", &[
        ("array<", ">", "protocol P { record R { # f; } }"), ("map<array<", ">>", "protocol P { record R { # f; } }"), ("union{null,map<", ">}", "protocol P { void m(# f); }"), ("@k(1) array<", "> ", "schema #;"), ("@x(", ") ", "protocol P { # }"),
        ("[", "]", "protocol P { record R { @k(#) int f; } }"), ("{\"a\":", "}", "protocol P { record R { @k(#) int f; } }"), ("[[{\"b\": ", "}]]", "protocol P { record R { int f = #; } }"),
        ("/*", "*/", "protocol P { # }"), ("/**", "*/ ", "protocol P { # record R { } }"), ("(", ")", "protocol P { void m#; }"), ("{", "}", "protocol P #"), ("protocol P {", "}", "#"), ("record R {", "}", "protocol P { # }"), ("`", "`", "protocol P { record # { } }"), ("\"", "\"", "protocol P { @k(#) int m(); }"),
        ("<", ">", "protocol P { record R { array# f; } }"), ("union {", "}", "protocol P { record R { # f; } }"), ("throws E, E", "", "protocol P { error E { } void m() #; }"), ("?", "", "protocol P { record R { int# f; } }"), ("a.", "", "protocol P { record R { #b f; } }"), ("int i;", "", "protocol P { record R { # } }"),
    ]);
    let depth = sym::one_of("depth", &[2, 5, 24]);
    let less = sym::one_of("less", &[0, 1]);
    let core = match sym::pick("core", 3) { 0 => "int".to_string(), 1 => String::new(), _ => sym::text(vec![sym::byte("c", 0, 0x7f)]) };
    answer(&frame.replace('#', &format!("{}{core}{}", open.repeat(depth), close.repeat(depth - less))));
}
/// the same in imported files
pub fn total_json_deep() {
    let (open, close) = sym::one_of("shape", &[("[", "]"), ("{\"type\": \"array\", \"items\": ", "}"), ("{\"type\": \"map\", \"values\": [\"null\", ", "]}"), ("{\"type\": ", "}"), ("{\"type\": \"record\", \"name\": \"N\", \"fields\": [{\"name\": \"n\", \"type\": ", "}]}")]);
    let depth = sym::one_of("depth", &[2, 5, 24, 64]);
    let less = sym::one_of("less", &[0, 1]);
    let core = match sym::pick("core", 3) { 0 => "\"int\"".to_string(), 1 => String::new(), _ => sym::text(vec![sym::byte("c", 0, 0x7f)]) };
    let t = format!("{}{core}{}", open.repeat(depth), close.repeat(depth - less));
    let f = |t: &str, k: &str| format!("{{\"type\": \"record\", \"name\": \"R\", \"fields\": [{{\"name\": \"f\", \"type\": {t}, \"k\": {k}}}]}}");
    write("d.json", &match sym::pick("at", 4) { 0 => f(&t, "0"), 1 => f("\"int\"", &t), 2 => t, _ => format!("{{\"protocol\": \"D\", \"types\": [], \"messages\": {{\"m\": {{\"request\": [], \"response\": {t}}}}}}}") });
    answer(&format!("protocol P {{ import {} \"d.json\"; record L {{ int i; }} }}", sym::one_of("kind", &["schema", "protocol"])));
}
/// nesting beyond what the stack holds
pub fn total_stack() {
    let (open, close, frame) = sym::one_of("shape", &[("array<", ">", "protocol P { record R { #int~ f; } }"), ("map<", ">", "protocol P { void m(#int~ f); }")]);
    let depth = sym::one_of("depth", &[64, 20000]);
    answer(&frame.replace('#', &open.repeat(depth)).replace('~', &close.repeat(depth)));
}
