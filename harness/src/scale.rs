//! Sizes: the guarantees where there is much of something, up to 130 of it.
use super::{canon::Canon, spot::label, sym, util::*};
use serde_json::{json, Value};

const SIZES: &[usize] = &[9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 101, 130];
fn size() -> usize { sym::one_of("size", SIZES) }
fn list(n: usize, sep: &str, f: impl Fn(usize) -> String) -> String { (0..n).map(f).collect::<Vec<_>>().join(sep) }
fn array(n: usize, f: impl Fn(usize) -> Value) -> Value { Value::Array((0..n).map(f).collect()) }
fn object(n: usize, f: impl Fn(usize) -> (String, Value)) -> Value { Value::Object((0..n).map(f).collect()) }
fn ints(n: usize) -> (String, Value) { (list(n, " ", |i| format!("record R{i} {{ }}")), array(n, |i| json!({"type": "record", "name": format!("R{i}"), "fields": []}))) }
/// a protocol with `n` of something, and what it has to become
fn declared(n: usize, kinds: &[usize]) -> (String, Value) {
    let w = word("w", 1);
    let rec = |f: Value| json!({"type": "record", "name": "R", "fields": f});
    let one = |body: String, t: Value| (format!("protocol P {{ {body} }}"), json!({"protocol": "P", "types": [t], "messages": {}}));
    match sym::one_of("what", kinds) {
        0 => one(format!("record R {{ {} }}", list(n, " ", |i| format!("int {w}{i};"))), rec(array(n, |i| json!({"name": format!("{w}{i}"), "type": "int"})))),
        1 => one(format!("record R {{ int {}; }}", list(n, ", ", |i| format!("{w}{i} = {i}"))), rec(array(n, |i| json!({"name": format!("{w}{i}"), "type": "int", "default": i})))),
        2 => one(format!("enum R {{ {} }} = {w}{};", list(n, ", ", |i| format!("{w}{i}")), n - 1), json!({"type": "enum", "name": "R", "symbols": array(n, |i| json!(format!("{w}{i}"))), "default": format!("{w}{}", n - 1)})),
        3 => { let (s, v) = ints(n); (format!("protocol P {{ {s} }}"), json!({"protocol": "P", "types": v, "messages": {}})) }
        4 => (format!("protocol P {{ {} }}", list(n, " ", |i| format!("long m{i}(int {w});"))), json!({"protocol": "P", "types": [], "messages": object(n, |i| (format!("m{i}"), json!({"request": [{"name": w, "type": "int"}], "response": "long"})))})),
        5 => (format!("protocol P {{ void m({}); }}", list(n, ", ", |i| format!("int {w}{i}"))), json!({"protocol": "P", "types": [], "messages": {"m": {"request": array(n, |i| json!({"name": format!("{w}{i}"), "type": "int"})), "response": "null"}}})),
        6 => (format!("protocol P {{ {} void m() throws {}; }}", list(n, " ", |i| format!("error E{i} {{ }}")), list(n, ", ", |i| format!("E{}", n - 1 - i))), json!({"protocol": "P", "types": array(n, |i| json!({"type": "error", "name": format!("E{i}"), "fields": []})), "messages": {"m": {"request": [], "response": "null", "errors": array(n, |i| json!(format!("E{}", n - 1 - i)))}}})),
        7 => { let (s, mut v) = ints(n); v.as_array_mut().unwrap().push(rec(json!([{"name": "u", "type": array(n, |i| json!(format!("R{}", n - 1 - i)))}]))); (format!("protocol P {{ {s} record R {{ union {{ {} }} u; }} }}", list(n, ", ", |i| format!("R{}", n - 1 - i))), json!({"protocol": "P", "types": v, "messages": {}})) }
        8 => one(format!("@aliases([{}]) record R {{ }}", list(n, ", ", |i| format!("\"{w}{i}\""))), json!({"type": "record", "name": "R", "fields": [], "aliases": array(n, |i| json!(format!("{w}{i}")))})),
        9 => one(format!("{} fixed R(3);", list(n, " ", |i| format!("@{w}{i}({i})"))), { let mut d = object(n, |i| (format!("{w}{i}"), json!(i))); d["type"] = json!("fixed"); d["name"] = json!("R"); d["size"] = json!(3); d }),
        10 => one(format!("@x([{}]) record R {{ }}", list(n, ", ", |i| format!("{{\"{w}\": {i}}}"))), json!({"type": "record", "name": "R", "fields": [], "x": array(n, |i| json!({&w: i}))})),
        11 => one(format!("@x({{{}}}) record R {{ }}", list(n, ", ", |i| format!("\"{w}{i}\": [{i}]"))), json!({"type": "record", "name": "R", "fields": [], "x": object(n, |i| (format!("{w}{i}"), json!([i])))})),
        12 => { let v = "v".repeat(n); one(format!("record R{v} {{ int {w}{v}; }} "), json!({"type": "record", "name": format!("R{v}"), "fields": [{"name": format!("{w}{v}"), "type": "int"}]})) }
        13 => { let ns = list(n, ".", |i| format!("n{i}")); (format!("@namespace(\"{ns}\") protocol P {{ record R {{ int {w}; }} }}"), json!({"protocol": "P", "namespace": ns, "types": [rec(json!([{"name": w, "type": "int"}]))], "messages": {}})) }
        14 => { let t = list(n, " ", |i| format!("{w}{i}")); one(format!("/** {t} */ record R {{ /** {t}. */ int f; }}"), json!({"type": "record", "name": "R", "doc": t, "fields": [{"name": "f", "type": "int", "doc": format!("{t}.")}]})) }
        15 => one(format!("/**\n{} */ record R {{ }}", list(n, "", |i| format!(" * {w}{i}\n"))), json!({"type": "record", "name": "R", "doc": list(n, "\n", |i| format!("{w}{i}")), "fields": []})),
        16 => { let t = list(n, "", |i| format!("{w}\\n{i}\\\"")); one(format!("record R {{ string s = \"{t}\"; }}"), rec(json!([{"name": "s", "type": "string", "default": list(n, "", |i| format!("{w}\n{i}\""))}]))) }
        17 => one(format!("record R {{ array<int> a = [{}]; }}", list(n, ", ", |i| i.to_string())), rec(json!([{"name": "a", "type": {"type": "array", "items": "int"}, "default": array(n, |i| json!(i))}]))),
        18 => one(format!("record R {{ map<long> a = {{{}}}; }}", list(n, ", ", |i| format!("\"{w}{i}\": {i}"))), rec(json!([{"name": "a", "type": {"type": "map", "values": "long"}, "default": object(n, |i| (format!("{w}{i}"), json!(i)))}]))),
        19 => { let n = n.min(33); one(format!("record R {{ {}int{} {w}; }}", "array<".repeat(n), ">".repeat(n)), rec(json!([{"name": w, "type": (0..n).fold(json!("int"), |t, _| json!({"type": "array", "items": t}))}]))) }
        20 => { let n = n.min(33); one(format!("@x({}{}) record R {{ }}", "[".repeat(n), "]".repeat(n)), json!({"type": "record", "name": "R", "fields": [], "x": (1..n).fold(json!([]), |t, _| json!([t]))})) }
        21 => { let n = n.min(33); one(list(n, " ", |i| if i + 1 < n { format!("record C{i} {{ C{} c; }}", i + 1) } else { format!("enum C{i} {{ A }}") }), (0..n - 1).rev().fold(json!({"type": "enum", "name": format!("C{}", n - 1), "symbols": ["A"]}), |t, i| json!({"type": "record", "name": format!("C{i}"), "fields": [{"name": "c", "type": t}]}))) }
        22 => one(format!("record R {{ {} }}", list(n, " ", |i| format!("/** {w}{i} */ @x({i}) string? f{i} = null;"))), rec(array(n, |i| json!({"name": format!("f{i}"), "doc": format!("{w}{i}"), "type": ["null", {"type": "string", "x": i}], "default": null})))),
        _ => one(format!("record R {{ {} }}", list(n, " ", |i| format!("@order(\"descending\") R{i} f{i};").replace("@order(\"descending\") R", "int @order(\"descending\") @aliases([\"a\"]) @p(1) g").replace(" f", "; bytes f"))), rec(Value::Array((0..n).flat_map(|i| [json!({"name": format!("g{i}"), "type": "int", "order": "descending", "aliases": ["a"], "p": 1}), json!({"name": format!("f{i}"), "type": "bytes"})]).collect()))),
    }
}
const ALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23];
pub fn scale_declared() { exact(ALL) }
pub fn scale_docs() { exact(&[14, 15, 22]) }
pub fn scale_annotations() { exact(&[9, 10, 11, 20, 22]) }
pub fn scale_aliases() { exact(&[8, 23]) }
pub fn scale_strings() { exact(&[16]) }
fn exact(kinds: &[usize]) {
    let (src, want) = declared(size(), kinds);
    let got = must(src, "a large protocol is rejected");
    sym::reach("accepted");
    if got != want { sym::note(&format!("{got} instead of {want}")) }
    check(got == want, "a large protocol is emitted otherwise than declared")
}
/// what a large protocol becomes can be imported and is the same again; and so are its types one by one
pub fn scale_import() {
    let (_, v) = declared(sym::one_of("size", &[9, 33, 130]), ALL);
    write("d.avpr", &v.to_string());
    let Ok(o) = idl("protocol P { import protocol \"d.avpr\"; }") else { check(false, "a large valid file cannot be imported"); return };
    sym::reach("accepted");
    // (types without a namespace are the same in another protocol; the namespace of the imported one is spelt out)
    Canon::of_protocol(&o.json).includes(&Canon::of_protocol(&v));
    if v.get("namespace").is_none() && !types(&v).iter().any(|t| t["name"] == "C0") { check(o.json == v, "a large imported protocol is emitted otherwise") }
}
/// two equal members among many, or one that is wrong
pub fn scale_duplicates() { rules(&[0, 1, 2, 3, 4, 5, 6]) }
pub fn scale_undeclared() { rules(&[7, 8, 9, 10]) }
pub fn scale_symbols() { rules(&[11]) }
pub fn scale_defaults() { rules(&[12, 13, 14]) }
fn rules(kinds: &[usize]) {
    let n = sym::one_of("size", &[12, 33, 70]);
    let what = sym::one_of("what", kinds);
    let at = match sym::pick("at", 4) { 0 => 0, 1 => n / 2, 2 => n - 2, _ => n - 1 };
    let bad = sym::flag("bad");
    let j = match sym::pick("as", 3) { 0 => 0, 1 => n / 2 - 1, _ => n - 1 };
    let pair = what < 7;
    if pair { sym::assume(j != at) } else { sym::assume(j == 0) }
    let k = |i: usize| if bad && i == at { j } else { i };
    let t = |i: usize| if bad && i == at { "Nope" } else { "int" };
    let v = |i: usize| if bad && i == at { "true".to_string() } else { i.to_string() };
    let recs = list(n, " ", |i| format!("error R{i} {{ }}"));
    let body = match what {
        0 => format!("record R {{ {} }}", list(n, " ", |i| format!("int f{};", k(i)))),
        1 => format!("enum R {{ {} }}", list(n, ", ", |i| format!("S{}", k(i)))),
        2 => format!("void m({});", list(n, ", ", |i| format!("int p{}", k(i)))),
        3 => format!("{recs} record U {{ union {{ {} }} u; }}", list(n, ", ", |i| format!("R{}", k(i)))),
        4 => list(n, " ", |i| format!("fixed T{}(1);", k(i))),
        5 => format!("{recs} void m() throws {};", list(n, ", ", |i| format!("R{}", k(i)))),
        6 => format!("record R {{ int {}; }}", list(n, ", ", |i| format!("f{}", k(i)))),
        7 => format!("record R {{ {} }}", list(n, " ", |i| format!("{} f{i};", t(i)))),
        8 => list(n, " ", |i| format!("{} m{i}();", t(i))),
        9 => format!("void m({});", list(n, ", ", |i| format!("{} p{i}", t(i)))),
        10 => list(n, " ", |i| format!("record R{i} {{ map<{}> f; }}", t(i))),
        11 => format!("enum R {{ {} }} = {};", list(n, ", ", |i| format!("S{i}")), if bad { format!("S{}", n + at) } else { format!("S{at}") }),
        12 => format!("record R {{ array<int> f = [{}]; }}", list(n, ", ", v)),
        13 => format!("record R {{ map<long> f = {{{}}}; }}", list(n, ", ", |i| format!("\"k{i}\": {}", v(i)))),
        _ => format!("record A {{ {} }} record R {{ A f = {{{}}}; }}", list(n, " ", |i| format!("int f{i};")), list(n, ", ", |i| format!("\"{}{i}\": {i}", if bad && i == at { "g" } else { "f" }))),
    };
    let r = idl(format!("protocol P {{ {body} }}"));
    sym::reach(if r.is_ok() { "accepted" } else { "rejected" });
    if bad { check(r.is_err(), "one wrong member among many is accepted") } else { check(r.is_ok(), "many legal members are rejected") }
}
/// many imported files, side by side or in a chain, some of them twice
pub fn scale_imports() {
    let n = sym::one_of("size", &[9, 20, 33]);
    let kind = sym::pick("kind", 4);
    let w = word("w", 1);
    let back = sym::flag("back");
    let line = |i: usize| match kind { 0 | 3 => format!("import idl \"f{i}.avdl\";"), 1 => format!("import protocol \"f{i}.avpr\";"), _ => format!("import schema \"f{i}.avsc\";") };
    for i in 0..n {
        match kind {
            0 => write(&format!("f{i}.avdl"), &format!("protocol F {{ record F{i} {{ int {w}; }} }}")),
            // a chain that may lead back to its start
            3 => write(&format!("f{i}.avdl"), &format!("protocol F {{ {} record F{i} {{ int {w}; }} }}", if i + 1 < n { line(i + 1) } else if back { line(0) } else { String::new() })),
            1 => write(&format!("f{i}.avpr"), &json!({"protocol": "F", "types": [{"type": "record", "name": format!("F{i}"), "fields": [{"name": w, "type": "int"}]}], "messages": {format!("m{i}"): {"request": [], "response": "null"}}}).to_string()),
            _ => write(&format!("f{i}.avsc"), &json!({"type": "record", "name": format!("F{i}"), "fields": [{"name": w, "type": "int"}]}).to_string()),
        }
    }
    let mut body = if kind == 3 { line(0) } else { list(n, " ", line) };
    if back && kind != 3 { body += &format!(" {}", list(n, " ", |i| line(n - 1 - i))) }
    write("m.avdl", &format!("protocol P {{ {body} }}"));
    match avdl::Idl::new().convert(format!("{}/m.avdl", sym::root())) {
        Ok(o) => {
            sym::reach("accepted");
            let order = |i: usize| if kind == 3 { n - 1 - i } else { i };
            check(o.json["types"] == array(n, |i| json!({"type": "record", "name": format!("F{}", order(i)), "fields": [{"name": w, "type": "int"}]})), "many imports do not give the types of every file once and in order");
            check(o.json["messages"] == if kind == 1 { object(n, |i| (format!("m{i}"), json!({"request": [], "response": "null"}))) } else { json!({}) }, "many imports do not give the messages of every file");
        }
        Err(e) => { sym::note(&format!("{e:?}")); check(false, "many imports are rejected") }
    }
}
/// many types, each extracted with all it needs
pub fn scale_extract() {
    let n = sym::one_of("size", &[9, 17, 33]);
    let kind = sym::pick("kind", 3);
    let def = |i: usize| match kind {
        0 => json!({"type": "record", "name": format!("C{i}"), "fields": []}),
        // a chain, each link inside the one before
        1 => (i..n - 1).rev().fold(json!({"type": "fixed", "name": format!("C{}", n - 1), "size": 1}), |t, i| json!({"type": "record", "name": format!("C{i}"), "fields": [{"name": "c", "type": t}]})),
        // a hub with all others in it
        _ => if i == 0 { json!({"type": "record", "name": "C0", "fields": array(n - 1, |j| json!({"name": format!("f{j}"), "type": {"type": "enum", "name": format!("C{}", j + 1), "symbols": ["A"]}}))}) } else { json!({"type": "enum", "name": format!("C{i}"), "symbols": ["A"]}) },
    };
    let text = list(n, " ", |i| match kind {
        0 => format!("record C{i} {{ }}"),
        1 => if i + 1 < n { format!("record C{i} {{ C{} c; }}", i + 1) } else { format!("fixed C{i}(1);") },
        _ => if i == 0 { format!("record C0 {{ {} }}", list(n - 1, " ", |j| format!("C{} f{j};", j + 1))) } else { format!("enum C{i} {{ A }}") },
    });
    match schemata(if sym::flag("bare") { text } else { format!("protocol P {{ {text} }}") }) {
        Ok(o) => {
            sym::reach("accepted");
            check(o.schemas.len() == n, "not every one of many types is extracted");
            for (i, s) in o.schemas.iter().enumerate() { check(s.name == format!("C{i}") && s.schema == def(i), "one of many extracted types is not what was declared") }
        }
        Err(_) => check(false, "a file of many types is rejected"),
    }
}
/// the place of an error or a warning far down or far to the right
pub fn scale_spot() {
    let n = sym::one_of("size", &[12, 66, 130, 260]);
    let fill = match sym::pick("fill", 6) { 0 => "\n".repeat(n), 1 => " ".repeat(n), 2 => "/* \u{e9}\u{1f600} */".repeat(n / 6), 3 => "// c\r\n".repeat(n), 4 => list(n.min(66), "\n", |i| format!("record F{i} {{ int i; }}")), _ => format!("@x(\"{}\") ", "\u{20ac}".repeat(n)) };
    let (what, mark) = sym::one_of("what", &[("record R { Nope f; }", "Nope"), ("enum R { A, B, A }", ""), ("record R { int f = \"x\"; }", "\"x\""), ("fixed R(99999999999);", "99999999999"), ("record R { int f; % }", "%"), ("record R { int f }", "}")]);
    let src = leak(format!("protocol P {{ {fill}{what} }}"));
    let start = src.len() - 2 - what.len();
    match (idl(src), mark) {
        (Ok(o), "%") => {
            sym::reach("accepted");
            check(o.warnings.len() == 1 && o.warnings.iter().all(|w| label(&**w) == Some((start + what.find('%').unwrap(), 1))), "a warning far down is not at its place")
        }
        (Ok(_), _) => check(false, "an error far down is not reported"),
        (Err(e), _) => {
            sym::reach("rejected");
            let Some((o, l)) = label(&*e) else { check(false, "an error far down has no place"); return };
            let mut at = start;
            if !mark.is_empty() { at += what.find(mark).unwrap() }
            if mark == "}" { check(o >= start && o <= at + 1, "a syntax error far down is not at its place"); }
            else if mark.is_empty() { check(o >= start && o + l <= start + what.len(), "an error far down is not at its place") }
            else { check((o, l) == (at, mark.len()), "an error far down is not at its place") }
            if mark == "}" {
                let line = src[..at].matches('\n').count() + 1;
                let start = format!("line {line}:");
                check(e.chain().any(|x| x.to_string().starts_with(&start)), "a syntax error far down is reported for another line")
            }
        }
    }
}
/// many warnings, in one file and in imported ones: each once and in order
pub fn scale_warnings() {
    let n = sym::one_of("size", &[9, 17, 33, 65]);
    let files = sym::flag("files");
    if files { for i in 0..n { write(&format!("f{i}.avdl"), "protocol F { % }") } }
    let body = if files { list(n, " ", |i| format!("import idl \"f{i}.avdl\";")) } else if sym::flag("docs") { list(n, " ", |i| format!("record R{i} {{ /** w */ }}")) } else { list(n, " ", |i| format!("record R{i} {{ % }}")) };
    let end = sym::one_of("end", &["", " record Z { Nope z; }"]);
    write("m.avdl", &format!("protocol P {{ {body}{end} }}"));
    let mut c = avdl::Idl::new();
    let r = c.convert(format!("{}/m.avdl", sym::root()));
    let ws = match r { Ok(o) => { sym::reach("accepted"); o.warnings } Err(_) => { sym::reach("rejected"); c.drain_warnings() } };
    check(ws.len() == n, "many warnings are lost or repeated");
    check(c.drain_warnings().is_empty(), "many warnings are handed out twice");
}
/// much white space and long comments between any two tokens
pub fn scale_trivia() {
    let n = sym::one_of("size", &[9, 66, 130, 300]);
    let fill = match sym::pick("fill", 6) { 0 => "\n".repeat(n), 1 => " \t".repeat(n), 2 => format!("/* {} */", "*x/ ".repeat(n).replace("*x/", "x*")), 3 => format!("// {}\n", "c".repeat(n)), 4 => "/* */".repeat(n.min(66)), _ => "\r\n// x\r\n".repeat(n) };
    const TOKENS: &[&str] = &["@namespace", "(", "\"a\"", ")", "protocol", "P", "{", "@x", "(", "[", "1", ",", "2", "]", ")", "record", "R", "{", "union", "{", "null", ",", "int", "}", "f", "=", "null", ";", "}", "void", "m", "(", "int", "p", ")", "throws", "E", ";", "error", "E", "{", "}", "}"];
    let at = sym::pick("at", TOKENS.len() + 1);
    let src: String = TOKENS.iter().enumerate().map(|(i, t)| format!("{}{t} ", if i == at { &fill } else { "" })).collect();
    let got = must(if at == TOKENS.len() { src + &fill } else { src }, "white space or comments make a file illegal");
    sym::reach("accepted");
    let rec = |k: &str, n: &str, f: Value| json!({"type": k, "name": n, "fields": f});
    let mut r = rec("record", "R", json!([{"name": "f", "type": ["null", "int"], "default": null}]));
    r["x"] = json!([1, 2]);
    check(got == json!({"protocol": "P", "namespace": "a", "types": [r, rec("error", "E", json!([]))], "messages": {"m": {"request": [{"name": "p", "type": "int"}], "response": "null", "errors": ["E"]}}}), "white space or comments change the result");
}
/// names and namespaces of many characters or segments, valid or wrong in one place
pub fn scale_names() {
    let n = sym::one_of("size", &[12, 33, 66, 130, 260]);
    let at = match sym::pick("at", 3) { 0 => 1, 1 => n / 2, _ => n - 1 };
    let c = sym::one_of("c", &["v", "_", "7", "-", "$"]);
    let valid = matches!(c, "v" | "_" | "7");
    let name: String = (0..n).map(|i| if i == at { c } else { "v" }).collect();
    let what = sym::pick("what", 6);
    let quoted = if c == "$" { sym::assume(what == 4 || what == 5); name.clone() } else { sym::assume(c != "-" || what >= 4 || at != n - 1); name.clone() };
    let (src, p) = match what {
        0 => (format!("protocol P {{ record {quoted} {{ }} }}"), "/types/0/name"),
        1 => (format!("protocol P {{ record R {{ int {quoted}; }} }}"), "/types/0/fields/0/name"),
        2 => (format!("protocol P {{ enum R {{ {quoted} }} }}"), "/types/0/symbols/0"),
        3 => (format!("protocol P {{ void m(int {quoted}); }}"), "/messages/m/request/0/name"),
        4 => (format!("@namespace(\"{name}\") protocol P {{ record R {{ }} }}"), "/namespace"),
        _ => (format!("@namespace(\"{}.z\") protocol P {{ record R {{ }} }}", list(n.min(66), ".", |i| if i == at { c.into() } else { format!("v{i}") })), ""),
    };
    let valid = if what == 5 { sym::assume(at < 66); matches!(c, "v" | "_") } else { valid };
    match idl(src) {
        Ok(o) => { sym::reach("accepted"); check(valid, "an invalid long name is accepted"); if !p.is_empty() { check(o.json.pointer(p) == Some(&json!(name)), "a long name is altered") } }
        Err(_) => { sym::reach("rejected"); check(!valid, "a valid long name is rejected") }
    }
}
