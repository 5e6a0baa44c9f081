//! C12/C13: annotations are preserved verbatim where they are written, never replace what
//! the declaration itself says, and logical types keep their base type.
use super::{sym, util::*};
use serde_json::{json, Value};

/// An arbitrary JSON value: source text and value.
fn value(depth: usize) -> (String, Value) {
    match sym::pick("value", if depth == 0 { 5 } else { 8 }) {
        0 => { let s = lower("s", 2); (format!("\"{s}\""), json!(s)) }
        1 => { let c = sym::byte("d", b'0', b'9'); (format!("-4{}", sym::text(vec![c])), json!(-40 - (c - b'0') as i64)) }
        2 => ("true".into(), json!(true)),
        3 => ("null".into(), json!(null)),
        4 => ("2.5".into(), json!(2.5)),
        5 => { let (a, x) = value(depth - 1); (format!("[{a}, {a},[]]"), json!([x, x, []])) }
        6 => { let k = lower("k", 1); let (a, x) = value(depth - 1); (format!("{{\"{k}\" : {a}, \"zz\":{{}}}}"), json!({k: x, "zz": {}})) }
        _ => ("[]".into(), json!([])),
    }
}
/// Where an annotation can stand: source with `#`, and the path of the annotated object.
pub const SITES: &[(&str, &str)] = &[
    ("# protocol P { record R { int f; } }", ""),
    ("/** d */ # protocol P { void m(); }", ""),
    ("protocol P { # record R { int f; } }", "/types/0"),
    ("protocol P { /** d */ # error R { } void m() throws R; }", "/types/0"),
    ("protocol P { @a(1) # enum R { A, B } = B; }", "/types/0"),
    ("protocol P { # enum R { A, B } }", "/types/0"),
    ("protocol P { # @a(1) fixed R(4); }", "/types/0"),
    ("protocol P { record R { int a; int # f = 3, g; } }", "/types/0/fields/1"),
    ("protocol P { record R { /** d */ string @a(1) # f; } }", "/types/0/fields/0"),
    ("protocol P { record R { @a(1) # int f = 3; } }", "/types/0/fields/0/type"),
    ("protocol P { record R { # @a(1) array<int> f; } }", "/types/0/fields/0/type"),
    ("protocol P { record R { # map<int> f = {}; } }", "/types/0/fields/0/type"),
    ("protocol P { record R { array<# date> f; } }", "/types/0/fields/0/type/items"),
    ("protocol P { record R { map<# decimal(5,2)> f; } }", "/types/0/fields/0/type/values"),
    ("protocol P { record R { # uuid? f; } }", "/types/0/fields/0/type/1"),
    ("protocol P { record R { union { null, # array<int> } f; } }", "/types/0/fields/0/type/1"),
    ("protocol P { # @a(1) void m(int i); }", "/messages/m"),
    ("protocol P { /** d */ # int m(int i = 1) throws E; error E {} }", "/messages/m"),
    ("protocol P { # void m() oneway; }", "/messages/m"),
    ("protocol P { void m(int # i = 1); }", "/messages/m/request/0"),
    ("protocol P { void m(# array<int> i); }", "/messages/m/request/0/type"),
    ("protocol P { # boolean? m(); }", "/messages/m"),
    ("protocol P { # date? m(R? r); record R { } }", "/messages/m"),
    ("protocol P { # map<R> m(R? r); record R { } }", "/messages/m"),
    ("protocol P { # union { null, R } m(); record R { } }", "/messages/m"),
    ("schema # array<int>;", ""),
    ("namespace x; schema int; # record R { R? f; }", "!"),
];
pub const KEYS: &[&str] = &["type", "name", "namespace", "doc", "fields", "items", "values", "symbols", "size", "aliases", "default", "order", "protocol", "types", "messages", "request", "response", "errors", "one-way", "logicalType", "precision", "scale", "java-class", "x.y"];

fn run(src: String) -> Option<Value> {
    match idl(src.clone()) { Ok(o) => Some(o.json), Err(_) => None }
}
fn compare(site: (&str, &str), key: &str, txt: &str, v: &Value, must_accept: bool) {
    let site = if site.1 == "!" { ("namespace x; schema R; # record R { R? f; }", "") } else { site };
    let Some(base) = run(site.0.replace('#', "")) else { check(false, "a plain declaration is rejected"); return };
    let b = base.pointer(site.1).cloned().unwrap_or(Value::Null);
    let Some(mut out) = run(site.0.replace('#', &format!("@{key}({txt})"))) else {
        sym::reach("rejected");
        check(!must_accept, "a custom annotation is rejected");
        return;
    };
    sym::reach("accepted");
    check(b.get(key).is_none(), "an annotation that collides with a structural attribute is accepted");
    let o = out.pointer_mut(site.1).map(|x| x.take()).unwrap_or(Value::Null);
    check(o.get(key) == Some(v), "an annotation is lost or altered");
    let mut b = if let Value::String(_) = b { json!({"type": b}) } else { b };
    b[key] = v.clone();
    check(o == b, "an annotation disturbs the declaration it stands on");
    let mut rest = base.clone();
    if let Some(p) = rest.pointer_mut(site.1) { *p = Value::Null }
    check(site.1.is_empty() || rest == out, "an annotation leaks to another declaration");
}
/// custom annotation, arbitrary value, every site
pub fn annot_custom() {
    let site = sym::one_of("site", SITES);
    let key = match sym::pick("key", 3) { 0 => word("key", 2), 1 => format!("{}-x.y", word("key", 1)), _ => "`long`".to_string() };
    let (t, v) = value(1);
    if key == "`long`" { compare_tick(site, &t, &v) } else { compare(site, &key, &t, &v, true) }
}
fn compare_tick(site: (&str, &str), t: &str, v: &Value) {
    // a quoted keyword is an ordinary name
    let site = if site.1 == "!" { ("namespace x; schema R; # record R { R? f; }", "") } else { site };
    let Some(out) = run(site.0.replace('#', &format!("@`long`({t})"))) else { check(false, "a custom annotation is rejected"); return };
    check(out.pointer(site.1).and_then(|o| o.get("long")) == Some(v), "an annotation is lost or altered");
}
/// structural names as annotation keys: either rejected, or kept without disturbing anything
pub fn annot_reserved() {
    let site = sym::one_of("site", SITES);
    let key = sym::one_of("key", KEYS);
    let (t, v) = match sym::pick("value", 3) { 0 => { let s = lower("s", 1); (format!("\"{s}\""), json!(s)) } 1 => ("7".into(), json!(7)), _ => ("[]".into(), json!([])) };
    // names with a meaning of their own: C06, C29
    let bare = site.1.contains("/0/type") || site.0.contains("schema #");
    if key == "namespace" || (!bare && (key == "aliases" || key == "order")) { return; }
    compare(site, key, &t, &v, matches!(key, "java-class" | "x.y"));
}
/// Two annotations of different names are both kept.
pub fn annot_two() {
    let (a, b) = (word("a", 1), word("b", 1));
    sym::assume(a != b);
    let site = sym::one_of("site", &SITES[..SITES.len() - 1]);
    let c = sym::byte("d", b'0', b'9');
    let Some(out) = run(site.0.replace('#', &format!("@{a}({}) @{b}(\"{}\")", sym::text(vec![c]), sym::text(vec![c])))) else { check(false, "a custom annotation is rejected"); return };
    sym::reach("accepted");
    let o = out.pointer(site.1).cloned().unwrap_or(Value::Null);
    check(o[&a] == json!(c - b'0') && o[&b] == st(&sym::text(vec![c])), "one of two annotations is lost or altered");
}
/// Of two annotations of one name the last one counts.
pub fn annot_twice() {
    let k = word("k", 1);
    let site = sym::one_of("site", &SITES[..SITES.len() - 1]);
    let c = sym::byte("d", b'0', b'9');
    let (x, y) = (sym::one_of("x", &["0", "null", "{\"p\": 1}"]), sym::one_of("y", &["#", "[#]", "{\"q\": #}", "null"]));
    let y = y.replace('#', &sym::text(vec![c]));
    let Some(out) = run(site.0.replace('#', &format!("@{k}({x}) {}@{k}({y})", sym::one_of("between", &["", "@other(1) "])))) else { check(false, "a repeated annotation is rejected"); return };
    sym::reach("accepted");
    let o = out.pointer(site.1).cloned().unwrap_or(Value::Null);
    let want = match y.as_bytes()[0] { b'[' => json!([c - b'0']), b'{' => json!({"q": c - b'0'}), b'n' => json!(null), _ => json!(c - b'0') };
    check(o.get(&k) == Some(&want), "of two annotations of one name another than the last counts");
}
/// Annotations on a reference to a named type cannot be represented, and are errors.
pub fn annot_reference() {
    let k = word("key", 1);
    let src = sym::one_of("site", &[
        "protocol P { record Q {} record R { # Q f; } }", "protocol P { record Q {} record R { # Q? f; } }", "protocol P { record Q {} record R { array<# Q> f; } }",
        "protocol P { record R { union { null, # Q } f; } enum Q { A } }", "protocol P { fixed Q(1); void m(# Q p); }",
    ]);
    let r = idl(src.replace('#', &format!("@{k}(1)")));
    sym::reach(if r.is_ok() { "accepted" } else { "rejected" });
    check(r.is_err(), "an annotation on a reference to a named type is accepted and lost");
}

/// `@logicalType` on any base: base, name and parameters are emitted as written.
pub fn logical_annotation() {
    let b = sym::one_of("base", &["int", "long", "string", "bytes", "float", "boolean", "fixed"]);
    let l = sym::one_of("logical", &["date", "time-millis", "time-micros", "timestamp-millis", "timestamp-micros", "local-timestamp-millis", "local-timestamp-micros", "uuid", "decimal", "duration", "custom"]);
    let (p, s) = (sym::byte("p", b'1', b'9'), sym::byte("s", b'0', b'9'));
    let form = sym::pick("params", 4);
    let pt = sym::text(vec![p]);
    let st_ = sym::text(vec![s]);
    let ann = format!("@logicalType(\"{l}\") {}{}", if form & 1 == 1 { format!("@precision({pt}) ") } else { String::new() }, if form & 2 == 2 { format!("@scale({st_}) ") } else { String::new() });
    // custom annotations that only look like parameters
    let more = sym::one_of("more", &["", "scaleHint", "scale-x", "precision.x", "precisions", "Scale", "logicalTypes"]);
    let ann = if more.is_empty() { ann } else { format!("{ann}@{more}(7) ") };
    let late = sym::flag("late");
    let ann = if late { ann.trim_end().rsplit(' ').map(|x| format!("{x} ")).collect() } else { ann };
    let mut e = json!({"type": b, "logicalType": l});
    if !more.is_empty() { e[more] = json!(7) }
    if form & 1 == 1 { e["precision"] = json!(p - b'0'); }
    if form & 2 == 2 { e["scale"] = json!(s - b'0'); }
    let (src, at) = if b == "fixed" {
        e["name"] = st("F");
        e["size"] = json!(12);
        (format!("protocol P {{ {ann} fixed F(12); }}"), "/types/0")
    } else {
        let (pre, post, at) = sym::one_of("ctx", &[("", "", ""), ("array<", ">", "/items"), ("union{null,", "}", "/1")]);
        (format!("protocol P {{ record R {{ {pre}{ann}{b}{post} f; }} }}"), match at { "" => "/types/0/fields/0/type", "/items" => "/types/0/fields/0/type/items", _ => "/types/0/fields/0/type/1" })
    };
    let out = must(src, "a logical type annotation is rejected");
    sym::reach("accepted");
    let mut o = out.pointer(at).cloned().unwrap_or(Value::Null);
    // a decimal's scale defaults to 0
    if l == "decimal" && form & 2 == 0 && o.get("scale") == Some(&json!(0)) { o.as_object_mut().unwrap().remove("scale"); }
    check(o == e, "a logical type annotation loses its base type, name or parameters");
}
/// Built-in logical type names mean the same as their annotations.
pub fn logical_names() {
    let (n, b, l) = sym::one_of("name", &[("date", "int", "date"), ("time_ms", "int", "time-millis"), ("timestamp_ms", "long", "timestamp-millis"), ("local_timestamp_ms", "long", "local-timestamp-millis"), ("uuid", "string", "uuid")]);
    let k = word("k", 1);
    let ann = sym::flag("ann");
    let at = if ann { format!("@{k}(1)") } else { String::new() };
    let mk = |t: &str, a: String| match sym::pick("ctx", 5) {
        0 => (format!("protocol P {{ record R {{ {a} {t} f; }} }}"), "/types/0/fields/0/type"),
        1 => (format!("protocol P {{ record R {{ {a} {t}? f; }} }}"), "/types/0/fields/0/type/1"),
        2 => (format!("protocol P {{ void m(map<{a} {t}> p); }}"), "/messages/m/request/0/type/values"),
        3 => (format!("protocol P {{ array<{a} {t}> m(); }}"), "/messages/m/response/items"),
        _ => (format!("schema {a} {t};"), ""),
    };
    let (src, p) = mk(n, at);
    let out = must(src, "a logical type is rejected");
    sym::reach("accepted");
    let mut e = json!({"type": b, "logicalType": l});
    if ann { e[&k] = json!(1); }
    check(out.pointer(p) == Some(&e), "a built-in logical type is emitted with another base, name or attributes");
}
/// Parameters of any JSON value are kept as they are, or the annotation is an error.
pub fn logical_parameters() {
    let b = sym::one_of("base", &["int", "long", "string", "bytes", "float", "fixed"]);
    let l = sym::one_of("logical", &["date", "timestamp-micros", "uuid", "decimal", "duration", "custom"]);
    let d = sym::byte("d", b'0', b'9');
    let w = lower("w", 1);
    let n = |k: &str| -> Option<(String, Value)> { match sym::pick(k, 11) {
        0 => None,
        1 => Some((format!("\"{w}\""), st(&w))),
        2 => Some(("\"3\"".into(), st("3"))),
        3 => Some((format!("-{}", d as char), json!(-((d - b'0') as i64)))),
        4 => Some((format!("{}.5", 3), json!(3.5))),
        5 => Some(("4294967295".into(), json!(4294967295u64))),
        6 => Some(("4294967296".into(), json!(4294967296u64))),
        7 => Some((format!("[{}]", d as char), json!([d - b'0']))),
        8 => Some(("2.25".into(), json!(2.25))),
        9 => Some(("12.9".into(), json!(12.9))),
        _ => Some(("null".into(), Value::Null)),
    } };
    let (p, s) = (n("p"), n("s"));
    sym::assume(p.is_some() || s.is_some());
    let mut e = json!({"type": b, "logicalType": l});
    let mut ann = format!("@logicalType(\"{l}\") ");
    if let Some((t, v)) = p { ann += &format!("@precision({t}) "); e["precision"] = v }
    if let Some((t, v)) = s { ann += &format!("@scale({t}) "); e["scale"] = v }
    let (src, at) = if b == "fixed" {
        e["name"] = st("F");
        e["size"] = json!(12);
        (format!("protocol P {{ {ann} fixed F(12); }}"), "/types/0")
    } else { (format!("protocol P {{ record R {{ {ann}{b} f; }} }}"), "/types/0/fields/0/type") };
    match idl(src) {
        Ok(out) => {
            sym::reach("accepted");
            let mut o = out.json.pointer(at).cloned().unwrap_or(Value::Null);
            if l == "decimal" && e.get("scale").is_none() && o.get("scale") == Some(&json!(0)) { o.as_object_mut().unwrap().remove("scale"); }
            check(o == e, "a logical type annotation loses or changes a parameter");
        }
        Err(e) => { sym::note(&format!("{e:?}")); check(l == "decimal", "a logical type annotation with unusual parameters is rejected") }
    }
}
