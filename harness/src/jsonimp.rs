//! C14: what an imported .avsc or .avpr file declares is emitted unchanged.
use super::{canon::Canon, sym, util::*};
use serde_json::{json, Value};

/// Import `doc` (a schema or protocol) into a protocol of namespace `pns`.
fn import(doc: &Value, avpr: bool, pns: &str) -> miette::Result<avdl::IdlOutput> {
    let name = if avpr { "d.avpr" } else { "d.avsc" };
    write(name, &doc.to_string());
    let pre = if pns.is_empty() { String::new() } else { format!("@namespace(\"{pns}\") ") };
    idl(format!("{pre}protocol P {{ import {} \"{name}\"; }}", if avpr { "protocol" } else { "schema" }))
}
fn unchanged(doc: &Value, avpr: bool, pns: &str) {
    let want = if avpr { Canon::of_protocol(doc) } else { Canon::of_schema(doc) };
    match import(doc, avpr, pns) {
        Ok(o) => { sym::reach("accepted"); Canon::of_protocol(&o.json).same(&want) }
        Err(e) => { sym::note(&format!("{e:?}")); check(false, "a valid imported file is rejected") }
    }
}
/// a definition's name and namespace keys
fn named(d: &mut Value, n: &str, ns: &[&str]) {
    match sym::pick("name", 5) {
        0 => d["name"] = st(n),
        1 => { d["name"] = st(n); d["namespace"] = st("") }
        2 => { d["name"] = st(n); d["namespace"] = st(ns[0]) }
        3 => d["name"] = st(&format!("{}.{n}", ns[1])),
        _ => { d["name"] = st(&format!("{}.{n}", ns[1])); d["namespace"] = st(ns[1]) }
    }
}
fn leaf(kind: usize) -> Value {
    match kind { 0 => json!({"type": "enum", "symbols": ["A"]}), 1 => json!({"type": "fixed", "size": 3}), _ => json!({"type": "record", "fields": []}) }
}
/// names: outer type, type nested in it, reference to it, in any namespace configuration
pub fn json_names() {
    let (a, b) = (word("a", 1), word("b", 1));
    let ns = [&a[..], &b[..]];
    let mut inner = leaf(sym::pick("kind", 3));
    named(&mut inner, "In", &ns);
    let inner_type = match sym::pick("wrap", 3) { 0 => inner.clone(), 1 => json!({"type": "array", "items": inner}), _ => json!(["null", {"type": "map", "values": inner}]) };
    let mut outer = json!({"type": "record", "fields": [{"name": "f", "type": inner_type}]});
    named(&mut outer, "Out", &ns);
    // a reference by full name after the definition
    let avpr = sym::flag("avpr");
    let dns = if avpr { sym::one_of("dns", &["", &a, "z"]) } else { "" };
    let space = |v: &Value, ns: &str| -> String {
        let n = v["name"].as_str().unwrap();
        match n.rsplit_once('.') { Some(x) => x.0.to_string(), None => v.get("namespace").map_or(ns, |x| x.as_str().unwrap()).to_string() }
    };
    let ons = space(&outer, dns);
    let ins = space(&inner, &ons);
    let r = if ins.is_empty() { "In".to_string() } else { format!("{ins}.In") };
    let r = if ins == ons && sym::flag("short") { "In".to_string() } else { r };
    // a null-namespace type cannot be named from a namespace unambiguously: json_null_reference
    if ons.is_empty() || !ins.is_empty() { outer["fields"].as_array_mut().unwrap().push(json!({"name": "g", "type": r})); }
    outer["fields"].as_array_mut().unwrap().push(json!({"name": "h", "type": ["null", if ons.is_empty() { "Out".to_string() } else { format!("{ons}.Out") }]}));
    let doc = if avpr { let mut d = json!({"protocol": "D", "types": [outer], "messages": {}}); if !dns.is_empty() || sym::flag("empty") { d["namespace"] = st(dns) } d } else { outer };
    unchanged(&doc, avpr, sym::one_of("pns", &["", &a, "y"]));
}
fn arbitrary() -> Value {
    match sym::pick("value", 9) {
        0 => st(&lower("s", 2)), 1 => Value::Null, 2 => json!(true), 3 => json!(sym::byte("n", 0, 9)), 4 => json!([lower("s", 1), {"x": 1}]),
        5 => json!({"k": [null, lower("s", 1)]}), 6 => json!(-1.5), 7 => json!(9223372036854775807i64), _ => json!("\u{e9}\"\\\n"),
    }
}
fn schema(depth: usize) -> Value {
    match sym::pick("schema", if depth == 0 { 4 } else { 7 }) {
        0 => st(sym::one_of("prim", &["null", "boolean", "int", "long", "float", "double", "bytes", "string"])),
        1 => st("E"),
        2 => { let p = sym::one_of("prim", &["int", "long", "string", "bytes", "boolean"]); json!({"type": p}) }
        3 => { let mut v = json!({"type": sym::one_of("prim", &["int", "double", "null"])}); v[&format!("{}x", lower("k", 1))] = arbitrary(); v }
        4 => json!({"type": "array", "items": schema(depth - 1)}),
        5 => { let mut v = json!({"type": "map", "values": schema(depth - 1)}); v["mk"] = arbitrary(); v }
        _ => json!(["null", {"type": "array", "items": schema(depth - 1), "ak": 1}, "E"]),
    }
}
/// field types of depth 2
pub fn json_types() {
    let t = schema(2);
    let doc = json!({"type": "record", "name": "R", "namespace": "n", "fields": [{"name": "e", "type": {"type": "enum", "name": "E", "symbols": []}}, {"name": "f", "type": t}, {"name": "g", "type": "int"}]});
    unchanged(&doc, false, sym::one_of("pns", &["", "n"]));
}
/// logical types on any base with any parameters
pub fn json_logical() {
    let d = || json!(sym::byte("n", 0, 9));
    let base = sym::one_of("base", &["int", "long", "string", "bytes", "double", "null"]);
    let name = sym::one_of("name", &["date", "time-millis", "time-micros", "timestamp-millis", "timestamp-micros", "local-timestamp-millis", "local-timestamp-micros", "uuid", "decimal", "other"]);
    let mut t = json!({"type": base, "logicalType": name});
    let num = |n: usize| match n { 1 => Some(d()), 2 => Some(json!("2")), 3 => Some(json!(-1)), 4 => Some(json!(2.5)), 5 => Some(json!(4294967296i64)), 6 => Some(json!(2.25)), _ => None };
    let (p, s) = (num(sym::pick("p", 7)), num(sym::pick("s", 7)));
    if name == "decimal" && base == "bytes" { sym::assume(p != Some(json!(0))) }
    if let Some(p) = p { t["precision"] = p }
    if let Some(s) = s { t["scale"] = s }
    if sym::flag("extra") { t["x"] = arbitrary() }
    let t = if sym::flag("deep") { json!(["null", {"type": "array", "items": t}]) } else { t };
    unchanged(&json!({"type": "record", "name": "R", "fields": [{"name": "f", "type": t}]}), false, "");
}
/// every attribute of definitions and fields
pub fn json_attrs() {
    let s = || lower("s", 2);
    let mut d = leaf(sym::pick("kind", 3));
    d["name"] = st("R");
    if sym::flag("ns") { d["namespace"] = st("n") }
    match sym::pick("doc", 3) { 0 => {} 1 => d["doc"] = st(""), _ => d["doc"] = st(&s()) }
    match sym::pick("aliases", 3) { 0 => d["aliases"] = json!([format!("q{}", s()), format!("n.q{}", s()), "other.Y"]), 1 => d["aliases"] = json!([]), _ => {} }
    match d["type"].as_str().unwrap() {
        "enum" => { d["symbols"] = json!([format!("A{}", s()), "B"]); if sym::flag("default") { d["default"] = st("B") } }
        "fixed" => { d["size"] = json!(sym::one_of("size", &[0u64, 1, 65536, 2147483647, 4294967295])) }
        _ => {
            if sym::flag("error") { d["type"] = st("error") }
            let mut f = json!({"name": format!("f{}", s()), "type": "string"});
            match sym::pick("fdoc", 3) { 0 => {} 1 => f["doc"] = st(""), _ => f["doc"] = st(&s()) }
            match sym::pick("fdef", 3) { 0 => {} 1 => f["default"] = st(""), _ => f["default"] = st(&s()) }
            if sym::flag("order") { f["order"] = st(sym::one_of("o", &["ascending", "descending", "ignore"])) }
            if sym::flag("faliases") { f["aliases"] = json!([s(), "b"]) }
            d["fields"] = json!([{"name": "a", "type": ["null", "int"], "default": null}, f]);
        }
    }
    if sym::flag("prop") { d[&format!("p{}", lower("k", 1))] = arbitrary() }
    unchanged(&d, false, sym::one_of("pns", &["", "n"]));
}
pub fn json_field_props() {
    let t = sym::pick("t", 3);
    let mut f = json!({"name": "f", "type": (["int", "string", "R"][t])});
    // a field has no attributes of its own but its name, type, doc, default, order and aliases
    let key = match sym::pick("key", 12) { 0 => format!("p{}", lower("k", 1)), i => ["namespace", "symbols", "size", "items", "values", "fields", "precision", "scale", "protocol", "errors", "one-way"][i - 1].to_string() };
    f[&key] = arbitrary();
    if sym::flag("two") { f["logicalType"] = arbitrary() }
    if t < 2 && sym::flag("default") { f["default"] = if t == 0 { json!(sym::one_of("d", &[0, -1, 2147483647])) } else { st(&lower("d", 1)) } }
    unchanged(&json!({"type": "record", "name": "R", "fields": [{"name": "x", "type": "long"}, f]}), false, "");
}
/// types with one simple name in two namespaces, in one imported file or in two
pub fn json_twins() {
    let (a, b) = (word("a", 1), word("b", 1));
    let ns = ["", &a[..], &b[..], "z"];
    let (n1, n2) = (ns[sym::pick("n1", 4)], ns[sym::pick("n2", 4)]);
    let mk = |n: &str, k: usize| { let mut d = leaf(k); d["name"] = st("Tw"); if !n.is_empty() { d["namespace"] = st(n) } d["p"] = json!(k); d };
    let k = sym::pick("kinds", 2);
    let (d1, d2) = (mk(n1, k), mk(n2, 2));
    let doc = json!({"protocol": "D", "types": [d1, d2], "messages": {}});
    let form = sym::pick("form", 4);
    let src = match form {
        0 => { write("d.avpr", &doc.to_string()); "import protocol \"d.avpr\";".to_string() }
        1 => { write("1.avsc", &d1.to_string()); write("2.avsc", &d2.to_string()); "import schema \"1.avsc\"; import schema \"2.avsc\";".to_string() }
        2 => { write("d.avpr", &json!({"protocol": "D", "types": [d1], "messages": {}}).to_string()); write("2.avsc", &d2.to_string()); "import protocol \"d.avpr\"; import schema \"2.avsc\";".to_string() }
        _ => { write("d.avsc", &json!([d1, d2]).to_string()); "import schema \"d.avsc\";".to_string() }
    };
    let r = idl(format!("protocol P {{ {src} }}"));
    // a duplicate is dropped or an error: C08
    sym::assume(n1 != n2);
    match r {
        Ok(o) => { sym::reach("accepted"); Canon::of_protocol(&o.json).same(&Canon::of_protocol(&doc)) }
        Err(_) => check(false, "two imported types of one name in different namespaces are rejected"),
    }
}
/// messages of an imported protocol
pub fn json_messages() {
    let s = lower("s", 1);
    let t = |n: &str| match sym::pick(n, 5) { 0 => st("int"), 1 => st("R"), 2 => st("n.X"), 3 => json!(["null", "R"]), _ => json!({"type": "array", "items": {"type": "string", "k": s}}) };
    let mut m = json!({"request": []});
    for i in 0..sym::pick("params", 3) {
        let mut p = json!({"name": format!("p{i}"), "type": if i == 0 { t("t") } else { st(sym::one_of("u", &["R", "string"])) }});
        if i == 1 { match sym::pick("pd", 3) { 0 => {} 1 => p["doc"] = st(""), _ => p["doc"] = st(&s) } }
        else if sym::flag("pdef") { p = json!({"name": "p0", "type": "string", "default": s, "pk": [s, null], "aliases": [s], "order": "ignore"}) }
        m["request"].as_array_mut().unwrap().push(p);
    }
    match sym::pick("kind", 5) {
        0 => m["response"] = t("r"),
        1 => { m["response"] = t("r"); m["errors"] = json!(["X"]) }
        2 => { m["response"] = st("null"); m["one-way"] = json!(true) }
        3 => { m["response"] = st("null"); m["one-way"] = json!(false) }
        _ => { m["response"] = st("null"); m["errors"] = json!(["n.X", "Y"]) }
    }
    match sym::pick("doc", 3) { 0 => {} 1 => m["doc"] = st(""), _ => m["doc"] = st(&s) }
    if sym::flag("prop") { m[&format!("mk{s}")] = json!({"x": [s]}) }
    let doc = json!({"protocol": "D", "namespace": "n", "doc": "dd", "types": [{"type": "record", "name": "R", "fields": []}, {"type": "error", "name": "X", "fields": [{"name": "s", "type": "string"}]}, {"type": "error", "name": "Y", "fields": []}], "messages": {"m": m, "other": {"request": [], "response": "R"}}});
    unchanged(&doc, true, sym::one_of("pns", &["", "n", "y"]));
}
/// named types defined inside messages: referred to by other messages and by the importing protocol
pub fn json_inline_messages() {
    let w = word("w", 1);
    let mut d = match sym::pick("kind", 4) { 0 => json!({"type": "enum", "symbols": ["A"]}), 1 => json!({"type": "fixed", "size": 3}), 2 => json!({"type": "error", "fields": [{"name": "g", "type": {"type": "enum", "name": "In", "symbols": []}}]}), _ => json!({"type": "record", "fields": [{"name": "s", "type": ["null", "string"]}]}) };
    d["name"] = st(&w);
    let mut fulls = w.clone();
    match sym::pick("ns", 4) { 0 => {} 1 => d["namespace"] = st("a"), 2 => d["namespace"] = st("b"), _ => d["name"] = st(&format!("b.{w}")) }
    let ns = d["name"].as_str().unwrap().strip_suffix(&format!(".{w}")).map(str::to_string).or(d.get("namespace").map(|n| n.as_str().unwrap().to_string())).unwrap_or("a".into());
    fulls = format!("{ns}.{fulls}");
    let wrap = |x: Value| match sym::pick("wrap", 3) { 0 => x, 1 => json!({"type": "array", "items": x}), _ => json!(["null", {"type": "map", "values": x}]) };
    let mut m = json!({"request": [{"name": "p", "type": "int"}], "response": "null"});
    match sym::pick("at", 4) {
        0 => m["request"] = json!([{"name": "p", "type": wrap(d.clone())}, {"name": "q", "type": fulls}]),
        1 => m["request"] = json!([{"name": "p", "type": "int"}, {"name": "q", "type": wrap(d.clone())}]),
        2 => m["response"] = wrap(d.clone()),
        _ => m["errors"] = json!([d]),
    }
    let (a, b) = sym::one_of("order", &[("m", "n"), ("n", "m")]);
    let mut ms = json!({});
    ms[a] = m;
    ms[b] = json!({"request": [{"name": "r", "type": fulls}], "response": {"type": "array", "items": fulls}, "errors": [fulls]});
    let doc = json!({"protocol": "D", "namespace": "a", "types": [], "messages": ms});
    if !sym::flag("own") { unchanged(&doc, true, sym::one_of("pns", &["", "a", "y"])); return }
    write("d.avpr", &doc.to_string());
    let (x, y) = (format!("record L {{ {fulls} f; }}"), "import protocol \"d.avpr\";");
    match idl(if sym::flag("late") { format!("@namespace(\"a\") protocol P {{ {x} {y} }}") } else { format!("@namespace(\"a\") protocol P {{ {y} {x} }}") }) {
        Ok(o) => {
            sym::reach("accepted");
            let c = Canon::of_protocol(&o.json);
            c.includes(&Canon::of_protocol(&doc));
            check(c.get("a.L").is_some_and(|l| l["fields"][0]["type"] == st(&fulls) || l["fields"][0]["type"] == st(&format!("@{fulls}"))), "a reference to a type of an imported message means something else");
        }
        Err(e) => { sym::note(&format!("{e:?}")); check(false, "a reference to a type that an imported message defines is rejected") }
    }
}
/// texts of imported files: any two pieces in a row, as a property, key, documentation, default
pub fn json_strings() {
    let (mut raw, mut want) = (vec![], vec![]);
    for i in 0..2 {
        match sym::pick("piece", 7) {
            0 => { let c = sym::byte(["c", "d"][i], 0x20, 0x7f); sym::assume(c != b'"' && c != b'\\'); raw.push(c); want.push(c) }
            1 => { let (e, c) = sym::one_of("esc", &[(b'"', b'"'), (b'\\', b'\\'), (b'/', b'/'), (b'n', b'\n'), (b't', b'\t'), (b'b', 8), (b'f', 12), (b'r', 13)]); raw.extend([b'\\', e]); want.push(c) }
            2 => { let c = sym::byte(["h", "g"][i], 0, 7); raw.extend(b"\\u00"); raw.extend([b'0' + c, sym::one_of("x", &[b'0', b'2', b'8', b'a', b'F'])]); let x = raw[raw.len() - 1]; want.push(c * 16 + if x <= b'9' { x - b'0' } else { (x | 32) - b'a' + 10 }) }
            3 => { raw.extend("\\u20Ac\\uD83d\\uDe00".bytes()); want.extend("\u{20ac}\u{1f600}".bytes()) }
            4 => { let t = sym::one_of("two", &["//", "/*", "*/", "/", "*", "#"]); raw.extend(t.bytes()); want.extend(t.bytes()) }
            5 => { let t = sym::one_of("multi", &["\u{e9}", "\u{2028}", "\u{1f600}", "\u{feff}"]); raw.extend(t.bytes()); want.extend(t.bytes()) }
            _ => {}
        }
    }
    let (raw, want) = (sym::text(raw), sym::text(want));
    let at = sym::pick("at", 5);
    let inner = match at {
        0 => format!("\"k\": [1, \"{raw}\"]"),
        1 => format!("\"q\": {{\"{raw}\": 1}}"),
        2 => format!("\"doc\": \"{raw}\""),
        3 => format!("\"aliases\": [\"z{raw}\"]"),
        _ => "\"k\": 0".into(),
    };
    let avpr = sym::flag("avpr");
    let f = format!("{{\"type\": \"record\", \"name\": \"F\", {inner}, \"fields\": [{{\"name\": \"f\", \"type\": \"string\", \"default\": \"{}\"}}]}}", if at == 4 { &raw } else { "" });
    let kind = if avpr { write("d.json", &format!("{{\"protocol\": \"D\", \"types\": [{f}]}}")); "protocol" } else { write("d.json", &f); "schema" };
    let v = must(format!("protocol P {{ import {kind} \"d.json\"; }}"), "a valid imported file is rejected");
    sym::reach("accepted");
    let t = &v["types"][0];
    check(match at {
        0 => t["k"] == json!([1, want]),
        1 => t["q"].as_object().is_some_and(|o| o.len() == 1 && o.iter().all(|(k, v)| *k == want && *v == json!(1))),
        2 => t["doc"] == st(&want),
        3 => t["aliases"][0] == st(&format!("z{want}")) || t["aliases"][0] == st(want.strip_prefix('.').unwrap_or("?")),
        _ => t["fields"][0]["default"] == st(&want),
    }, "a text of an imported file changes");
}
/// numbers of imported files
pub fn json_float() {
    let c = sym::pick("c", 10);
    let (t, short) = sym::one_of("lit", &[("0.#", true), ("-2.5#", true), ("1#.5e3", true), ("1.#e-7", true), ("9.#e300", false), ("123456#.25", true), ("4.9#e-324", false), ("1#e22", true), ("0.000001#", true), ("31.24527019143943#", false), ("1.7976931348622#e308", false), ("2.225073858507201#e-308", false), ("0.1234567890123456#", false), ("900719925474099#.5", false), ("6.02214076123456#e23", false)]);
    let t = t.replace('#', &c.to_string());
    let want: f64 = t.parse().unwrap();
    let (avpr, at) = (sym::flag("avpr"), sym::flag("prop"));
    let f = if at { format!("{{\"type\": \"fixed\", \"name\": \"F\", \"size\": 1, \"k\": {{\"x\": [{t}]}}}}") } else { format!("{{\"type\": \"record\", \"name\": \"F\", \"fields\": [{{\"name\": \"f\", \"type\": \"double\", \"default\": {t}}}]}}") };
    let kind = if avpr { write("d.json", &format!("{{\"protocol\": \"D\", \"types\": [{f}]}}")); "protocol" } else { write("d.json", &f); "schema" };
    let v = must(format!("protocol P {{ import {kind} \"d.json\"; }}"), "a valid imported file is rejected");
    sym::reach("accepted");
    let got = if at { &v["types"][0]["k"]["x"][0] } else { &v["types"][0]["fields"][0]["default"] };
    let Some(g) = got.as_f64() else { check(false, "an imported number is lost"); return };
    // the number as printed
    let g2: f64 = got.to_string().parse().unwrap_or(f64::NAN);
    check(g2.to_bits() == g.to_bits(), "an imported number is printed as another one");
    if short { check(g.to_bits() == want.to_bits(), "an imported number changes") }
    else {
        check(g.to_bits().abs_diff(want.to_bits()) <= 1, "an imported number changes by more than a unit in the last place");
        check(g.to_bits() == want.to_bits(), "an imported number of 16 or more digits or a large exponent changes in its last place");
    }
}
/// a dotted name with another namespace attribute: the name decides
pub fn json_dotted_namespace() {
    let mut d = leaf(sym::pick("kind", 3));
    let (a, b) = (word("a", 1), word("b", 1));
    d["name"] = st(&format!("{a}.N"));
    d["namespace"] = st(&b);
    match import(&d, false, "") {
        Ok(o) => { sym::reach("accepted"); check(Canon::of_protocol(&o.json).get(&format!("{a}.N")).is_some(), "a namespace attribute overrides the namespace of a dotted name") }
        Err(_) => check(false, "a valid imported file is rejected"),
    }
}
/// a plain name that the enclosing namespace does not define means the null-namespace type
pub fn json_null_reference() {
    let a = if sym::flag("inside") { word("a", 1) } else { String::new() };
    let mut inner = leaf(sym::pick("kind", 3));
    inner["name"] = st("In");
    inner["namespace"] = st("");
    let doc = json!({"type": "record", "name": "Out", "namespace": a, "fields": [{"name": "f", "type": inner}, {"name": "g", "type": "In"}]});
    match import(&doc, false, "") {
        Ok(o) => { sym::reach("accepted"); Canon::of_protocol(&o.json).same(&Canon::of_schema(&doc)) }
        Err(_) => check(false, "a reference to a null-namespace type by its plain name from a namespace is rejected"),
    }
}
/// names that are not Avro names, anywhere in an imported file, are errors; the others are kept
pub fn json_invalid_names() {
    const L: &[u8] = b"AZaz09_.- ";
    let c = sym::text(vec![sym::from_set("c", L), sym::from_set("d", L)]);
    let name = format!("q{c}");
    let valid = c.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_');
    let dotted = !valid && { let b = c.as_bytes(); b[0] == b'.' && (b[1].is_ascii_alphabetic() || b[1] == b'_') };
    let (doc, ok) = match sym::pick("at", 6) {
        0 => (json!({"type": "record", "name": name, "fields": []}), valid || dotted),
        1 => (json!({"type": "record", "name": "R", "fields": [{"name": "a", "type": "int"}, {"name": name, "type": "int"}]}), valid),
        2 => (json!({"type": "enum", "name": "R", "symbols": ["A", name]}), valid),
        3 => (json!({"type": "record", "name": "R", "fields": [{"name": "a", "type": ["null", {"type": "fixed", "name": name, "size": 1}]}]}), valid || dotted),
        4 => (json!({"type": "enum", "name": "R", "symbols": [], "namespace": name}), valid || dotted),
        _ => (json!({"type": "array", "items": {"type": "enum", "name": "R", "symbols": [name]}}), valid),
    };
    let top = doc["type"] != json!("array");
    match import(&doc, false, "") {
        Ok(o) => { sym::reach("accepted"); check(ok, "an imported name that is not an Avro name is accepted"); if top { Canon::of_protocol(&o.json).same(&Canon::of_schema(&doc)) } }
        Err(_) => { sym::reach("rejected"); check(!ok, "a valid imported file is rejected") }
    }
}
