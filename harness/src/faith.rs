//! C25: the emitted protocol is exactly what was declared.
use super::{sym, util::*};
use serde_json::{json, Value};

const PRIM: &[(&str, &str)] = &[("boolean", "boolean"), ("int", "int"), ("long", "long"), ("float", "float"), ("double", "double"), ("bytes", "bytes"), ("string", "string"), ("null", "null")];
const LOGICAL: &[(&str, &str, &str)] = &[("date", "int", "date"), ("time_ms", "int", "time-millis"), ("timestamp_ms", "long", "timestamp-millis"), ("local_timestamp_ms", "long", "local-timestamp-millis"), ("uuid", "string", "uuid")];

/// One arbitrary type: its source text and its expected schema. `En`, `Fx`, `Rc` are declared.
pub fn ty(depth: usize, in_union: bool) -> (String, Value) {
    let n = if depth == 0 { 3 } else if in_union { 5 } else { 7 };
    match sym::pick("type", n) {
        0 => { let (s, j) = sym::one_of("prim", if in_union { &PRIM[..7] } else { PRIM }); (s.into(), st(j)) }
        1 => { let (s, b, l) = sym::one_of("logical", LOGICAL); (s.into(), json!({"type": b, "logicalType": l})) }
        2 => match sym::pick("ref", 4) {
            0 => ("En".into(), st("En")),
            1 => ("Fx".into(), st("Fx")),
            2 => ("Rc".into(), st("Rc")),
            _ => { let d = sym::byte("p", b'1', b'9'); (format!("decimal({},1)", sym::text(vec![d])), json!({"type": "bytes", "logicalType": "decimal", "precision": d - b'0', "scale": 1})) }
        },
        3 => { let (s, j) = ty(depth - 1, false); (format!("array<{s}>"), json!({"type": "array", "items": j})) }
        4 => { let (s, j) = ty(depth - 1, false); (format!("map < {s} >"), json!({"type": "map", "values": j})) }
        5 => { let (s, j) = ty(0, true); (format!("{s}?"), json!(["null", j])) }
        _ => {
            let (s, j) = ty(depth - 1, true);
            match sym::pick("union", 3) {
                0 => (format!("union {{ null, {s} }}"), json!(["null", j])),
                1 => (format!("union{{{s},null}}"), json!([j, "null"])),
                _ => (format!("union {{ {s} }}"), json!([j])),
            }
        }
    }
}

pub fn decls() -> (&'static str, Vec<Value>) {
    ("enum En { X, Y } fixed Fx(3); record Rc { int i; }", vec![
        json!({"type": "enum", "name": "En", "symbols": ["X", "Y"]}),
        json!({"type": "fixed", "name": "Fx", "size": 3}),
        json!({"type": "record", "name": "Rc", "fields": [{"name": "i", "type": "int"}]}),
    ])
}

fn proto(head: &str, name: &str, ns: &str, body: &str) -> String {
    if ns.is_empty() { format!("{head}protocol {name} {{ {body} }}") } else { format!("{head}@namespace(\"{ns}\") protocol {name} {{ {body} }}") }
}
fn expect(name: &str, ns: &str, types: Vec<Value>, messages: Value) -> Value {
    let mut v = json!({"protocol": name, "types": types, "messages": messages});
    if !ns.is_empty() { v["namespace"] = st(ns); }
    v
}

/// Every type expression (up to nesting 2) for a field, with a neighbour on each side.
pub fn faith_field() {
    let (d, mut types) = decls();
    let (s, j) = ty(2, false);
    let n = word("name", 2);
    let (pre, post) = (sym::flag("pre"), sym::flag("post"));
    let mut body = String::new();
    let mut fields = vec![];
    if pre { body.push_str("long f1; "); fields.push(json!({"name": "f1", "type": "long"})); }
    body.push_str(&format!("{s} {n}; "));
    fields.push(json!({"name": n, "type": j}));
    if post { body.push_str("string f2, f3;"); fields.push(json!({"name": "f2", "type": "string"})); fields.push(json!({"name": "f3", "type": "string"})); }
    types.push(json!({"type": "record", "name": "User", "fields": fields}));
    sym::assume(n != "f1" && n != "f2" && n != "f3");
    let out = must(proto("", "Pr", "", &format!("{d} record User {{ {body} }}")), "a well-formed record is rejected");
    sym::reach("accepted");
    check(out == expect("Pr", "", types, json!({})), "the emitted record differs from the declared one");
}

/// Three declarations of arbitrary kinds; names are arbitrary.
pub fn faith_decls() {
    let ns = sym::one_of("ns", &["", "x", "org.example.v1"]);
    let name = word("proto", 3);
    let mut body = String::new();
    let mut types = vec![];
    for i in 0..3 {
        // arbitrary two-character head keeps the three names distinct
        let n = format!("{}{i}", word("name", 1));
        let doc = sym::flag("doc");
        if doc { body.push_str("/** about it */ "); }
        let (s, mut j) = match sym::pick("kind", 4) {
            0 | 1 if i == 2 => ("".to_string(), Value::Null),
            0 => {
                let k = sym::pick("fields", 3);
                let fs: Vec<String> = (0..k).map(|f| format!("{}{f}", word("f", 1))).collect();
                (format!("record {n} {{ {} }} ", fs.iter().map(|f| format!("/** of {f} */ int {f};")).collect::<String>()),
                 json!({"type": "record", "name": n, "fields": fs.iter().map(|f| json!({"name": f, "type": "int", "doc": format!("of {f}")})).collect::<Vec<_>>()}))
            }
            1 => (format!("error {n} {{ string message; }} "), json!({"type": "error", "name": n, "fields": [{"name": "message", "type": "string"}]})),
            2 => {
                let k = sym::pick("symbols", 3);
                let s: Vec<String> = (0..k).map(|f| format!("{}{f}", word("s", 1))).collect();
                let mut j = json!({"type": "enum", "name": n, "symbols": s});
                let mut t = format!("enum {n} {{ {} }} ", s.join(" , "));
                if k == 2 && sym::flag("default") { j["default"] = st(&s[1]); t = format!("{t}= {}; ", s[1]); }
                (t, j)
            }
            _ => { let c = sym::byte("size", b'0', b'9'); (format!("fixed {n}({}); ", sym::text(vec![c])), json!({"type": "fixed", "name": n, "size": c - b'0'})) }
        };
        if s.is_empty() { if doc { body.push_str("record Last {}"); types.push(json!({"type": "record", "name": "Last", "fields": [], "doc": "about it"})); } continue; }
        if doc { j["doc"] = st("about it"); }
        body.push_str(&s);
        types.push(j);
    }
    let out = must(proto("/** the protocol */ ", &name, ns, &body), "well-formed declarations are rejected");
    sym::reach("accepted");
    let mut e = expect(&name, ns, types, json!({}));
    e["doc"] = st("the protocol");
    check(out == e, "the emitted types differ from the declared ones");
}

/// One message of every shape.
pub fn faith_message() {
    let (d, mut types) = decls();
    types.push(json!({"type": "error", "name": "Er", "fields": []}));
    types.push(json!({"type": "error", "name": "Fr", "fields": []}));
    let n = word("name", 2);
    let oneway = sym::flag("oneway");
    let (rt, rj) = if oneway || sym::flag("void") { ("void".to_string(), st("null")) } else { ty(1, false) };
    let k = sym::pick("params", 3);
    let mut ps = vec![];
    let mut pj = vec![];
    for i in 0..k {
        let p = format!("{}{i}", word("param", 1));
        let (t, mut j) = if i == 0 && rt == "void" && !oneway { let (t, j) = ty(1, false); (t, json!({"name": p, "type": j})) } else { ("int".into(), json!({"name": p, "type": "int"})) };
        if i == 1 && sym::flag("pdefault") {
            let c = sym::byte("digit", b'0', b'9');
            j["default"] = json!(c - b'0');
            ps.push(format!("{t} {p} = {}", sym::text(vec![c])));
        } else { ps.push(format!("{t} {p}")); }
        pj.push(j);
    }
    let mut j = json!({"request": pj, "response": rj});
    let tail = if oneway { j["one-way"] = json!(true); " oneway" } else {
        match sym::pick("throws", 3) {
            0 => "",
            1 => { j["errors"] = json!(["Er"]); " throws Er" }
            _ => { j["errors"] = json!(["Fr", "Er"]); " throws Fr, Er" }
        }
    };
    let doc = sym::flag("doc");
    if doc { j["doc"] = st("says"); }
    let src = proto("", "Pr", "", &format!("{d} error Er {{}} error Fr {{}} {}{rt} {n}({}){tail}; void other();", if doc { "/** says */ " } else { "" }, ps.join(", ")));
    sym::assume(n != "other");
    let out = must(src, "a well-formed message is rejected");
    sym::reach("accepted");
    let mut m = serde_json::Map::new();
    m.insert("other".into(), json!({"request": [], "response": "null"}));
    m.insert(n, j);
    check(out == expect("Pr", "", types, Value::Object(m)), "the emitted message differs from the declared one");
}
