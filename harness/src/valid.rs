//! C32: what compiles is valid Avro, wherever it came from: an Avro parser's rules over the output.
use super::{canon::PRIMS, names::full, sym, total, util::*};
use serde_json::{json, Value};

fn space(full: &str) -> &str { full.rsplit_once('.').map_or("", |x| x.0) }
fn word_ok(n: &str) -> bool {
    let mut c = n.chars();
    c.next().is_some_and(|c| c.is_alphabetic() || c == '_') && c.all(|c| c.is_alphanumeric() || c == '_')
}
/// The rules of an Avro schema parser, over one document.
#[derive(Default)]
pub struct Rules { defs: Vec<(String, Value)>, checks: Vec<(Value, String, Value)> }
fn rule(c: bool, m: &str) { check(c, m) }
impl Rules {
    fn find(&self, ns: &str, n: &str) -> Option<usize> {
        let f = full(ns, n);
        self.defs.iter().position(|d| d.0 == f).or_else(|| if n.contains('.') { None } else { self.defs.iter().position(|d| d.0 == n) })
    }
    fn schema(&mut self, v: &Value, ns: &str) {
        match v {
            Value::String(s) => rule(PRIMS.contains(&&s[..]) || self.find(ns, s).is_some(), "the output refers to a name before or without its definition"),
            Value::Array(a) => {
                let mut seen: Vec<String> = vec![];
                for x in a {
                    self.schema(x, ns);
                    let k = match x {
                        Value::Array(_) => { rule(false, "the output has a union in a union"); return }
                        Value::String(s) => if PRIMS.contains(&&s[..]) { s.clone() } else { match self.find(ns, s) { Some(i) => format!("@{}", self.defs[i].0), None => return } },
                        o => match o["type"].as_str() {
                            Some("record" | "error" | "enum" | "fixed") => format!("@{}", self.name(o, ns)),
                            Some(t) => t.to_string(),
                            None => return,
                        },
                    };
                    rule(!seen.contains(&k), "the output has a union with a type twice");
                    seen.push(k);
                }
            }
            Value::Object(o) => match o.get("type").and_then(|t| t.as_str()).unwrap_or("") {
                t @ ("record" | "error" | "enum" | "fixed") => {
                    rule(o.get("name").is_some_and(|n| n.is_string()), "the output has a definition without a name");
                    let f = self.name(v, ns);
                    rule(f.split('.').all(word_ok), "the output has a definition with an invalid name");
                    rule(!PRIMS.contains(&&f[..]), "the output defines a type named after a primitive");
                    rule(self.defs.iter().all(|d| d.0 != f), "the output defines a name twice");
                    let inner = space(&f).to_string();
                    rule(o.get("doc").is_none_or(|d| d.is_string()), "the output has documentation that is not a text");
                    strings(o.get("aliases"), "the output has aliases that are not a list of names");
                    self.defs.push((f, v.clone()));
                    match t {
                        "enum" => {
                            let Some(s) = o.get("symbols").and_then(|s| s.as_array()) else { rule(false, "the output has an enum without symbols"); return };
                            for (i, x) in s.iter().enumerate() {
                                rule(x.as_str().is_some_and(word_ok), "the output has an enum with an invalid symbol");
                                rule(!s[..i].contains(x), "the output has an enum with a symbol twice");
                            }
                            if let Some(d) = o.get("default") { rule(s.contains(d), "the output has an enum whose default is not a symbol") }
                        }
                        "fixed" => rule(o.get("size").is_some_and(|s| s.is_u64()), "the output has a fixed type without a size"),
                        _ => {
                            let Some(a) = o.get("fields").and_then(|s| s.as_array()) else { rule(false, "the output has a record without fields"); return };
                            self.fields(a, &inner);
                        }
                    }
                }
                "array" => match o.get("items") { Some(x) => self.schema(x, ns), None => rule(false, "the output has an array without items") },
                "map" => match o.get("values") { Some(x) => self.schema(x, ns), None => rule(false, "the output has a map without values") },
                p => rule(PRIMS.contains(&p), "the output has a schema of no known type"),
            },
            _ => rule(false, "the output has a schema that is not a schema"),
        }
    }
    fn name(&self, o: &Value, ns: &str) -> String {
        let n = o["name"].as_str().unwrap_or("");
        if n.contains('.') { n.trim_start_matches('.').to_string() } else { full(o.get("namespace").map_or(ns, |x| x.as_str().unwrap_or("?")), n) }
    }
    /// fields or parameters
    fn fields(&mut self, a: &[Value], ns: &str) {
        for (i, x) in a.iter().enumerate() {
            rule(x.get("name").and_then(|n| n.as_str()).is_some_and(word_ok), "the output has a field with an invalid name");
            rule(a[..i].iter().all(|y| y["name"] != x["name"]), "the output has a record with a field twice, or a message with a parameter twice");
            match x.get("type") { Some(t) => self.schema(t, ns), None => rule(false, "the output has a field without a type") }
            rule(x.get("order").is_none_or(|o| o == "ascending" || o == "descending" || o == "ignore"), "the output has a field with an unknown order");
            rule(x.get("doc").is_none_or(|d| d.is_string()), "the output has documentation that is not a text");
            strings(x.get("aliases"), "the output has aliases that are not a list of names");
            if let Some(d) = x.get("default") { self.checks.push((x["type"].clone(), ns.to_string(), d.clone())) }
        }
    }
    fn fits(&self, t: &Value, ns: &str, d: &Value, depth: usize) -> bool {
        if depth > 20 { return true }
        let num = |lo: i64, hi: i64| d.as_i64().is_some_and(|n| lo <= n && n <= hi);
        match t {
            Value::Array(a) => a.iter().any(|x| self.fits(x, ns, d, depth + 1)),
            Value::String(s) => match &s[..] {
                "null" => d.is_null(),
                "boolean" => d.is_boolean(),
                "int" => num(i32::MIN as i64, i32::MAX as i64),
                "long" => num(i64::MIN, i64::MAX),
                "float" | "double" => d.is_number() || d == "NaN" || d == "Infinity" || d == "-Infinity",
                "bytes" | "string" => d.is_string(),
                n => match self.find(ns, n) { Some(i) => self.fits(&self.defs[i].1, space(&self.defs[i].0), d, depth + 1), None => true },
            },
            o => match o["type"].as_str().unwrap_or("") {
                "enum" | "fixed" => d.is_string(),
                "array" => d.as_array().is_some_and(|a| a.iter().all(|x| self.fits(&o["items"], ns, x, depth + 1))),
                "map" => d.as_object().is_some_and(|a| a.values().all(|x| self.fits(&o["values"], ns, x, depth + 1))),
                "record" | "error" => {
                    let f = self.name(o, ns);
                    let ns = space(&f).to_string();
                    let none = vec![];
                    d.is_object() && o["fields"].as_array().unwrap_or(&none).iter().all(|x| match d.get(x["name"].as_str().unwrap_or("")).or(x.get("default")) { Some(v) => self.fits(&x["type"], &ns, v, depth + 1), None => false })
                }
                p => self.fits(&st(p), ns, d, depth + 1),
            },
        }
    }
    fn defaults(&self) {
        for (t, ns, d) in &self.checks { rule(self.fits(t, ns, d, 0), "the output has a default that does not conform to its type") }
    }
}
fn strings(v: Option<&Value>, m: &str) { rule(v.is_none_or(|a| a.as_array().is_some_and(|a| a.iter().all(|x| x.is_string()))), m) }
/// the output of a compilation
pub fn valid(v: &Value) {
    let mut r = Rules::default();
    if v.get("protocol").is_some() && v.get("types").is_some() {
        let ns = match v.get("namespace") { None => "", Some(n) => match n.as_str() { Some(n) => n, None => { rule(false, "the output has a namespace that is not a text"); return } } };
        rule(v["protocol"].as_str().is_some_and(word_ok), "the protocol has an invalid name");
        rule(ns.is_empty() || ns.split('.').all(word_ok), "the protocol has an invalid namespace");
        let (Some(ts), Some(ms)) = (v["types"].as_array(), v["messages"].as_object()) else { rule(false, "the output lacks types or messages"); return };
        for t in ts {
            rule(matches!(t["type"].as_str(), Some("record" | "error" | "enum" | "fixed")), "the output declares a type that has no name");
            r.schema(t, ns)
        }
        for m in ms.values() {
            let Some(q) = m.get("request").and_then(|q| q.as_array()) else { rule(false, "the output has a message without parameters"); return };
            r.fields(q, ns);
            match m.get("response") { Some(t) => r.schema(t, ns), None => rule(m.get("one-way") == Some(&json!(true)), "the output has a message without a response") }
            if let Some(e) = m.get("errors") {
                let Some(a) = e.as_array() else { rule(false, "the output has errors that are not a list"); return };
                for (i, x) in a.iter().enumerate() { r.schema(x, ns); rule(!a[..i].contains(x), "the output has a message with an error twice") }
            }
            rule(m.get("one-way").is_none_or(|o| o.is_boolean()), "the output has a one-way flag that is no flag");
            if m.get("one-way") == Some(&json!(true)) { rule(m.get("response").is_none_or(|t| t == "null") && m.get("errors").is_none_or(|e| e == &json!([])), "the output has a one-way message that answers") }
        }
    } else { r.schema(v, "") }
    r.defaults()
}
fn both(src: &str) {
    match idl(src) { Ok(o) => { sym::reach("accepted"); valid(&o.json) } Err(_) => sym::reach("rejected") }
    if let Ok(o) = schemata(src) { for s in &o.schemas { sym::reach("extracted"); rule(word_ok(&s.name), "an extracted schema has an invalid name"); valid(&s.schema) } }
}
fn import(doc: &Value, kind: &str) {
    write("d.json", &doc.to_string());
    both(&format!("{} import {kind} \"d.json\"; record L {{ int i; }} }}", sym::one_of("pns", &["protocol P {", "@namespace(\"a\") protocol P {"])));
}
/// one arbitrary byte in 45 contexts, one edit of a protocol, a schema file, an imported file
pub fn valid_byte() { both(&sym::one_of("template", total::HOLES).replace('#', &sym::text(vec![sym::byte("c", 0, 0x7f)]))) }
pub fn valid_edit() { both(&total::edit(sym::one_of("doc", &[total::DOC, total::DOC2]))) }
pub fn valid_json_edit() {
    let avpr = sym::flag("avpr");
    write("d.json", &total::edit(if avpr { total::AVPR } else { total::AVSC }));
    both(&format!("protocol P {{ import {} \"d.json\"; record L {{ int i; }} }}", if avpr { "protocol" } else { "schema" }));
}
const VALUES: &[&str] = &[
    "null", "true", "0", "-1", "1e300", "18446744073709551615", "\"\"", "\"int\"", "\"nope\"", "\".\"", "[]", "{}", "[[\"int\"]]", "[\"int\", \"int\"]", "[\"null\", \"int\"]", "{\"type\": {\"type\": \"int\"}}", "{\"type\": \"record\"}", "{\"type\": \"record\", \"name\": \"int\", \"fields\": []}",
    "{\"type\": \"enum\", \"name\": \"N\"}", "{\"type\": \"fixed\", \"name\": \"N\", \"size\": -1}", "[{\"type\": \"array\", \"items\": \"int\"}, {\"type\": \"array\", \"items\": \"string\"}]", "{\"type\": \"array\"}", "\"IGNORE\"", "1.5", "\"a.E\"", "[\"A\", \"A\"]", "[1]", "{\"name\": \"x\"}", "[{\"name\": \"f\", \"type\": \"int\"}, {\"name\": \"f\", \"type\": \"int\"}]",
];
/// any of 29 values in place of any member of an imported file, or as a member it did not have
pub fn valid_json_values() {
    let v: Value = serde_json::from_str(sym::one_of("value", VALUES)).unwrap();
    let avpr = sym::flag("avpr");
    let mut doc: Value = serde_json::from_str(if avpr { total::AVPR } else { total::AVSC }).unwrap();
    let mut n = sym::pick("at", 64);
    if sym::flag("new") {
        let key = sym::one_of("key", &["default", "order", "aliases", "symbols", "fields", "size", "doc", "namespace", "one-way", "errors", "response", "request"]);
        sym::assume(total::each(&mut doc, &mut n, &mut |o| match o { Value::Object(o) if !o.contains_key(key) => { o.insert(key.to_string(), v.clone()); true } _ => false }));
    } else if sym::flag("drop") {
        sym::assume(v.is_null());
        sym::assume(total::drop_nth(&mut doc, &mut n));
    } else {
        sym::assume(total::each(&mut doc, &mut n, &mut |o| { *o = v.clone(); true }));
    }
    import(&doc, if avpr { "protocol" } else { "schema" });
}
fn look<'a>(v: &'a Value, f: &dyn Fn(&Value) -> bool) -> Option<&'a Value> {
    if f(v) { return Some(v) }
    match v { Value::Array(a) => a.iter().find_map(|x| look(x, f)), Value::Object(o) => o.values().find_map(|x| look(x, f)), _ => None }
}
const SHAPES: &[&str] = &[
    "null", "true", "0", "1", "16", "2147483648", "4294967295", "4294967296", "18446744073709551615", "-1", "-4", "-4294967297", "1.5", "1e2", "\"\"", "\"4\"", "\"Z\"", "\"int\"", "\"descending\"", "\"sideways\"", "[]", "[\"Z\"]", "[\"Z\", \"Y\"]", "[\"Z\", 1]", "[\"Z\", null]", "[[\"Z\"]]", "{}", "{\"Z\": 1}",
];
/// a member that an imported definition needs, or that has to have a form, with any of 28 values or without one: exactly the well-formed ones are accepted, and emitted as they are
pub fn valid_json_shape() {
    let texts = |v: &Value| v.as_array().is_some_and(|a| a.iter().all(|x| x.is_string()));
    let name = |v: &Value| v.as_str().is_some_and(word_ok);
    // the definition, the path of the member, whether it may be left out
    let (mut d, at, key) = match sym::pick("member", 12) {
        0 => (json!({"type": "fixed", "name": "T", "size": 3}), "", "size"),
        1 => (json!({"type": "fixed", "name": "T", "size": 3}), "", "name"),
        2 => (json!({"type": "enum", "name": "T", "symbols": ["A"]}), "", "symbols"),
        3 => (json!({"type": "enum", "name": "T", "symbols": ["A"]}), "", "aliases"),
        4 => (json!({"type": "error", "name": "T", "fields": []}), "", "fields"),
        5 => (json!({"type": "record", "name": "T", "fields": []}), "", "type"),
        6 => (json!({"type": "record", "name": "T", "fields": [{"name": "f", "type": "int"}]}), "/fields/0", "name"),
        7 => (json!({"type": "record", "name": "T", "fields": [{"name": "f", "type": "int"}]}), "/fields/0", "type"),
        8 => (json!({"type": "record", "name": "T", "fields": [{"name": "f", "type": "int"}]}), "/fields/0", "order"),
        9 => (json!({"type": "record", "name": "T", "fields": [{"name": "f", "type": "int"}]}), "/fields/0", "aliases"),
        10 => (json!({"type": "record", "name": "T", "fields": [{"name": "f", "type": {"type": "array", "items": "int"}}]}), "/fields/0/type", "items"),
        _ => (json!({"type": "record", "name": "T", "fields": [{"name": "f", "type": {"type": "map", "values": "int"}}]}), "/fields/0/type", "values"),
    };
    let v: Option<Value> = match sym::pick("value", SHAPES.len() + 1) { 0 => None, i => Some(serde_json::from_str(SHAPES[i - 1]).unwrap()) };
    // open questions: empty names of aliases, unions without a branch, names of types that are primitive
    let fine = match (key, &v) {
        ("aliases" | "order", None) => true,
        (_, None) => false,
        ("size", Some(v)) => v.as_u64().is_some_and(|n| n <= u32::MAX as u64),
        ("name", Some(v)) => { sym::assume(v != "int"); name(v) }
        ("symbols", Some(v)) => texts(v),
        ("aliases", Some(v)) => texts(v),
        ("fields", Some(v)) => v == &json!([]),
        ("type", Some(v)) if at.is_empty() => { sym::assume(v != "int"); false }
        ("order", Some(v)) => v == "descending",
        (_, Some(v)) => { sym::assume(v != &json!([])); v == "int" }
    };
    let o = d.pointer_mut(at).unwrap().as_object_mut().unwrap();
    match &v { Some(v) => { o.insert(key.into(), v.clone()); } None => { o.remove(key); } }
    let avpr = sym::flag("avpr");
    let doc = match (sym::pick("place", 3), avpr) {
        (0, false) => d.clone(), (0, true) => json!({"protocol": "Q", "types": [d]}),
        (p, _) => {
            let t = if p == 1 { d.clone() } else { json!(["null", {"type": "array", "items": d}]) };
            let r = json!({"type": "record", "name": "Outer", "fields": [{"name": "o", "type": t}]});
            if avpr { json!({"protocol": "Q", "types": [r]}) } else { r }
        }
    };
    write("d.json", &doc.to_string());
    match idl(&format!("protocol P {{ import {} \"d.json\"; record L {{ int i; }} }}", if avpr { "protocol" } else { "schema" })) {
        Ok(out) => {
            sym::reach("accepted");
            rule(fine, "an import is accepted with a malformed member");
            let got = look(&out.json, &|t| t.get("name").is_some_and(|n| *n == d["name"]) && t.get("type") == d.get("type"));
            rule(got.is_some(), "an imported definition is lost");
            let got = got.unwrap();
            let got = got.pointer(at).and_then(|g| g.get(key));
            let want = v.filter(|v| key != "aliases" || v != &json!([]));
            rule(got == want.as_ref(), "an imported member is emitted as another one");
        }
        Err(_) => { sym::reach("rejected"); rule(!fine, "a well-formed import is rejected") }
    }
}
/// a member of a protocol or message read from JSON is replaced by another value or left out
pub fn valid_json_protocol_shape() {
    let p = || json!({"protocol": "Q", "namespace": "q", "types": [{"type": "error", "name": "E", "fields": []}],
        "messages": {"m": {"request": [{"name": "p", "type": "int"}], "response": "string", "errors": ["E"]}, "o": {"request": [], "response": "null", "one-way": true}}});
    let (at, key) = [("", "protocol"), ("", "types"), ("", "messages"), ("/messages", "m"), ("/messages/m", "request"), ("/messages/m", "response"), ("/messages/m", "errors"),
        ("/messages/o", "one-way"), ("/messages/o", "response"), ("/messages/m/request/0", "name"), ("/messages/m/request/0", "type")][sym::pick("member", 11)];
    const EMPTY: &str = r#"{"request": [], "response": "null"}"#;
    let v: Option<Value> = match sym::pick("value", SHAPES.len() + 2) {
        0 => None,
        1 => Some(serde_json::from_str(EMPTY).unwrap()),
        i => Some(serde_json::from_str(SHAPES[i - 2]).unwrap()),
    };
    let message = json!({"request": [], "response": "null"});
    let fine = match (key, &v) {
        ("protocol", Some(v)) => { sym::assume(!v.as_str().is_some_and(|s| !word_ok(s) || s == "int")); v.is_string() }
        ("types", v) => { sym::assume(v.as_ref() != Some(&json!([])) && v.is_some()); false }
        ("messages", Some(v)) => v == &json!({}),
        ("messages" | "m", None) => true,
        ("m", Some(v)) => v == &message,
        ("request", Some(v)) => v == &json!([]),
        ("response", Some(v)) if at == "/messages/m" => { sym::assume(v != &json!([])); v == "int" || v == "null" }
        ("response", Some(v)) => { sym::assume(v != &json!([])); v == "null" }
        ("response", None) => at == "/messages/o",
        ("errors", v) => v.as_ref().is_none_or(|v| v == &json!([])),
        ("one-way", v) => v.as_ref().is_none_or(|v| v.is_boolean()),
        ("name", Some(v)) => { sym::assume(v != "int"); v.as_str().is_some_and(word_ok) }
        (_, Some(v)) => { sym::assume(v != &json!([])); v == "int" }
        (_, None) => false,
    };
    let mut d = p();
    let o = d.pointer_mut(at).unwrap().as_object_mut().unwrap();
    match &v { Some(v) => { o.insert(key.into(), v.clone()); } None => { o.remove(key); } }
    write("d.avpr", &d.to_string());
    match idl("protocol P { import protocol \"d.avpr\"; int last(); }") {
        Ok(out) => {
            sym::reach("accepted");
            rule(fine, "an imported protocol is accepted with a malformed member");
            let n = d["messages"].as_object().map_or(0, |m| m.len());
            rule(out.json["messages"].as_object().is_some_and(|m| m.len() == n + 1), "an imported message is lost");
            if key == "request" || at == "/messages/m/request/0" || (key == "response" && v.is_some()) { rule(out.json.pointer(at) .and_then(|m| m.get(key)) == v.as_ref(), "an imported member is emitted as another one"); }
            if key == "one-way" { rule((out.json["messages"]["o"]["one-way"] == true) == (v == Some(json!(true))), "a message is one-way without being declared so"); }
        }
        Err(_) => { sym::reach("rejected"); rule(!fine, "a well-formed protocol is rejected") }
    }
}
/// two arbitrary bytes in a row, in all contexts
pub fn valid_two() { both(&sym::one_of("template", total::HOLES).replace('#', &sym::text(vec![sym::byte("c", 0, 0x7f), sym::byte("d", 0, 0x7f)]))) }
