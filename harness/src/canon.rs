//! An Avro reader's understanding of schema JSON: every definition under its full name,
//! every reference as a full name, defaults of the format made explicit.
use super::{names::full, util::*};
use serde_json::{json, Value};

pub const PRIMS: &[&str] = &["null", "boolean", "int", "long", "float", "double", "bytes", "string"];
fn space(full: &str) -> &str { full.rsplit_once('.').map_or("", |x| x.0) }
fn name_of(o: &Value, ns: &str) -> String {
    let n = o["name"].as_str().unwrap_or("");
    if n.contains('.') { n.trim_start_matches('.').to_string() } else { full(o.get("namespace").map_or(ns, |x| x.as_str().unwrap_or("?")), n) }
}
#[derive(Default, Debug)]
pub struct Canon { pub defs: Vec<(String, Value)>, names: Vec<String>, pub bad: bool }
impl Canon {
    fn collect(&mut self, v: &Value, ns: &str) {
        match v {
            Value::Array(a) => for x in a { self.collect(x, ns) },
            Value::Object(o) => match o.get("type").and_then(|t| t.as_str()) {
                Some("record" | "error") => {
                    let f = name_of(v, ns);
                    if let Some(a) = v["fields"].as_array() { for x in a { self.collect(&x["type"], space(&f)) } }
                    self.names.push(f);
                }
                Some("enum" | "fixed") => { let f = name_of(v, ns); self.names.push(f) }
                Some("array") => self.collect(&v["items"], ns),
                Some("map") => self.collect(&v["values"], ns),
                _ => {}
            },
            _ => {}
        }
    }
    pub fn schema(&mut self, v: &Value, ns: &str) -> Value {
        match v {
            Value::String(s) => {
                if PRIMS.iter().any(|p| p == s) { return v.clone() }
                let mut f = full(ns, s);
                if !s.contains('.') && !self.names.contains(&f) && self.names.iter().any(|n| n == s) { f = s.clone() }
                if !self.names.contains(&f) { self.bad = true }
                st(&format!("@{f}"))
            }
            Value::Array(a) => Value::Array(a.iter().map(|x| self.schema(x, ns)).collect()),
            Value::Object(o) => {
                let mut d = o.clone();
                let t = o.get("type").and_then(|t| t.as_str()).unwrap_or("");
                match t {
                    "record" | "error" | "enum" | "fixed" => {
                        let f = name_of(v, ns);
                        let inner = space(&f).to_string();
                        d.remove("name");
                        d.remove("namespace");
                        if let Some(a) = o.get("aliases").and_then(|a| a.as_array()) {
                            d.remove("aliases");
                            if !a.is_empty() { d.insert("aliases".into(), Value::Array(a.iter().map(|x| st(&full(&inner, x.as_str().unwrap_or("?")))).collect())); }
                        }
                        if let Some(a) = o.get("fields").and_then(|a| a.as_array()) {
                            let fs = a.iter().map(|x| self.field(x, &inner)).collect();
                            d.insert("fields".into(), Value::Array(fs));
                        }
                        if self.defs.iter().any(|x| x.0 == f) { self.bad = true }
                        self.defs.push((f.clone(), Value::Object(d)));
                        return st(&format!("@{f}"));
                    }
                    "array" => { d.insert("items".into(), self.schema(&o["items"], ns)); }
                    "map" => { d.insert("values".into(), self.schema(&o["values"], ns)); }
                    p if PRIMS.contains(&p) => {
                        if d.len() == 1 { return st(p) }
                        if p == "bytes" && o.get("logicalType") == Some(&st("decimal")) && !o.contains_key("scale") { d.insert("scale".into(), json!(0)); }
                    }
                    _ => self.bad = true,
                }
                Value::Object(d)
            }
            _ => { self.bad = true; Value::Null }
        }
    }
    pub fn field(&mut self, x: &Value, ns: &str) -> Value {
        let mut d = x.as_object().cloned().unwrap_or_default();
        let t = self.schema(&x["type"], ns);
        d.insert("type".into(), t);
        if d.get("order") == Some(&st("ascending")) { d.remove("order"); }
        if d.get("aliases") == Some(&json!([])) { d.remove("aliases"); }
        Value::Object(d)
    }
    pub fn message(&mut self, m: &Value, ns: &str) -> Value {
        let mut d = m.as_object().cloned().unwrap_or_default();
        let req = m["request"].as_array().cloned().unwrap_or_default();
        let req = req.iter().map(|p| self.field(p, ns)).collect();
        d.insert("request".into(), Value::Array(req));
        let r = m.get("response").cloned().unwrap_or(st("null"));
        let r = self.schema(&r, ns);
        d.insert("response".into(), r);
        match m.get("errors").and_then(|e| e.as_array()) {
            Some(e) if !e.is_empty() => { let e = e.iter().map(|x| self.schema(x, ns)).collect(); d.insert("errors".into(), Value::Array(e)); }
            _ => { d.remove("errors"); }
        }
        if d.get("one-way") == Some(&json!(false)) { d.remove("one-way"); }
        Value::Object(d)
    }
    /// a schema document
    pub fn of_schema(v: &Value) -> Canon {
        let mut c = Canon::default();
        c.collect(v, "");
        c.schema(v, "");
        c
    }
    /// ... and what it is itself
    pub fn with_main(v: &Value) -> (Canon, Value) {
        let mut c = Canon::default();
        c.collect(v, "");
        let main = c.schema(v, "");
        (c, main)
    }
    /// a protocol document: definitions, then messages under `!name`
    pub fn of_protocol(v: &Value) -> Canon {
        let mut c = Canon::default();
        let ns = v.get("namespace").and_then(|x| x.as_str()).unwrap_or("").to_string();
        for t in types(v) { c.collect(t, &ns) }
        let ms: Vec<_> = v["messages"].as_object().map(|m| m.iter().map(|(k, m)| (k.clone(), m.clone())).collect()).unwrap_or_default();
        for (_, m) in &ms {
            if let Some(a) = m["request"].as_array() { for p in a { c.collect(&p["type"], &ns) } }
            c.collect(&m["response"], &ns);
            c.collect(&m["errors"], &ns);
        }
        for t in types(v) { c.schema(t, &ns); }
        for (k, m) in &ms { let m = c.message(m, &ns); c.defs.push((format!("!{k}"), m)) }
        c
    }
    pub fn get(&self, f: &str) -> Option<&Value> { self.defs.iter().find(|d| d.0 == f).map(|d| &d.1) }
    /// every definition of `want` is here, unchanged
    pub fn includes(&self, want: &Canon) {
        for (f, d) in &want.defs {
            match self.get(f) {
                None => check(false, if f.starts_with('!') { "a message is lost" } else { "a type is lost or renamed" }),
                Some(x) => check(x == d, if f.starts_with('!') { "a message differs from its declaration" } else { "a type differs from its declaration" }),
            }
        }
    }
    pub fn same(&self, want: &Canon) {
        check(!self.bad, "the output is not valid Avro");
        self.includes(want);
        check(self.defs.len() == want.defs.len(), "the output contains a definition nobody declared");
    }
}
