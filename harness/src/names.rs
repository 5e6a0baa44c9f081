//! C06/C07/C16/C29: names, namespaces, references and aliases mean what Avro says they mean.
use super::{sym, util::*};
use serde_json::{json, Value};

pub fn full(ns: &str, name: &str) -> String { if name.contains('.') || ns.is_empty() { name.trim_start_matches('.').into() } else { format!("{ns}.{name}") } }
fn space(full: &str) -> &str { full.rsplit_once('.').map_or("", |x| x.0) }
const PRIMS: &[&str] = &["null", "boolean", "int", "long", "float", "double", "bytes", "string"];

/// An Avro reader's view of emitted JSON: full names in definition order, and every
/// reference with the place it occurs.
#[derive(Default)]
pub struct Names { pub defs: Vec<String>, pub refs: Vec<(String, String)>, pub bad: Vec<&'static str> }
impl Names {
    pub fn def(&self, f: &str) -> bool { self.defs.iter().any(|d| d == f) }
    /// `at`: dotted description of the position
    pub fn schema(&mut self, v: &Value, ns: &str, at: &str) {
        match v {
            Value::String(s) => {
                if PRIMS.iter().any(|p| p == s) { return; }
                let mut f = full(ns, s);
                // readers fall back to the null namespace
                if !s.contains('.') && !self.def(&f) && self.def(s) { f = s.clone(); }
                if !self.def(&f) { self.bad.push("a name is used before (or without) a definition of its type"); }
                self.refs.push((at.to_string(), f));
            }
            Value::Array(a) => for (i, x) in a.iter().enumerate() { self.schema(x, ns, &format!("{at}|{i}")) },
            Value::Object(o) => match o.get("type") {
                Some(Value::String(t)) => match t.as_str() {
                    "record" | "error" | "enum" | "fixed" => {
                        let n = o["name"].as_str().unwrap_or("");
                        let f = if n.contains('.') { n.to_string() } else { full(o.get("namespace").map_or(ns, |x| x.as_str().unwrap_or("?")), n) };
                        if self.def(&f) { self.bad.push("a type is defined twice"); }
                        if n.is_empty() { self.bad.push("a type without a name"); }
                        self.defs.push(f.clone());
                        self.refs.push((at.to_string(), f.clone()));
                        if let Some(a) = o.get("fields") {
                            for x in a.as_array().unwrap() { self.schema(&x["type"], space(&f), &format!("{f}/{}", x["name"].as_str().unwrap_or(""))) }
                        }
                    }
                    "array" => self.schema(&o["items"], ns, &format!("{at}[]")),
                    "map" => self.schema(&o["values"], ns, &format!("{at}{{}}")),
                    p => if !PRIMS.contains(&p) { self.bad.push("an unknown schema type") },
                },
                _ => self.bad.push("a schema without a type"),
            },
            _ => self.bad.push("a schema that is not a string, array or object"),
        }
    }
    pub fn protocol(v: &Value) -> Names {
        let mut n = Names::default();
        let ns = v.get("namespace").and_then(|x| x.as_str()).unwrap_or("");
        for t in types(v) { n.schema(t, ns, ""); }
        for (k, m) in v["messages"].as_object().unwrap() {
            for p in m["request"].as_array().unwrap() { n.schema(&p["type"], ns, &format!("@{k}/{}", p["name"].as_str().unwrap_or(""))) }
            n.schema(&m["response"], ns, &format!("@{k}"));
            if let Some(e) = m.get("errors") { for (i, x) in e.as_array().unwrap().iter().enumerate() { n.schema(x, ns, &format!("@{k}!{i}")) } }
        }
        n
    }
    pub fn sound(&self) { for b in &self.bad { check(false, b); } }
    pub fn at(&self, at: &str) -> &str { self.refs.iter().find(|r| r.0 == at).map_or("", |r| &r.1) }
}

/// An arbitrary namespace: none, one or two arbitrary components.
fn ns(name: &str) -> String {
    match sym::pick(name, 3) {
        0 => String::new(),
        1 => word(name, 1),
        _ => format!("{}.b", word(name, 1)),
    }
}
/// A declaration head: annotation, written name, full name. `pns` is the enclosing namespace.
fn head(tag: &str, simple: &str, pns: &str) -> (String, String, String) {
    match sym::pick(tag, 4) {
        0 => (String::new(), simple.into(), full(pns, simple)),
        1 => { let n = ns(tag); (format!("@namespace(\"{n}\") "), simple.into(), full(&n, simple)) }
        2 => { let n = word(tag, 1); (String::new(), format!("{n}.{simple}"), format!("{n}.{simple}")) }
        _ => { let n = word(tag, 1); ("@namespace(\"zz\") ".into(), format!("{n}.b.`{simple}`"), format!("{n}.b.{simple}")) }
    }
}
fn def(kind: &str, ann: &str, name: &str) -> String {
    match kind {
        "enum" => format!("{ann}enum {name} {{ A }} "),
        "fixed" => format!("{ann}fixed {name}(2); "),
        k => format!("{ann}{k} {name} {{ int i; }} "),
    }
}
fn protocol(pns: &str, body: &str) -> String {
    if pns.is_empty() { format!("protocol P {{ {body} }}") } else { format!("@namespace(\"{pns}\") protocol P {{ {body} }}") }
}

/// A reference from a record field to another type: accepted iff it denotes that type, and
/// the emitted name denotes it too.
pub fn ref_field() {
    let pns = ns("pns");
    let (ra, rn, rf) = head("r", "Rr", &pns);
    let (ua, un, uf) = head("u", "Uu", &pns);
    let (rt, target) = match sym::pick("ref", 2) {
        0 => ("Rr".to_string(), full(space(&uf), "Rr")),
        _ => { let n = ns("q"); let f = full(&n, "Rr"); let t = if n.is_empty() { full(space(&uf), "Rr") } else { f.clone() }; (f, t) }
    };
    let kind = sym::one_of("kind", &["record", "enum", "fixed"]);
    let (pre, post, at) = sym::one_of("ctx", &[("", "", ""), ("array<", ">", "[]"), ("union { null, ", "}", "|1")]);
    let (r, u) = (def(kind, &ra, &rn), format!("{ua}record {un} {{ int a; {pre}{rt}{post} f; }} "));
    let src = protocol(&pns, &if sym::flag("forward") { format!("{u}{r}") } else { format!("{r}{u}") });
    match idl(src) {
        Ok(o) => {
            sym::reach("accepted");
            check(target == rf, "a reference to a type that is not declared is accepted");
            let n = Names::protocol(&o.json);
            n.sound();
            check(n.def(&rf) && n.def(&uf) && n.defs.len() == 2, "a declared type is emitted under another full name");
            check(n.at(&format!("{uf}/f{at}")) == rf, "a field's reference denotes another type in the output");
        }
        Err(_) => { sym::reach("rejected"); check(target != rf, "a reference to a declared type is rejected"); }
    }
}
/// A declared name with dots says its namespace, whatever annotation or enclosing namespace there is.
pub fn dotted_declared() {
    let l = || sym::text(vec![sym::byte("c", b'a', b'c')]);
    let path = |n: &str| match sym::pick(n, 3) { 0 => l(), 1 => format!("{}.{}", l(), l()), _ => format!("x{}.{}", l(), l()) };
    let (ann, pns) = match sym::pick("outer", 3) { 0 => (Some(path("ann")), String::new()), 1 => (None, path("pns")), _ => (Some(path("ann")), "x.a".to_string()) };
    let kind = sym::one_of("kind", &["record", "error", "enum", "fixed", "protocol"]);
    let dotted = sym::flag("dotted");
    let (own, name) = if dotted { let p = path("own"); (p.clone(), format!("{p}.Nn")) } else { (ann.clone().unwrap_or(pns.clone()), "Nn".to_string()) };
    let a = ann.map_or(String::new(), |a| format!("@namespace(\"{a}\") "));
    let (src, at) = if kind == "protocol" { sym::assume(pns.is_empty()); (format!("{a}protocol {name} {{ record Rr {{ }} }}"), "Rr") } else { (protocol(&pns, &def(kind, &a, &name)), "Nn") };
    match idl(src) {
        Ok(o) => {
            sym::reach("accepted");
            check(Names::protocol(&o.json).defs == [format!("{own}.{at}")], "a declared type is emitted under another full name");
            if kind == "protocol" { check(o.json["protocol"] == "Nn" && o.json["namespace"] == own, "a protocol is emitted under another full name") }
        }
        Err(_) => check(false, "a declared name is rejected"),
    }
}
/// The same from messages, whose enclosing namespace is the protocol's.
pub fn ref_message() {
    let pns = ns("pns");
    let (ra, rn, rf) = head("r", "Rr", &pns);
    let (rt, target) = match sym::pick("ref", 2) {
        0 => ("Rr".to_string(), full(&pns, "Rr")),
        _ => { let n = word("q", 1); let f = full(&n, "Rr"); (f.clone(), f) }
    };
    let (m, at) = match sym::pick("ctx", 4) {
        0 => (format!("void m({rt} p); "), "@m/p"),
        1 => (format!("map<{rt}> m(); "), "@m{}"),
        2 => (format!("{rt}? m(int i); "), "@m|1"),
        _ => (format!("void m() throws {rt}; "), "@m!0"),
    };
    let r = def("error", &ra, &rn);
    let src = protocol(&pns, &if sym::flag("forward") { format!("{m}{r}") } else { format!("{r}{m}") });
    match idl(src) {
        Ok(o) => {
            sym::reach("accepted");
            check(target == rf, "a message reference to a type that is not declared is accepted");
            let n = Names::protocol(&o.json);
            n.sound();
            check(n.defs.len() == 1 && n.def(&rf), "a declared type is emitted under another full name");
            check(n.at(at) == rf, "a message's reference denotes another type in the output");
        }
        Err(_) => { sym::reach("rejected"); check(target != rf, "a message reference to a declared type is rejected"); }
    }
}
/// Two types with the same simple name: duplicates are rejected, and references pick the right one.
pub fn same_simple_name() {
    let pns = ns("pns");
    let (ra, rn, rf) = head("r", "Rr", &pns);
    let (sa, sn, sf) = head("s", "Rr", &pns);
    let r = def(sym::one_of("k1", &["record", "fixed"]), &ra, &rn);
    let s = def(sym::one_of("k2", &["record", "enum"]), &sa, &sn);
    let q1 = space(&rf) != "" && sym::flag("ref");
    let user = if q1 { format!("@namespace(\"uu\") record Uu {{ {rf} f; {sf} g; }}") } else { String::new() };
    match idl(protocol(&pns, &format!("{r} {s} {user}"))) {
        Ok(o) => {
            sym::reach("accepted");
            check(rf != sf, "two types with the same full name are accepted");
            let n = Names::protocol(&o.json);
            n.sound();
            check(n.def(&rf) && n.def(&sf), "a declared type is emitted under another full name");
            if q1 {
                check(n.at("uu.Uu/f") == rf, "a field's reference denotes another type in the output");
                check(space(&sf).is_empty() || n.at("uu.Uu/g") == sf, "a field's reference denotes another type in the output");
            }
        }
        Err(_) => { sym::reach("rejected"); check(rf == sf || (q1 && space(&sf).is_empty()), "two types with different full names are rejected"); }
    }
}
/// A record's own namespace governs its fields, nested containers and self references.
pub fn nested_scope() {
    let pns = ns("pns");
    let (ua, un, uf) = head("u", "Uu", &pns);
    let sp = space(&uf).to_string();
    let mut decl = format!("{ua}record {un} {{ union {{ null, Uu }} self; map<array<Ee>> deep; Ff? opt; }} ");
    let e = if sp.is_empty() { "@namespace(\"\") enum Ee { A } @namespace(\"\") fixed Ff(1); ".to_string() } else { format!("@namespace(\"{sp}\") enum Ee {{ A }} fixed {sp}.Ff(1); ") };
    decl = if sym::flag("forward") { format!("{decl}{e}") } else { format!("{e}{decl}") };
    let out = must(protocol(&pns, &decl), "references to declared types are rejected");
    sym::reach("accepted");
    let n = Names::protocol(&out);
    n.sound();
    check(n.defs.len() == 3 && n.def(&uf) && n.def(&full(&sp, "Ee")) && n.def(&full(&sp, "Ff")), "a declared type is emitted under another full name");
    check(n.at(&format!("{uf}/self|1")) == uf && n.at(&format!("{uf}/deep{{}}[]")) == full(&sp, "Ee") && n.at(&format!("{uf}/opt|1")) == full(&sp, "Ff"), "a field's reference denotes another type in the output");
}
/// Aliases keep their full names.
pub fn type_aliases() {
    let pns = ns("pns");
    let (ra, rn, rf) = head("r", "Rr", &pns);
    let a1 = word("a", 1);
    let n2 = word("n", 1);
    let a2 = format!("{n2}.{}", sym::one_of("second", &["Xx", "record"]));
    let kind = sym::one_of("kind", &["record", "error", "enum", "fixed"]);
    let out = must(protocol(&pns, &format!("{}", def(kind, &format!("@aliases([\"{a1}\", \"{a2}\"]) {ra}"), &rn))), "aliases are rejected");
    sym::reach("accepted");
    let t = &out["types"][0];
    let al: Vec<String> = t["aliases"].as_array().map(|a| a.iter().map(|x| full(space(&rf), x.as_str().unwrap_or("?"))).collect()).unwrap_or_default();
    check(al.len() == 2 && al[0] == full(space(&rf), &a1) && al[1] == a2, "an alias is emitted under another full name");
}
/// Field aliases are plain names, kept in order; `@order` is emitted unless it is the default.
pub fn field_attrs() {
    let (a, b) = (word("a", 1), word("b", 1));
    let n = sym::pick("aliases", 3);
    let al = match n { 0 => String::new(), 1 => format!("@aliases([\"{a}\"]) "), _ => format!("@aliases([\"{a}\",\"{b}\"]) ") };
    let (o, e) = sym::one_of("order", &[("", None), ("@order(\"ascending\") ", None), ("@order(\"descending\") ", Some("descending")), ("@order(\"ignore\") ", Some("ignore"))]);
    let at = sym::flag("late");
    // of several orders the last one counts
    let again = sym::one_of("again", &["", "@order(\"ignore\") ", "@order(\"descending\") ", "@order(\"ascending\") "]);
    sym::assume(again.is_empty() || !o.is_empty());
    let src = if at { format!("record R {{ long {again}{al}{o}f = 1; string g; }}") } else { format!("record R {{ long {again}{o}{al}f; string g; }}") };
    let r = idl(protocol("", &src));
    if !again.is_empty() && r.is_err() { return }
    let out = r.map(|o| o.json).unwrap_or_default();
    check(!out.is_null(), "field attributes are rejected");
    sym::reach("accepted");
    let f = field(&out, 0, 0);
    let want: Vec<&str> = [&a[..], &b[..]][..n].to_vec();
    check(f.get("aliases").cloned().unwrap_or(json!([])) == json!(want), "field aliases differ from the declared ones");
    check(f.get("order").and_then(|x| x.as_str()).filter(|x| *x != "ascending") == e, "field order differs from the declared one");
    check(field(&out, 0, 1).as_object().unwrap().len() == 2, "field attributes leak to another field");
}
/// Of several @aliases, @order or @namespace annotations on one thing the last one counts.
pub fn attrs_twice() {
    let (a, b) = (word("a", 1), word("b", 1));
    let list = |n: &str| match sym::pick(n, 4) { 0 => (String::new(), vec![]), 1 => (format!("\"{a}\""), vec![&a]), 2 => (format!("\"{b}\""), vec![&b]), _ => (format!("\"{b}\", \"{a}\""), vec![&b, &a]) };
    let between = sym::one_of("between", &["", "@k(1) ", "/** d */ "]);
    let kind = sym::one_of("kind", &["record", "error", "enum", "fixed", "field", "param"]);
    let ((x, y), want) = if sym::flag("space") {
        sym::assume(kind != "field" && kind != "param");
        ((format!("@namespace(\"{a}\") "), format!("@namespace(\"{b}\") ")), None)
    } else {
        let (x, y) = (list("x"), list("y"));
        ((format!("@aliases([{}]) ", x.0), format!("@aliases([{}]) ", y.0)), Some(json!(y.1)))
    };
    let body = match kind { "enum" => " { A }", "fixed" => "(3);", _ => " { }" };
    let src = match kind { "field" => format!("record R {{ int {x}{between}{y}f; }}"), "param" => format!("void m(int {x}{between}{y}f);"), _ => format!("{x}{between}{y}{kind} R{body}") };
    let out = must(protocol("", &src), "a repeated annotation is rejected");
    sym::reach("accepted");
    let o = match kind { "field" => field(&out, 0, 0), "param" => &out["messages"]["m"]["request"][0], _ => &out["types"][0] };
    match want {
        Some(w) => check(o.get("aliases").cloned().unwrap_or(json!([])) == w, "of several lists of aliases another than the last counts"),
        None => check(o["namespace"] == b, "of several namespaces another than the last counts"),
    }
    check(between != "@k(1) " || o["k"] == json!(1), "an annotation between two others is lost");
}
fn valid_name(b: &[u8]) -> bool {
    let mut ok = 1u32;
    for (i, c) in b.iter().enumerate() {
        let letter = (c.is_ascii_alphabetic()) as u32 | (*c == b'_') as u32;
        ok &= letter | ((i > 0) as u32 & c.is_ascii_digit() as u32);
    }
    ok != 0 && !b.is_empty()
}
/// Whatever is accepted as a name is a valid Avro name, in every naming position.
pub fn name_valid() {
    // in back quotes anything may come first; otherwise `q`, with which no keyword starts
    let any = sym::flag("any");
    let mut b = if any { vec![] } else { vec![b'q'] };
    for _ in 0..2 { b.push(sym::from_set("c", b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.")); }
    let n = sym::text(b.clone());
    let tick = any || sym::flag("backticks");
    let w = if tick { format!("`{n}`") } else { n.clone() };
    let (what, src) = match sym::pick("what", 7) {
        0 => ("record", format!("protocol P {{ record {w} {{ }} }}")),
        1 => ("error", format!("protocol P {{ error {w} {{ }} }}")),
        2 => ("enum", format!("protocol P {{ enum {w} {{ A }} }}")),
        3 => ("fixed", format!("protocol P {{ fixed {w}(1); }}")),
        4 => ("field", format!("protocol P {{ record R {{ int {w}; }} }}")),
        5 => ("symbol", format!("protocol P {{ enum E {{ {w} }} }}")),
        _ => ("parameter", format!("protocol P {{ void m(int {w}); }}")),
    };
    // dotted type names carry a namespace; other names must be plain
    if matches!(what, "record" | "error" | "enum" | "fixed") { sym::assume(!b.contains(&b'.')); }
    let v = valid_name(&b);
    match idl(src) {
        Ok(o) => {
            // characters outside the token grammar are skipped with a warning
            if !o.warnings.is_empty() { sym::reach("warned"); check(!v, leak(format!("a valid {what} name raises a warning"))); return; }
            sym::reach("accepted");
            check(v, leak(format!("an invalid {what} name is accepted")));
            let j = &o.json;
            let got = match what {
                "field" => field(j, 0, 0)["name"].as_str(),
                "symbol" => j["types"][0]["symbols"][0].as_str(),
                "parameter" => j["messages"]["m"]["request"][0]["name"].as_str(),
                _ => j["types"][0]["name"].as_str(),
            };
            check(j["types"][0].get("namespace").is_none(), "an undeclared namespace is emitted");
            check(got == Some(&n[..]), "an emitted name differs from the declared one");
        }
        Err(_) => { sym::reach("rejected"); check(!v, leak(format!("a valid {what} name is rejected"))); }
    }
}
/// `@namespace` values: dotted sequences of names, or the empty string.
pub fn namespace_valid() {
    let n = sym::pick("n", 5);
    let b: Vec<u8> = (0..n).map(|_| sym::from_set("c", b"ab.Z_09-$ /")).collect();
    let t = sym::text(b.clone());
    let what = sym::pick("what", 3);
    let src = match what {
        0 => format!("@namespace(\"{t}\") protocol P {{ record R {{}} }}"),
        1 => format!("protocol P {{ @namespace(\"{t}\") record R {{}} }}"),
        _ => format!("protocol P {{ @namespace(\"{t}\") enum R {{ A }} }}"),
    };
    let v = b.is_empty() || b.split(|c| *c == b'.').all(valid_name);
    match idl(src) {
        Ok(o) => {
            sym::reach("accepted");
            check(v, "an invalid namespace is accepted");
            let names = Names::protocol(&o.json);
            check(names.def(&full(&t, "R")), "a type is emitted under another namespace than the declared one");
        }
        Err(_) => { sym::reach("rejected"); check(!v, "a valid namespace is rejected"); }
    }
}
/// Type names must not be primitive names, whatever the quoting.
pub fn reserved_type_names() {
    let n = sym::one_of("n", PRIMS);
    let kind = sym::one_of("kind", &["record", "error", "enum", "fixed"]);
    let ns = sym::flag("ns");
    let r = idl(format!("protocol P {{ {} }}", def(kind, if ns { "@namespace(\"x\") " } else { "" }, &format!("`{n}`"))));
    sym::reach(if r.is_ok() { "accepted" } else { "rejected" });
    check(r.is_err(), "a type named like a primitive is accepted");
}
/// A name that differs from a reserved one in any one character, its end or its case is an ordinary one.
pub fn near_reserved_names() {
    const ALL: &[&str] = &["null", "boolean", "int", "long", "float", "double", "bytes", "string", "date", "time_ms", "timestamp_ms", "local_timestamp_ms", "uuid", "decimal", "void", "array", "duration"];
    let w = sym::one_of("word", ALL);
    let n = match sym::pick("change", 5) {
        4 => w.to_string(),
        0 => { let at = sym::pick("at", 18); sym::assume(at < w.len()); let c = sym::byte("c", b'A', b'z'); sym::assume(c <= b'Z' || c >= b'a' || c == b'_'); let mut b = w.as_bytes().to_vec(); b[at] = c; sym::text(b) }
        1 => { let c = sym::byte("c", b'0', b'z'); sym::assume(c <= b'9' || (b'A'..=b'Z').contains(&c) || c >= b'a' || c == b'_'); sym::text([w.as_bytes(), &[c]].concat()) }
        2 => w.to_uppercase(),
        _ => w[..w.len() - 1].to_string(),
    };
    let kind = sym::one_of("kind", &["record", "error", "enum", "fixed"]);
    // (a field of the type would read the primitive instead)
    let r = idl(format!("protocol P {{ {} }}", match sym::pick("form", 3) { 0 => def(kind, "", &format!("`{n}`")), 1 => def(kind, "@namespace(\"x\") ", &format!("`{n}`")), _ => def(kind, "", &format!("x.y.{n}")) }));
    let reserved = ALL[..13].contains(&&n[..]);
    match r {
        Ok(o) => {
            sym::reach("accepted");
            check(!reserved, "a type named like a built-in one is accepted");
            check(o.json["types"][0]["name"] == n.as_str(), "a type is emitted under another name")
        }
        Err(_) => { sym::reach("rejected"); check(reserved, "an ordinary name is rejected for a type") }
    }
}
