//! C26: schema files; C27: what is emitted can be imported again.
use super::{canon::Canon, faith, names, props, sym, util::*};
use serde_json::{json, Value};

/// A named type as it stands in a file of namespace `ns`, `seen` the names already defined.
fn inline(j: &Value, defs: &[Value], ns: &str, outer: &str, seen: &mut Vec<String>) -> Value {
    match j {
        Value::String(s) => match defs.iter().find(|d| d["name"] == **s) {
            None => j.clone(),
            Some(_) if seen.contains(s) => j.clone(),
            Some(d) => { seen.push(s.clone()); let mut d = d.clone(); if ns != outer { d["namespace"] = st(ns) } inline(&d, defs, ns, ns, seen) }
        },
        Value::Array(a) => Value::Array(a.iter().map(|x| inline(x, defs, ns, outer, seen)).collect()),
        Value::Object(o) => {
            let mut o = o.clone();
            for k in ["items", "values"] { if let Some(v) = o.get_mut(k) { *v = inline(v, defs, ns, outer, seen) } }
            for f in o.get_mut("fields").and_then(|f| f.as_array_mut()).into_iter().flatten() { f["type"] = inline(&f["type"], defs, ns, outer, seen) }
            Value::Object(o)
        }
        _ => j.clone(),
    }
}
fn namespace() -> (String, String) {
    match sym::pick("ns", 3) {
        0 => (String::new(), String::new()),
        1 => { let n = word("ns", 1); (format!("namespace {n}; "), n) }
        _ => { let n = word("ns", 1); (format!("namespace a.{n}.b; "), format!("a.{n}.b")) }
    }
}
/// the main schema is any type expression
pub fn schema_main() {
    let (d, defs) = faith::decls();
    let (head, ns) = namespace();
    let (s, j) = faith::ty(2, false);
    let (a, v) = (word("k", 1), word("v", 1));
    // (annotations on named types, and on optional types, mean something else or nothing)
    let plain = j.as_str().is_some_and(|t| defs.iter().any(|d| d["name"] == t)) || s.ends_with('?');
    let annot = !plain && sym::flag("annot");
    let mut want = inline(&j, &defs, &ns, "", &mut vec![]);
    if annot {
        match &mut want {
            Value::Object(o) => { o.insert(a.clone(), st(&v)); }
            // a union takes no attributes
            Value::Array(_) => sym::assume(false),
            t => want = json!({"type": t, a.clone(): v}),
        }
    }
    let src = format!("{head}{}schema {}{s}; {d}", "", if annot { format!("@{a}(\"{v}\") ") } else { String::new() });
    let out = must(src.clone(), "a well-formed schema file is rejected");
    sym::reach("accepted");
    check(out == want, "the emitted schema differs from the declared main schema");
    let Ok(e) = schemata(src) else { check(false, "extraction rejects a well-formed schema file"); return };
    check(e.schemas.len() == 3, "extraction does not give one schema per declared type");
    for (s, d) in e.schemas.iter().zip(&defs) {
        check(d["name"] == s.name && s.schema == inline(&st(&s.name), &defs, &ns, "", &mut vec![]), "an extracted schema differs from the declared type");
    }
}
/// a declaration with everything on it
fn decl(i: usize, others: &[String]) -> (String, String, Value) {
    let n = format!("{}{i}", word("name", 1));
    let al = i == 1 && sym::flag("alias");
    let doc = al || (i == 2 && sym::flag("doc"));
    let (t, mut j) = match if i == 2 { 1 } else { sym::pick("kind", 4) } {
        0 => (format!("fixed {n}(7); "), json!({"type": "fixed", "name": n, "size": 7})),
        1 | 2 if !others.is_empty() => {
            let o = others[others.len() - 1].clone();
            let (t, j, d) = match sym::pick("use", 4) {
                0 => (o.clone(), st(&o), None),
                1 => (format!("union {{ null, {o} }}"), json!(["null", o]), Some("null")),
                2 => (format!("map<array<{o}>>"), json!({"type": "map", "values": {"type": "array", "items": o}}), Some("{}")),
                _ => (format!("@p([1]) array<{o}>"), json!({"type": "array", "items": o, "p": [1]}), None),
            };
            let mut f = json!({"name": "f", "type": j});
            if let Some(d) = d { f["default"] = serde_json::from_str(d).unwrap() }
            (format!("error {n} {{ {t} f{}; /** l */ long @order(\"descending\") @aliases([\"lo\"]) l = -4; }} ", d.map(|d| format!(" = {d}")).unwrap_or_default()),
             json!({"type": "error", "name": n, "fields": [f, {"name": "l", "type": "long", "doc": "l", "order": "descending", "aliases": ["lo"], "default": -4}]}))
        }
        1 | 2 => (format!("record {n} {{ decimal(4, 2) d; date @k(null) t, u = 3; }} "), json!({"type": "record", "name": n, "fields": [{"name": "d", "type": {"type": "bytes", "logicalType": "decimal", "precision": 4, "scale": 2}}, {"name": "t", "type": {"type": "int", "logicalType": "date"}, "k": null}, {"name": "u", "type": {"type": "int", "logicalType": "date"}, "default": 3}]})),
        _ => (format!("enum {n} {{ A, B }} = B; "), json!({"type": "enum", "name": n, "symbols": ["A", "B"], "default": "B"})),
    };
    let mut head = String::new();
    if doc { head += "/** about */ "; j["doc"] = st("about") }
    if al { head += &format!("@aliases([\"z.Old\", \"{n}x\"]) @prop({{\"a\": [true]}}) "); j["aliases"] = json!(["z.Old", format!("{n}x")]); j["prop"] = json!({"a": [true]}) }
    (n, head + &t, j)
}
/// A file of declarations means the same with a `schema` line, without one and as a protocol.
pub fn schema_forms() {
    let (head, ns) = namespace();
    let (mut text, mut names, mut defs) = (String::new(), vec![], vec![]);
    for i in 0..3 {
        let (n, t, j) = decl(i, &names);
        names.push(n);
        text += &t;
        defs.push(j);
    }
    let m = sym::pick("main", 4);
    let src = match m {
        0 => format!("{}protocol P {{ {text} }}", if ns.is_empty() { String::new() } else { format!("@namespace(\"{ns}\") ") }),
        1 => format!("{head}{text}"),
        2 => format!("{head}schema {}; {text}", names[2]),
        _ => format!("{head}schema array<{}>; {text}", names[0]),
    };
    let Ok(e) = schemata(src.clone()) else { check(false, "extraction rejects a well-formed file"); return };
    check(e.schemas.len() == 3, "extraction does not give one schema per declared type");
    for (s, n) in e.schemas.iter().zip(&names) {
        check(s.name == *n && s.schema == inline(&st(n), &defs, &ns, "", &mut vec![]), "an extracted schema differs from the declared type");
    }
    match (idl(src), m) {
        (r, 1) => { sym::reach("rejected"); check(r.is_err(), "a file without protocol and schema is accepted") }
        (Err(_), _) => check(false, "a well-formed file is rejected"),
        (Ok(o), 0) => { sym::reach("accepted"); check(o.json["types"] == Value::Array(defs), "the emitted types differ from the declared ones") }
        (Ok(o), m) => {
            sym::reach("accepted");
            let j = if m == 2 { st(&names[2]) } else { json!({"type": "array", "items": names[0]}) };
            check(o.json == inline(&j, &defs, &ns, "", &mut vec![]), "the emitted schema differs from the declared main schema")
        }
    }
}
/// references to `names` by full name
fn full(j: &Value, names: &[String], ns: &str) -> Value {
    match j {
        Value::String(s) if names.contains(s) => st(&format!("{ns}.{s}")),
        Value::Array(a) => Value::Array(a.iter().map(|x| full(x, names, ns)).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), if matches!(&k[..], "items" | "values") { full(v, names, ns) } else { v.clone() })).collect()),
        _ => j.clone(),
    }
}
/// What is emitted can be imported, and comes out the same.
pub fn round_protocol() {
    let ns = match sym::pick("ns", 3) { 0 => String::new(), 1 => word("ns", 1), _ => format!("a.{}", word("ns", 1)) };
    let (mut text, mut names) = (String::new(), vec![]);
    for i in 0..3 {
        let (n, t, _) = decl(i, &names);
        names.push(n);
        text += &t;
    }
    let n = word("m", 1);
    let ms = match sym::pick("messages", 4) {
        0 => String::new(),
        1 => format!("/** says */ void {n}({} p, int i = 3) throws {};", names[0], names[2]),
        2 => format!("@k(\"v\") array<{}> {n}(union {{ null, {} }} p = null); void other() oneway;", names[1], names[0]),
        _ => format!("date {n}();"),
    };
    let head = if ns.is_empty() { String::new() } else { format!("@namespace(\"{ns}\") ") };
    let one = must(format!("{head}protocol P {{ {text} {ms} }}"), "a well-formed protocol is rejected");
    write("p.avpr", &one.to_string());
    // the importing file has the same namespace, or another: types keep theirs
    let same = sym::flag("same");
    write("m.avdl", &format!("{}protocol P {{ import protocol \"p.avpr\"; }}", if same { &head } else { "" }));
    let Ok(two) = avdl::Idl::new().convert(format!("{}/m.avdl", sym::root())) else { check(false, "an emitted protocol cannot be imported"); return };
    sym::reach("accepted");
    if same || ns.is_empty() { check(two.json == one, "an emitted protocol comes out different when imported") }
    else {
        let mut want = one["types"].clone();
        for t in want.as_array_mut().unwrap() { t["namespace"] = st(&ns) }
        check(two.json["types"] == want, "the types of an emitted protocol come out different when imported");
        let mut ms = one["messages"].clone();
        for m in ms.as_object_mut().unwrap().values_mut() {
            for p in m["request"].as_array_mut().unwrap() { p["type"] = full(&p["type"], &names, &ns) }
            for k in ["response", "errors"] { if let Some(x) = m.get_mut(k) { *x = full(x, &names, &ns) } }
        }
        check(two.json["messages"] == ms, "the messages of an emitted protocol come out different when imported");
    }
}
/// the same for extracted schemas
pub fn round_schemata() {
    let ns = match sym::pick("ns", 3) { 0 => String::new(), 1 => word("ns", 1), _ => format!("a.{}", word("ns", 1)) };
    let (mut text, mut names) = (String::new(), vec![]);
    for i in 0..3 {
        let (n, t, _) = decl(i, &names);
        names.push(n);
        text += &t;
    }
    let Ok(one) = schemata(format!("{}{text}", if ns.is_empty() { String::new() } else { format!("namespace {ns}; ") })) else { check(false, "extraction rejects a well-formed file"); return };
    let mut imports = String::new();
    for s in &one.schemas {
        write(&format!("{}.avsc", s.name), &s.schema.to_string());
        imports += &format!("import schema \"{}.avsc\"; ", s.name);
    }
    let other = sym::flag("other");
    write("m.avdl", &format!("{}{imports}", if other { "namespace elsewhere; " } else { "" }));
    let Ok(two) = avdl::Idl2Schemata::new().extract(format!("{}/m.avdl", sym::root())) else { check(false, "extracted schemas cannot be imported"); return };
    sym::reach("accepted");
    check(two.schemas.len() == 3, "importing extracted schemas loses a type or invents one");
    for s in &one.schemas {
        check(two.schemas.iter().any(|t| t.name == s.name && t.schema == s.schema), "an extracted schema comes out different when imported");
    }
}
/// Whatever an annotation is called: if it is accepted, it survives the round trip, and changes nothing else.
pub fn round_props() {
    let site = sym::one_of("site", &props::SITES[2..21]);
    let key = match sym::pick("key", props::KEYS.len() + 1) { i if i < props::KEYS.len() => props::KEYS[i].to_string(), _ => word("key", 1) };
    let v = match sym::pick("value", 6) {
        0 => format!("\"{}\"", lower("s", 1)), 1 => "7".into(), 2 => "[]".into(), 3 => format!("[\"{}\"]", word("s", 1)),
        4 => sym::one_of("w", &["\"date\"", "\"uuid\"", "\"decimal\"", "\"record\"", "\"int\"", "\"ignore\"", "\"\"", "true", "null", "-1.5"]).into(), _ => "{\"doc\": {\"type\": null}}".into(),
    };
    let Ok(one) = idl(site.0.replace('#', &format!("@{key}({v})"))) else { sym::reach("rejected"); return };
    write("p.avpr", &one.json.to_string());
    write("m.avdl", "protocol P { import protocol \"p.avpr\"; }");
    match avdl::Idl::new().convert(format!("{}/m.avdl", sym::root())) {
        Ok(two) => { sym::reach("accepted"); check(two.json == one.json, "an emitted protocol comes out different when imported") }
        Err(_) => check(false, "an emitted protocol cannot be imported"),
    }
}
/// a namespace of a declaration: as it is written, and the full name
fn scope(tag: &str, name: &str, outer: &str) -> (String, String, String) {
    match sym::pick(tag, 5) {
        0 | 1 => (String::new(), name.into(), names::full(outer, name)),
        2 => { let n = word(tag, 1); (format!("@namespace(\"{n}\") "), name.into(), format!("{n}.{name}")) }
        3 => ("@namespace(\"\") ".into(), name.into(), name.into()),
        _ => { let n = word(tag, 1); (String::new(), format!("{n}.y.{name}"), format!("{n}.y.{name}")) }
    }
}
/// Declarations with namespaces of their own, in the four forms of a file.
pub fn schema_scopes() {
    let ns = match sym::pick("ns", 3) { 0 => String::new(), 1 => word("ns", 1), _ => "a.b".to_string() };
    let kind = sym::pick("kind", 4);
    let (da, dn, df) = scope("d", "Dd", &ns);
    let (ua, un, uf) = scope("u", "Uu", &ns);
    let al = word("al", 1);
    let sp = |f: &str| f.rsplit_once('.').map_or(String::new(), |x| x.0.to_string());
    // what a reference without dots means depends on where it stands; write the full name where it differs
    let from = |at: &str| if names::full(at, "Dd") == df { "Dd".to_string() } else { df.clone() };
    // a name without namespace cannot be written inside another namespace
    sym::assume(df.contains('.') || (sp(&uf).is_empty() && ns.is_empty()));
    sym::assume(uf.contains('.') || ns.is_empty());
    let rt = from(&sp(&uf));
    let doc = sym::flag("doc");
    let al_t = format!("{}@aliases([\"{al}\"]) ", if doc { "/** about */ " } else { "" });
    let (d, mut dj) = match kind {
        0 => (format!("{al_t}{da}enum {dn} {{ A, B }} = A; "), json!({"type": "enum", "name": df, "symbols": ["A", "B"], "default": "A"})),
        1 => (format!("{al_t}{da}fixed {dn}(3); "), json!({"type": "fixed", "name": df, "size": 3})),
        2 => (format!("{al_t}{da}record {dn} {{ int i; Dd? self = null; }} "), json!({"type": "record", "name": df, "fields": [{"name": "i", "type": "int"}, {"name": "self", "type": ["null", df], "default": null}]})),
        _ => (format!("{al_t}{da}error {dn} {{ array<Dd> l; }} "), json!({"type": "error", "name": df, "fields": [{"name": "l", "type": {"type": "array", "items": df}}]})),
    };
    dj["aliases"] = json!([al]);
    if doc { dj["doc"] = st("about") }
    let u = format!("{ua}record {un} {{ {rt} f; map<{rt}> g; }} ");
    let uj = json!({"type": "record", "name": uf, "fields": [{"name": "f", "type": df}, {"name": "g", "type": {"type": "map", "values": df}}]});
    let text = if sym::flag("swap") { format!("{u}{d}") } else { format!("{d}{u}") };
    let (nsd, nsp) = if ns.is_empty() { (String::new(), String::new()) } else { (format!("namespace {ns}; "), format!("@namespace(\"{ns}\") ")) };
    let main = if names::full(&ns, "Uu") == uf { "Uu".to_string() } else { uf.clone() };
    let m = sym::pick("form", 4);
    let src = match m {
        0 => format!("{nsp}protocol P {{ {text} }}"),
        1 => format!("{nsd}{text}"),
        2 => format!("{nsd}schema {main}; {text}"),
        _ => format!("{nsd}schema array<{main}>; {text}"),
    };
    // the declarations an Avro reader must find
    let both = json!([dj, uj]);
    let want = Canon::of_protocol(&json!({"types": both, "messages": {}}));
    let just = Canon::of_protocol(&json!({"types": [dj], "messages": {}}));
    let Ok(e) = schemata(src.clone()) else { check(false, "extraction rejects a well-formed file"); return };
    check(e.schemas.len() == 2, "extraction does not give one schema per declared type");
    for s in &e.schemas {
        check(s.name == "Uu" || s.name == "Dd", "an extracted schema has another name");
        Canon::of_schema(&s.schema).same(if s.name == "Uu" { &want } else { &just });
    }
    match (idl(src), m) {
        (r, 1) => { sym::reach("rejected"); check(r.is_err(), "a file without protocol and schema is accepted") }
        (Err(_), _) => check(false, "a well-formed file is rejected"),
        (Ok(o), 0) => { sym::reach("accepted"); Canon::of_protocol(&o.json).same(&want) }
        (Ok(o), _) => {
            sym::reach("accepted");
            Canon::of_schema(&o.json).same(&want);
            check(m == 2 || (o.json["type"] == "array" && o.json["items"]["type"] == "record"), "the emitted schema differs from the declared main schema")
        }
    }
}

/// a file of any form that imports a file of any form
pub fn schema_imports() {
    let w = word("w", 1);
    let ns = ["", &w, "y.z"];
    let (mn, an) = (ns[sym::pick("mns", 3)], ns[sym::pick("ans", 3)]);
    // the null namespace cannot be named from elsewhere
    sym::assume(!an.is_empty() || mn.is_empty());
    let q = |n: &str, x: &str| if n.is_empty() { x.to_string() } else { format!("{n}.{x}") };
    let pre = |n: &str| if n.is_empty() { String::new() } else { format!("@namespace(\"{n}\") ") };
    let head = |n: &str| if n.is_empty() { String::new() } else { format!("namespace {n}; ") };
    let b = word("b", 1);
    let decls = format!("/** d */ record A {{ {b}? s; array<Sub> t = []; }} fixed {b}(7); @k(1) enum Sub {{ X }} ");
    let im = match sym::pick("kind", 5) {
        0 => { write("sub/a.avdl", &format!("{}protocol PA {{ {decls} }}", pre(an))); "idl \"sub/a.avdl\"" }
        1 => { write("sub/a.avdl", &format!("{}schema A; {decls}", head(an))); "idl \"sub/a.avdl\"" }
        2 => { write("sub/a.avdl", &format!("{}{decls}", head(an))); "idl \"sub/a.avdl\"" }
        k => {
            let a = json!({"type": "record", "name": "A", "doc": "d", "fields": [{"name": "s", "type": ["null", {"type": "fixed", "name": b, "size": 7}]}, {"name": "t", "type": {"type": "array", "items": {"type": "enum", "name": "Sub", "symbols": ["X"], "k": 1}}, "default": []}]});
            if k == 3 { write("sub/a.avpr", &json!({"protocol": "PA", "namespace": an, "types": [a], "messages": {}}).to_string()); "protocol \"sub/a.avpr\"" }
            else { let mut a = a; if !an.is_empty() { a["namespace"] = st(an) } write("sub/a.avsc", &a.to_string()); "schema \"sub/a.avsc\"" }
        }
    };
    let (fa, fs, fl) = (q(an, "A"), q(an, "Sub"), q(mn, "L"));
    let l = format!("record L {{ {fs}? g; {fa} f; }} ");
    let (t, want) = match sym::pick("main", 4) {
        0 => (fa.clone(), json!(format!("@{fa}"))),
        1 => (format!("array<{fa}>"), json!({"type": "array", "items": format!("@{fa}")})),
        2 => ("L".to_string(), json!(format!("@{fl}"))),
        _ => (format!("union {{ {fs}, {fa}, L }}"), json!([format!("@{fs}"), format!("@{fa}"), format!("@{fl}")])),
    };
    let body = if sym::flag("first") { format!("import {im}; {l}") } else { format!("{l} import {im}; ") };
    let wanted = [
        (fa.clone(), json!({"type": "record", "doc": "d", "fields": [{"name": "s", "type": ["null", format!("@{}", q(an, &b))]}, {"name": "t", "type": {"type": "array", "items": format!("@{fs}")}, "default": []}]})),
        (fs.clone(), json!({"type": "enum", "symbols": ["X"], "k": 1})), (q(an, &b), json!({"type": "fixed", "size": 7})),
        (fl.clone(), json!({"type": "record", "fields": [{"name": "g", "type": ["null", format!("@{fs}")]}, {"name": "f", "type": format!("@{fa}")}]})),
    ];
    let agree = |c: &Canon, all: bool| {
        check(!c.bad, "the output is not valid Avro");
        for (n, d) in &wanted {
            match c.get(n) { Some(x) => check(x == d, "an imported or own type differs from its declaration"), None => check(!all, "an imported or own type is lost") }
        }
        check(c.defs.iter().all(|d| wanted.iter().any(|w| w.0 == d.0)), "the output contains a definition nobody declared");
    };
    let form = sym::pick("form", 3);
    let src = match form {
        0 => format!("{}schema {t}; {body}", head(mn)),
        1 => format!("{}{body}", head(mn)),
        _ => format!("{}protocol PM {{ {body} record Main {{ {t} f; }} }}", pre(mn)),
    };
    write("m.avdl", &src);
    let path = format!("{}/m.avdl", sym::root());
    let extracted = avdl::Idl2Schemata::new().extract(&path);
    match &extracted {
        Ok(e) => {
            check(e.schemas.len() == if form == 2 { 5 } else { 4 }, "extraction does not give one schema per own and imported type");
            for s in e.schemas.iter().filter(|s| s.name != "Main") {
                let (c, main) = Canon::with_main(&s.schema);
                agree(&c, false);
                check(wanted.iter().any(|w| main == format!("@{}", w.0)), "an extracted schema is another type");
            }
        }
        Err(e) => { sym::note(&format!("{e:?}")); check(false, "extraction rejects a well-formed file with an import") }
    }
    match (avdl::Idl::new().convert(&path), form) {
        (r, 1) => { sym::reach("rejected"); check(r.is_err(), "a file without protocol and schema is accepted") }
        (Err(e), _) => { sym::note(&format!("{e:?}")); check(false, "a well-formed file with an import is rejected") }
        (Ok(o), 0) => {
            sym::reach("accepted");
            let (c, main) = Canon::with_main(&o.json);
            check(main == want, "the emitted schema differs from the declared main schema");
            agree(&c, false);
        }
        (Ok(mut o), _) => {
            // the main type stands last
            let Some(m) = o.json["types"].as_array_mut().and_then(|t| t.pop()) else { check(false, "a type is lost"); return };
            check(m["name"] == "Main", "the types are not in the order of their declarations");
            agree(&Canon::of_protocol(&o.json), true);
        }
    }
}
