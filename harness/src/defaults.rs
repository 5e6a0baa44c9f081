//! C11: default values conform to their type; `T?` puts the default's branch first.
use super::{sym, util::*};
use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq)]
pub enum T { Null, Bool, Int, Long, Float, Double, Bytes, Str, Enum, Fixed, Rec, ArrInt, MapStr, ArrRec, UNullInt, UIntNull, UStrArr, UEnNull, Date, TsMs, Uuid, Dec, AnnInt }
use T::*;
const ALL: &[(T, &str)] = &[
    (Null, "null"), (Bool, "boolean"), (Int, "int"), (Long, "long"), (Float, "float"), (Double, "double"), (Bytes, "bytes"), (Str, "string"),
    (Enum, "En"), (Fixed, "Fx"), (Rec, "Rc"), (ArrInt, "array<int>"), (MapStr, "map<string>"), (ArrRec, "array<Rc>"), (UNullInt, "union{null,int}"), (UIntNull, "union{int,null}"),
    (UStrArr, "union{string,array<int>}"), (UEnNull, "union{En,null}"), (Date, "date"), (TsMs, "timestamp_ms"), (Uuid, "uuid"), (Dec, "decimal(4,2)"), (AnnInt, "@k(1) int"),
];

/// The Avro rule, on JSON values (with Java's relaxation: any union branch will do).
pub fn conforms(t: T, v: &Value) -> bool {
    match t {
        Null => v.is_null(),
        Bool => v.is_boolean(),
        Int | Date | AnnInt => v.is_i64() && (v.as_i64().unwrap() >= -2147483648) & (v.as_i64().unwrap() <= 2147483647),
        Long | TsMs => v.is_i64(),
        Float | Double => v.is_number() || matches!(v.as_str(), Some("NaN" | "Infinity" | "-Infinity")),
        Bytes | Str | Enum | Fixed | Uuid | Dec => v.is_string(),
        Rec => match v.as_object() { Some(o) => o.get("i").is_some_and(|i| conforms(Int, i)) && o.get("s").is_none_or(|s| conforms(Str, s)), None => false },
        ArrInt => v.as_array().is_some_and(|a| a.iter().all(|x| conforms(Int, x))),
        ArrRec => v.as_array().is_some_and(|a| a.iter().all(|x| conforms(Rec, x))),
        MapStr => v.as_object().is_some_and(|o| o.values().all(|x| conforms(Str, x))),
        UNullInt | UIntNull => conforms(Null, v) || conforms(Int, v),
        UStrArr => conforms(Str, v) || conforms(ArrInt, v),
        UEnNull => conforms(Null, v) || conforms(Enum, v),
    }
}
fn schema(t: T) -> Value {
    match t {
        Null => json!("null"), Bool => json!("boolean"), Int => json!("int"), Long => json!("long"), Float => json!("float"), Double => json!("double"), Bytes => json!("bytes"), Str => json!("string"),
        Enum => json!("En"), Fixed => json!("Fx"), Rec => json!("Rc"), ArrInt => json!({"type": "array", "items": "int"}), MapStr => json!({"type": "map", "values": "string"}),
        ArrRec => json!({"type": "array", "items": "Rc"}), UNullInt => json!(["null", "int"]), UIntNull => json!(["int", "null"]), UStrArr => json!(["string", {"type": "array", "items": "int"}]),
        UEnNull => json!(["En", "null"]), Date => json!({"type": "int", "logicalType": "date"}), TsMs => json!({"type": "long", "logicalType": "timestamp-millis"}), Uuid => json!({"type": "string", "logicalType": "uuid"}),
        Dec => json!({"type": "bytes", "logicalType": "decimal", "precision": 4, "scale": 2}), AnnInt => json!({"type": "int", "k": 1}),
    }
}

fn big(c: u8, s: &str, base: i64, neg: bool) -> (String, Value) {
    let d = (c - b'0') as i64;
    (format!("{}{s}{}", if neg { "-" } else { "" }, sym::text(vec![c])), json!(if neg { -base - d } else { base + d }))
}
/// An arbitrary default: source text and JSON value.
fn value() -> (String, Value) {
    let dig = || sym::byte("digit", b'0', b'9');
    match sym::pick("value", 23) {
        0 => ("null".into(), Value::Null),
        1 => ("true".into(), json!(true)),
        2 => ("false".into(), json!(false)),
        3 => { let c = dig(); (sym::text(vec![c]), json!((c - b'0') as i64)) }
        4 => { let c = dig(); big(c, "214748364", 2147483640, false) }
        5 => { let c = dig(); big(c, "214748364", 2147483640, true) }
        6 => { let c = dig(); big(c, "922337203685477579", 9223372036854775790, false) }
        7 => ("1.5".into(), json!(1.5)),
        8 => ("NaN".into(), json!("NaN")),
        9 => ("-Infinity".into(), json!("-Infinity")),
        10 => { let s = lower("s", 2); (format!("\"{s}\""), json!(s)) }
        11 => ("\"\"".into(), json!("")),
        12 => ("[]".into(), json!([])),
        13 => { let (t, v) = value1(); (format!("[1, {t}]"), json!([1, v])) }
        14 => ("{}".into(), json!({})),
        15 => { let (t, v) = value1(); (format!("{{\"i\": {t}}}"), json!({"i": v})) }
        16 => { let (t, v) = value1(); (format!("{{\"i\": 3, \"s\": {t}}}"), json!({"i": 3, "s": v})) }
        17 => { let (t, v) = value1(); let k = lower("k", 1); (format!("{{\"{k}k\": {t}, \"i\":1}}"), json!({format!("{k}k"): v, "i": 1})) }
        18 => ("[[]]".into(), json!([[]])),
        19 => ("[{}]".into(), json!([{}])),
        20 => ("[{\"i\": 1}, {\"i\":2}]".into(), json!([{"i": 1}, {"i": 2}])),
        21 => ("\"NaN\"".into(), json!("NaN")),
        _ => { let s = sym::one_of("word", &["nan", "inf", "-inf", "infinity", "+Infinity", "1.5", "3", "null", "true", "-NaN", "\u{e9}"]); (format!("\"{s}\""), st(s)) }
    }
}
fn value1() -> (String, Value) {
    match sym::pick("inner", 5) {
        0 => ("null".into(), Value::Null),
        1 => { let c = sym::byte("digit", b'0', b'9'); (sym::text(vec![c]), json!((c - b'0') as i64)) }
        2 => { let s = lower("s", 1); (format!("\"{s}\""), json!(s)) }
        3 => ("4294967296".into(), json!(4294967296i64)),
        _ => ("1.0".into(), json!(1.0)),
    }
}
const DECL: &str = "enum En { aa, bb } fixed Fx(2); record Rc { int i; string s = \"\"; }";

/// field default: accepted exactly when it conforms, and emitted unchanged
pub fn default_field() {
    let (t, s) = sym::one_of("t", ALL);
    let (txt, v) = value();
    let kind = sym::one_of("kind", &["record", "error"]);
    let r = idl(format!("protocol P {{ {DECL} {kind} U {{ {s} f = {txt}; }} }}"));
    let ok = conforms(t, &v);
    match r {
        Ok(o) => {
            sym::reach("accepted");
            check(ok, "a field default that does not conform to its type is accepted");
            let f = field(&o.json, 3, 0);
            check(f["default"] == v && f.get("default").is_some(), "emitted field default differs from the declared one");
            check(f["type"] == schema(t), "emitted type of a field with a default differs from the declared one");
        }
        Err(_) => { sym::reach("rejected"); check(!ok, "a conforming field default is rejected"); }
    }
}
/// the same for message parameters
pub fn default_param() {
    let (t, s) = sym::one_of("t", ALL);
    let (txt, v) = value();
    let r = idl(format!("protocol P {{ {DECL} void m(int a, {s} f = {txt}); }}"));
    let ok = conforms(t, &v);
    match r {
        Ok(o) => {
            sym::reach("accepted");
            check(ok, "a parameter default that does not conform to its type is accepted");
            let f = &o.json["messages"]["m"]["request"][1];
            check(f["default"] == v && f.get("default").is_some(), "emitted parameter default differs from the declared one");
            check(f["type"] == schema(t), "emitted type of a parameter with a default differs from the declared one");
        }
        Err(_) => { sym::reach("rejected"); check(!ok, "a conforming parameter default is rejected"); }
    }
}
/// `T?`: null first unless the default is not null (C30)
pub fn nullable_default() {
    let (t, s) = sym::one_of("t", &[ALL[1], ALL[2], ALL[3], ALL[4], ALL[5], ALL[6], ALL[7], ALL[8], ALL[9], ALL[10], ALL[18], ALL[19], ALL[20], ALL[21]]);
    let present = sym::flag("present");
    let (txt, v) = if present { value() } else { ("".into(), Value::Null) };
    let param = sym::flag("param");
    let d = if present { format!("= {txt}") } else { txt };
    let r = idl(if param { format!("protocol P {{ {DECL} void m({s}? f {d}); }}") } else { format!("protocol P {{ {DECL} record U {{ {s}? f {d}; }} }}") });
    let ok = v.is_null() || conforms(t, &v);
    match r {
        Ok(o) => {
            sym::reach("accepted");
            check(ok, "a default that does not conform to its optional type is accepted");
            let f = if param { &o.json["messages"]["m"]["request"][0] } else { field(&o.json, 3, 0) };
            check(f["type"] == if v.is_null() { json!(["null", schema(t)]) } else { json!([schema(t), "null"]) }, "branch order of an optional type does not match its default");
            check(f.get("default").is_some() == present && f["default"] == v, "emitted default of an optional type differs from the declared one");
        }
        Err(_) => { sym::reach("rejected"); check(!ok, "a conforming default of an optional type is rejected"); }
    }
}
/// several variables of one declaration: each gets its own default and branch order
pub fn nullable_many() {
    let mk = |n: &str| match sym::pick("d", 4) {
        0 => (format!("{n} = null"), Some(Value::Null)),
        1 => { let c = sym::byte("digit", b'0', b'9'); (format!("{n} = {}", sym::text(vec![c])), Some(json!(c - b'0'))) }
        2 => (format!("{n} = -7"), Some(json!(-7))),
        _ => (n.to_string(), None),
    };
    let vs = [mk("a"), mk("b"), mk("c")];
    let opt = sym::flag("opt");
    let r = must(format!("protocol P {{ record U {{ {} {}, {}, {}; }} }}", if opt { "int?" } else { "union{null,int}" }, vs[0].0, vs[1].0, vs[2].0), "conforming defaults are rejected");
    sym::reach("accepted");
    for (i, (_, v)) in vs.iter().enumerate() {
        let f = field(&r, 0, i);
        let nonnull = matches!(v, Some(x) if !x.is_null());
        check(f["type"] == if opt && nonnull { json!(["int", "null"]) } else { json!(["null", "int"]) }, "branch order of an optional type does not match its own default");
        check(f.get("default") == v.as_ref(), "default of one of several variables is lost or misplaced");
    }
}
/// An enum default must be one of the symbols (C10).
pub fn enum_default() {
    let k = sym::pick("symbols", 4);
    // one letter of either case, a digit or an underscore, after a capital
    let sy = |n: &str| sym::text(vec![b'Q', match sym::pick("class", 3) { 0 => sym::byte(n, b'A', b'Z'), 1 => sym::byte(n, b'_', b'z'), _ => sym::byte(n, b'0', b'9') }]);
    let syms: Vec<String> = (0..k).map(|_| sy("s")).collect();
    for i in 0..k { for j in 0..i { sym::assume(syms[i] != syms[j]); } }
    let d = sy("d");
    sym::assume(!d.contains('`') && !syms.iter().any(|s| s.contains('`')));
    let member = syms.iter().fold(false, |a, s| a | (*s == d));
    match idl(format!("protocol P {{ enum E {{ {} }} = {d}; record After {{ E e; }} }}", syms.join(","))) {
        Ok(o) => {
            sym::reach("accepted");
            check(member, "an enum default that is not a symbol is accepted");
            let e = &o.json["types"][0];
            check(e["default"] == st(&d) && e["symbols"] == json!(syms), "emitted enum default or symbols differ from the declared ones");
        }
        Err(_) => { sym::reach("rejected"); check(!member, "an enum default that is a symbol is rejected"); }
    }
}

/// defaults of record types: field by field, present, absent or defaulted, at any place
pub fn default_record() {
    #[derive(Clone, Copy)]
    enum F { Int, Str, NullInt, OptStr, Nested, Ints, En }
    let ty = |f| match f { F::Int => "int", F::Str => "string", F::NullInt => "union {null, int}", F::OptStr => "string?", F::Nested => "Nest", F::Ints => "map<int>", F::En => "En" };
    let own = |f| match f { F::Int => "3", F::Str => "\"\"", F::NullInt | F::OptStr => "null", F::Nested => "{\"n\": null, \"r\": 1}", F::Ints => "{}", F::En => "\"aa\"" };
    let (c, l) = (sym::byte("digit", b'0', b'9'), lower("l", 1));
    let vals = [(sym::text(vec![c]), 0), (format!("\"{l}\""), 1), ("null".into(), 2), (format!("{{\"r\": {}}}", sym::text(vec![c])), 3), ("{\"n\": null}".to_string(), 4), ("{}".to_string(), 5)];
    let fits = |f, v: usize| match f {
        F::Int => v == 0, F::Str | F::En => v == 1, F::NullInt => v == 2 || v == 0, F::OptStr => v == 2 || v == 1,
        F::Nested => v == 3, F::Ints => v == 3 || v == 5,
    };
    const FS: &[F] = &[F::Int, F::Str, F::NullInt, F::OptStr, F::Nested, F::Ints, F::En];
    let (f, g) = (sym::one_of("f", FS), sym::one_of("g", &[F::Int, F::NullInt]));
    let (fd, gd) = (sym::flag("fd"), sym::flag("gd"));
    let (fv, gv) = (sym::pick("fv", 7), sym::pick("gv", 3));
    let gv = [0, 2, 6][gv];
    let m = |n: &str, v: usize| if v < 6 { Some(format!("\"{n}\": {}", vals[v].0)) } else { None };
    let good = |f, d: bool, v: usize| if v < 6 { fits(f, v) } else { d };
    let d = format!("{{{}}}", [m("f", fv), m("g", gv)].into_iter().flatten().collect::<Vec<_>>().join(", "));
    let ok = good(f, fd, fv) && good(g, gd, gv);
    let full = format!("{{\"f\": {}, \"g\": {}}}", own(f), own(g));
    let q = format!("record Q {{ {} f{}; {} g{}; }}", ty(f), if fd { format!(" = {}", own(f)) } else { String::new() }, ty(g), if gd { format!(" = {}", own(g)) } else { String::new() });
    let u = match sym::pick("place", 8) {
        0 => format!("record U {{ Q u = {d}; }}"), 1 => format!("record U {{ array<Q> u = [{d}]; }}"), 2 => format!("record U {{ union {{ null, Q }} u = {d}; }}"),
        3 => format!("void m(Q u = {d});"),
        6 => format!("record V {{ Q q; Q r; }} record U {{ int z; V u = {{\"q\": {full}, \"r\": {d}}}; }}"), 7 => format!("record V {{ map<Q> q; }} record U {{ V u = {{\"q\": {{\"x\": {full}, \"y\": {d}}}}}; }}"), 4 => format!("record V {{ Q q; }} record U {{ int z; V u = {{\"q\": {d}}}; }}"), _ => format!("record U {{ Q? z = null, u = {d}; }}"),
    };
    match idl(format!("protocol P {{ enum En {{ aa }} record Nest {{ int? n = null; int r; }} {q} {u} }}")) {
        Ok(_) => { sym::reach("accepted"); check(ok, "a record default that lacks a required field or has a wrong value is accepted") }
        Err(_) => { sym::reach("rejected"); check(!ok, "a complete record default is rejected") }
    }
}

/// Defaults of record types that refer to themselves, to one another, or are declared after the use.
pub fn default_graph() {
    // types of the fields, as IDL; what a value must be
    const TS: &[&str] = &["int", "Aa", "Bb", "union {null, Aa}", "array<Aa>", "map<Bb>", "Bb?", "En"];
    const VS: &[&str] = &["", "1", "null", "{}", "[]", "\"s\""];
    let (ta, tb) = (sym::one_of("ta", TS), sym::one_of("tb", &TS[..6]));
    let (da, db) = (sym::one_of("da", VS), sym::one_of("db", &VS[..5]));
    let c = sym::text(vec![sym::byte("digit", b'0', b'9')]);
    let (t, v) = sym::one_of("value", &[("Aa", "{}"), ("Aa", "{\"a\": #}"), ("Aa", "{\"a\": null}"), ("Aa", "{\"a\": {}}"), ("Aa", "{\"a\": {\"a\": #}}"), ("Aa", "{\"a\": {\"b\": #}}"), ("Aa", "{\"a\": [{\"a\": []}]}"), ("Aa", "{\"a\": {\"k\": {\"b\": {\"a\": null}}}}"), ("Aa", "{\"a\": \"s\"}"), ("Aa", "{\"a\": {\"a\": {\"a\": {}}}}"), ("Bb", "{\"b\": {\"a\": #}}"), ("Bb", "{\"b\": {}}"), ("Aa", "[]")]);
    let v = v.replace('#', &c);
    let d = |n: &str, t: &str, d: &str| if d.is_empty() { format!("{t} {n}") } else { format!("{t} {n} = {d}") };
    let (a, b) = (format!("record Aa {{ {}; }} ", d("a", ta, da)), format!("record Bb {{ {}; }} ", d("b", tb, db)));
    let u = match sym::pick("place", 2) { 0 => format!("record Uu {{ {t} f = {v}; }} "), _ => format!("void m({t} f = {v}); ") };
    let src = match sym::pick("order", 3) { 0 => format!("{a}{b}{u}enum En {{ aa }}"), 1 => format!("{u}{b}{a}enum En {{ aa }}"), _ => format!("enum En {{ aa }}{b}{u}{a}") };
    fn fits(t: &str, v: &Value, ty: &dyn Fn(&str) -> (&'static str, &'static str, bool)) -> bool {
        match t {
            "int" => v.is_i64(),
            "En" => v.is_string(),
            "union {null, Aa}" => v.is_null() || fits("Aa", v, ty),
            "Bb?" => v.is_null() || fits("Bb", v, ty),
            "array<Aa>" => v.as_array().is_some_and(|a| a.iter().all(|x| fits("Aa", x, ty))),
            "map<Bb>" => v.as_object().is_some_and(|a| a.values().all(|x| fits("Bb", x, ty))),
            _ => { let (f, ft, opt) = ty(t); v.as_object().is_some_and(|o| match o.get(f) { Some(x) => fits(ft, x, ty), None => opt }) }
        }
    }
    let ty = |n: &str| if n == "Aa" { ("a", ta, !da.is_empty()) } else { ("b", tb, !db.is_empty()) };
    let p = |s: &str| serde_json::from_str::<Value>(s).unwrap();
    let own = (da.is_empty() || fits(ta, &p(da), &ty)) && (db.is_empty() || fits(tb, &p(db), &ty));
    // the defaults of the fields conform, but beside two of the values
    sym::assume(own || v == "{\"a\": {}}" || v == "{\"a\": null}");
    let ok = own && fits(t, &p(&v), &ty);
    match idl(format!("protocol P {{ {src} }}")) {
        Ok(_) => { sym::reach("accepted"); check(ok, "a default that does not conform to its recursive or later declared type is accepted") }
        Err(_) => { sym::reach("rejected"); check(!ok, "a default that conforms to its recursive or later declared type is rejected") }
    }
}
/// the same rule for defaults in imported files
pub fn default_import() {
    let (t, _) = sym::one_of("t", ALL);
    let (_, v) = value();
    let ok = conforms(t, &v);
    let f = json!({"name": "f", "type": schema(t), "default": v});
    let decls = [json!({"type": "enum", "name": "En", "symbols": ["aa", "bb"]}), json!({"type": "fixed", "name": "Fx", "size": 2}), json!({"type": "record", "name": "Rc", "fields": [{"name": "i", "type": "int"}, {"name": "s", "type": "string", "default": ""}]})];
    let form = sym::pick("form", 3);
    let u = json!({"type": "record", "name": "U", "fields": [{"name": "e", "type": "int"}, f]});
    let [a, b, c] = decls;
    let src = match form {
        0 => { write("d.avsc", &json!([a, b, c, u]).to_string()); "import schema \"d.avsc\";" }
        1 => { write("d.avpr", &json!({"protocol": "D", "types": [a, b, c, u], "messages": {}}).to_string()); "import protocol \"d.avpr\";" }
        _ => { write("d.avpr", &json!({"protocol": "D", "types": [a, b, c], "messages": {"m": {"request": [f], "response": "null"}}}).to_string()); "import protocol \"d.avpr\";" }
    };
    match idl(format!("protocol P {{ {src} }}")) {
        Ok(o) => {
            sym::reach("accepted");
            check(ok, "an imported default that does not conform to its type is accepted");
            let g = if form == 2 { &o.json["messages"]["m"]["request"][0] } else { field(&o.json, 3, 1) };
            check(g["default"] == v && g.get("default").is_some(), "an imported default comes out different");
        }
        Err(_) => { sym::reach("rejected"); check(!ok, "an imported conforming default is rejected") }
    }
}

/// The same rule where the type carries annotations of its own, at any depth.
pub fn default_annotated() {
    let (t, s) = sym::one_of("t", &[ALL[0], ALL[1], ALL[2], ALL[3], ALL[4], ALL[5], ALL[6], ALL[7], ALL[11], ALL[12], ALL[18], ALL[20], ALL[21]]);
    let a = sym::one_of("annotation", &["@k(1)", "@k({\"type\": \"int\"}) @l(null)", "@logicalType(\"odd\")"]);
    let c = sym::text(vec![sym::byte("digit", b'0', b'9')]);
    let l = lower("l", 1);
    let w = sym::pick("value", 12);
    let txt = match w {
        0 => "null".to_string(), 1 => "true".into(), 2 => c, 3 => format!("-429496729{c}"), 4 => "1.5".into(), 5 => "NaN".into(), 6 => format!("\"{l}\""), 7 => "[]".into(), 8 => format!("[{c}, 7]"), 9 => "{}".into(),
        10 => format!("{{\"{l}\": \"x\"}}"), _ => format!("[\"{l}\"]"),
    };
    let v = if w == 5 { json!("NaN") } else { serde_json::from_str::<Value>(&txt).unwrap() };
    let logical = matches!(t, Date | Uuid | Dec) && a.starts_with("@logicalType");
    sym::assume(!logical);
    let (sf, v, txt, ok) = match sym::pick("form", 3) {
        0 => { let ok = conforms(t, &v); (format!("{a} {s}"), v, txt, ok) }
        1 => { let ok = conforms(t, &v); (format!("array<{a} {s}>"), json!([v]), format!("[{txt}]"), ok) }
        _ => { let ok = conforms(t, &v); (format!("{a} map<{a} {s}>"), json!({"k": v}), format!("{{\"k\": {txt}}}"), ok) }
    };
    let place = sym::pick("place", 3);
    let r = idl(match place { 0 => format!("protocol P {{ record U {{ {sf} f = {txt}; }} }}"), 1 => format!("protocol P {{ error U {{ int a; {sf} e, f = {txt}; }} }}"), _ => format!("protocol P {{ void m({sf} f = {txt}); }}") });
    match r {
        Ok(o) => {
            sym::reach("accepted");
            check(ok, "a default that does not conform to its annotated type is accepted");
            let f = match place { 0 => field(&o.json, 0, 0), 1 => field(&o.json, 0, 2), _ => &o.json["messages"]["m"]["request"][0] };
            check(f["default"] == v, "emitted default of an annotated type differs from the declared one");
        }
        Err(_) => { sym::reach("rejected"); check(!ok, "a conforming default of an annotated type is rejected"); }
    }
}
