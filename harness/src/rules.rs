//! C17: what a message may be.
use super::{faith, sym, util::*};

/// A one-way message answers nothing and declares no errors.
pub fn rule_oneway() {
    let (d, _) = faith::decls();
    let (rt, null) = match sym::pick("rt", 2) {
        0 => ("void".to_string(), true),
        _ => { let (s, j) = faith::ty(1, false); (s, j == "null") }
    };
    let n = word("n", 2);
    let ps = sym::one_of("params", &["", "int i", "Rc r, En? e = null"]);
    let tail = sym::one_of("tail", &["", " oneway", " throws Er", " oneway throws Er", " throws Er oneway", " oneway oneway"]);
    let src = format!("protocol P {{ {d} error Er {{}} {rt} {n}({ps}){tail}; void other(); }}");
    let good = match tail { "" | " throws Er" => true, " oneway" => null, _ => false };
    match idl(src.clone()) {
        Ok(o) => {
            sym::reach("accepted");
            check(good, "a one-way message with a response or errors is accepted");
            let m = &o.json["messages"][&n];
            check(m["one-way"] == (tail == " oneway") || (m["one-way"].is_null() && tail != " oneway"), "a message becomes one-way, or stops being it");
        }
        Err(_) => { sym::reach("rejected"); check(!good, "a legal message is rejected") }
    }
    check(schemata(src).is_ok() == good, "extraction and conversion disagree about a message")
}
/// the same for imported protocols
pub fn rule_oneway_json() {
    let n = word("n", 1);
    let (rt, null) = sym::one_of("rt", &[("\"null\"", true), ("{\"type\": \"null\"}", true), ("\"int\"", false), ("[\"null\", \"int\"]", false), ("{\"type\": \"array\", \"items\": \"null\"}", false), ("{\"type\": \"record\", \"name\": \"R\", \"fields\": []}", false)]);
    let (errors, none) = sym::one_of("errors", &[("", true), (", \"errors\": []", true), (", \"errors\": [\"E\"]", false)]);
    let (way, one) = sym::one_of("way", &[("", false), (", \"one-way\": false", false), (", \"one-way\": true", true)]);
    write("p.avpr", &format!("{{\"protocol\": \"{n}\", \"types\": [{{\"type\": \"error\", \"name\": \"E\", \"fields\": []}}], \"messages\": {{\"{n}\": {{\"request\": [], \"response\": {rt}{errors}{way}}}}}}}"));
    write("m.avdl", "protocol P { import protocol \"p.avpr\"; }");
    // (Avro implementations differ on one-way messages with an empty list of errors)
    sym::assume(!one || !errors.contains("[]"));
    let good = !one || (null && none);
    match avdl::Idl::new().convert(format!("{}/m.avdl", sym::root())) {
        Ok(o) => {
            sym::reach("accepted");
            check(good, "an imported one-way message with a response or errors is accepted");
            check(o.json["messages"][&n]["one-way"] == true || !one, "an imported message is no longer one-way");
        }
        Err(_) => { sym::reach("rejected"); check(!good, "a legal imported message is rejected") }
    }
}
/// `void` is nothing but a response; messages stand nowhere but in protocols.
pub fn rule_void() {
    let n = word("n", 2);
    let deep = sym::one_of("deep", &["#", "array<#>", "map<#>", "union { null, # }", "array<map<#>>", "#?"]);
    let t = |s: &str| deep.replace('#', s);
    let void = sym::flag("void");
    let v = t(if void { "void" } else { "long" });
    let (src, good) = match sym::pick("where", 12) {
        0 => (format!("protocol P {{ {v} {n}(); }}"), !void || deep == "#"),
        1 => (format!("protocol P {{ void {n}({v} p); }}"), !void),
        2 => (format!("protocol P {{ void m(int i, {v} {n}); }}"), !void),
        3 => (format!("protocol P {{ record R {{ {v} {n}; }} }}"), !void),
        4 => (format!("protocol P {{ error R {{ int i; {v} {n}; }} }}"), !void),
        5 => (format!("schema {v}; record {n} {{ }}"), !void),
        6 => (format!("protocol P {{ int {n}() throws {v}; }}"), false),
        7 => (format!("protocol P {{ record R {{ int i; {v} {n}(); }} }}"), false),
        8 => (format!("schema int; {v} {n}();"), false),
        9 => (format!("protocol P {{ {v} {n}(int); }}"), false),
        10 => (format!("protocol P {{ {n}(); }}"), false),
        _ => (format!("protocol P {{ void {n}({v} p, {v} p2,); }}"), false),
    };
    match idl(src.clone()) {
        Ok(_) => { sym::reach("accepted"); check(good, "void or a message is accepted where it means nothing") }
        Err(_) => { sym::reach("rejected"); check(!good, "a legal use of a type is rejected") }
    }
    check(schemata(src).is_ok() == good, "extraction and conversion disagree about a type");
}
/// Messages of one protocol: the response, errors and parameters stay with their message.
pub fn rule_messages() {
    let (a, b) = (word("a", 1), word("b", 1));
    let pa = word("p", 1);
    let (r1, r2) = (sym::one_of("r1", &["int", "void", "E0", "array<string>"]), sym::one_of("r2", &["long", "null", "E1"]));
    let (t1, t2) = (sym::one_of("t1", &["", "throws E0", "throws E1, E0", "oneway"]), sym::one_of("t2", &["", "throws E1"]));
    sym::assume(t1 != "oneway" || r1 == "void");
    let c = sym::byte("c", b'0', b'9');
    let dflt = sym::flag("default");
    let src = format!("protocol P {{ error E0 {{}} {r1} {a}(int {pa}{}, E1 x) {t1}; error E1 {{}} {r2} {b}(string {pa}) {t2}; }}", if dflt { format!(" = {}", sym::text(vec![c])) } else { String::new() });
    sym::assume(a != b);
    let out = must(src, "legal messages are rejected");
    sym::reach("accepted");
    let ms = out["messages"].as_object().unwrap();
    check(ms.len() == 2, "a message is lost or invented");
    let ty = |s: &str| match s { "void" => st("null"), "array<string>" => serde_json::json!({"type": "array", "items": "string"}), s => st(s) };
    let errs = |t: &str| match t { "throws E0" => serde_json::json!(["E0"]), "throws E1" => serde_json::json!(["E1"]), "throws E1, E0" => serde_json::json!(["E1", "E0"]), _ => serde_json::Value::Null };
    for (n, r, t) in [(&a, r1, t1), (&b, r2, t2)] {
        check(ms[n]["response"] == ty(r) && ms[n]["errors"] == errs(t), "a message has the response or the errors of another");
        check((ms[n]["one-way"] == true) == (t == "oneway"), "a message is one-way that is not, or the other way round");
    }
    let p = ms[&a]["request"].as_array().unwrap();
    check(p.len() == 2 && p[0]["name"] == pa && p[0]["type"] == "int" && p[1]["name"] == "x" && p[1]["type"] == "E1" && ms[&b]["request"] == serde_json::json!([{"name": pa, "type": "string"}]), "a message has the parameters of another");
    check(p[0].get("default") == dflt.then(|| (c - b'0').into()).as_ref(), "a parameter's default is lost or another's");
}
