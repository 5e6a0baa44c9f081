//! C25: several variables of one declaration each keep what is their own.
use super::{sym, util::*};
use serde_json::{json, Value};

/// one of several variables: its text and its field, but for the type
fn variable(i: usize, shared: Option<&str>, word_default: bool) -> (String, Value) {
    let n = format!("{}{i}", word("name", 1));
    let (mut t, mut j) = (String::new(), json!({"name": n}));
    if let Some(s) = shared { j["doc"] = st(s) }
    let c = if i == 1 { sym::pick("what", 12) } else { sym::pick("what", 7) };
    let (doc, rest) = match c { 0 => (false, 0), 1 => (true, 0), 2 => (false, 1), 3 => (true, 2), 4 => (false, 3), 5 => (false, 4), 6 => (true, 5), 7 => (true, 1), 8 => (true, 3), 9 => (true, 4), 10 => (false, 2), _ => (false, 5) };
    if doc { t += &format!("/** of {i} */ "); j["doc"] = st(&format!("of {i}")) }
    let dig = if rest == 1 || rest == 4 || rest == 5 { sym::byte("digit", b'0', b'9') } else { b'0' };
    match rest {
        2 => { let k = word("k", 1); t += &format!("@{k}({i}) "); j[k] = json!(i) }
        3 => { t += "@order(\"descending\") @aliases([\"old\"]) "; j["order"] = st("descending"); j["aliases"] = json!(["old"]) }
        4 => { t += &format!("@order(\"ignore\") @k([{i}]) "); j["order"] = st("ignore"); j["k"] = json!([i]) }
        _ => {}
    }
    t += &n;
    if rest == 1 || rest == 4 || rest == 5 {
        if word_default { t += &format!(" = \"{i}\""); j["default"] = st(&i.to_string()) }
        else { t += &format!(" = {}", sym::text(vec![dig])); j["default"] = json!(dig - b'0') }
    }
    (t, j)
}
fn many(kind: &str, head: &str, tail: &str) {
    let shared = sym::one_of("shared", &[None, Some("of all"), Some("")]);
    let (tt, tj, w) = sym::one_of("type", &[("long", "\"long\"", false), ("date", r#"{"type":"int","logicalType":"date"}"#, false), ("@p(\"q\") string", r#"{"type":"string","p":"q"}"#, true)]);
    let tj: Value = serde_json::from_str(tj).unwrap();
    // an empty comment is no comment
    let s = match shared { None => "", Some("") => "/** */ ", _ => "/** of all */ " };
    let vs: Vec<_> = (0..3).map(|i| variable(i, shared.filter(|s| !s.is_empty()), w)).collect();
    let vs: Vec<(String, Value)> = vs.into_iter().map(|(t, mut j)| { j["type"] = tj.clone(); (t, j) }).collect();
    let text = vs.iter().map(|v| v.0.as_str()).collect::<Vec<_>>();
    let mut want: Vec<Value> = vs.iter().map(|v| v.1.clone()).collect();
    want.insert(0, json!({"name": "first", "type": "int", "doc": "the first"}));
    want.push(json!({"name": "last", "type": "int"}));
    let src = format!("protocol P {{ {head}/** the first */ int first; {s}{tt} {}; int last;{tail} }}", text.join(", "));
    let out = must(src, "several variables of one declaration are rejected");
    sym::reach("accepted");
    check(out["types"] == json!([{"type": kind, "name": "Rr", "fields": want}]), "a variable of a declaration loses what is its own, or gets what is another's");
}
/// fields
pub fn faith_vars() { if sym::flag("error") { many("error", "error Rr { ", " }") } else { many("record", "record Rr { ", " }") } }
