//! C07/C08/C09: each type is defined exactly once, before use; undeclared names and
//! duplicates are errors; extracted schemas are self-contained.
use super::{names::{full, Names}, sym, util::*};
use serde_json::{json, Value};

const N: [&str; 3] = ["Aa", "Bb", "Cc"];
fn edge(tag: &str, wraps: &[&str]) -> (Option<usize>, String) {
    match sym::pick(tag, 4) {
        0 => (None, "int".into()),
        k => { let w = sym::one_of("wrap", wraps); (Some(k - 1), w.replace('#', N[k - 1])) }
    }
}
/// Three mutually recursive records (any reference graph, any order of declaration), plus
/// messages using them.
fn graph() -> (String, [[Option<usize>; 2]; 3], [usize; 3]) {
    let order = sym::one_of("order", &[[0, 1, 2], [2, 0, 1], [1, 0, 2]]);
    let mut decl = ["".to_string(), "".to_string(), "".to_string()];
    let mut g = [[None; 2]; 3];
    for i in 0..3 {
        let (x, xt) = edge("x", if i == 2 { &["#", "array<#>"] } else { &["#"] });
        let (y, yt) = if i == 0 { edge("y", &["union{null,#}"]) } else if i == 1 { edge("y", &["map<#>"]) } else { (None, "string".into()) };
        g[i] = [x, y];
        decl[i] = format!("record {} {{ {xt} x; {yt} y; }} ", N[i]);
    }
    (order.iter().map(|i| decl[*i].clone()).collect(), g, order)
}
/// Strip the wrappers of a field's position.
fn target(n: &Names, at: &str) -> Option<String> {
    n.refs.iter().find(|r| r.0 == at || (r.0.starts_with(at) && matches!(r.0.as_bytes()[at.len()], b'[' | b'{' | b'|'))).map(|r| r.1.clone())
}
fn same_graph(n: &Names, g: &[[Option<usize>; 2]; 3], ns: &str, only: &[usize]) {
    for i in only {
        for (f, e) in ["x", "y"].iter().zip(&g[*i]) {
            check(target(n, &format!("{}/{f}", full(ns, N[*i]))) == e.map(|k| full(ns, N[k])), "a field refers to another type than declared");
        }
    }
}
pub fn graph_protocol() {
    let (body, g, _) = graph();
    let ns = if sym::flag("ns") { word("ns", 1) } else { String::new() };
    let ms = sym::one_of("msg", &["", "Bb m(Cc p);"]);
    let out = must(format!("{} protocol P {{ {body} {ms} }}", if ns.is_empty() { String::new() } else { format!("@namespace(\"{ns}\")") }), "a declared type graph is rejected");
    sym::reach("accepted");
    let n = Names::protocol(&out);
    n.sound();
    check(n.defs.len() == 3 && (0..3).all(|i| n.def(&full(&ns, N[i]))), "a declared type is missing from the output");
    same_graph(&n, &g, &ns, &[0, 1, 2]);
    if !ms.is_empty() { check(n.at("@m") == full(&ns, "Bb") && n.at("@m/p") == full(&ns, "Cc"), "a message refers to another type than declared"); }
}
/// every type reachable from `i`
fn reachable(g: &[[Option<usize>; 2]; 3], i: usize, seen: &mut [bool; 3]) {
    if std::mem::replace(&mut seen[i], true) { return; }
    for k in g[i].iter().flatten() { reachable(g, *k, seen); }
}
pub fn graph_schemata() {
    let (body, g, order) = graph();
    let ns = if sym::flag("ns") { word("ns", 1) } else { String::new() };
    let src = match sym::pick("form", 2) {
        0 => format!("{} protocol P {{ {body} }}", if ns.is_empty() { String::new() } else { format!("@namespace(\"{ns}\")") }),
        _ => format!("{} {body}", if ns.is_empty() { String::new() } else { format!("namespace {ns};") }),
    };
    let Ok(out) = schemata(src) else { check(false, "a declared type graph is rejected"); return };
    sym::reach("accepted");
    let names: Vec<&str> = out.schemas.iter().map(|s| &s.name[..]).collect();
    check(names == order.map(|i| N[i]), "extracted schemas are not one per declared type in declaration order");
    for (s, i) in out.schemas.iter().zip(order) {
        let mut n = Names::default();
        n.schema(&s.schema, "", "");
        n.sound();
        check(n.refs.first().is_some_and(|r| r.1 == full(&ns, N[i])), "an extracted schema is not that of its type");
        let mut seen = [false; 3];
        reachable(&g, i, &mut seen);
        let only: Vec<usize> = (0..3).filter(|k| seen[*k]).collect();
        check(n.defs.len() == only.len(), "an extracted schema defines types it does not need, or lacks one");
        same_graph(&n, &g, &ns, &only);
    }
}
/// Extraction with every kind of named type, declared before or after what refers to it.
pub fn kinds_schemata() {
    let (a, b) = (word("a", 1), word("b", 1));
    let (d, j) = match sym::pick("kind", 4) {
        0 => (format!("/** doc */ @k(1) enum Dd {{ X, {a} }} "), json!({"type": "enum", "name": "Dd", "symbols": ["X", a], "doc": "doc", "k": 1})),
        1 => (format!("@k(\"{a}\") fixed Dd(3); "), json!({"type": "fixed", "name": "Dd", "size": 3, "k": a})),
        2 => (format!("error Dd {{ int {a} = 4; }} "), json!({"type": "error", "name": "Dd", "fields": [{"name": a, "type": "int", "default": 4}]})),
        _ => (format!("record Dd {{ string {a}; }} "), json!({"type": "record", "name": "Dd", "fields": [{"name": a, "type": "string"}]})),
    };
    sym::assume(a != "X");
    let u = sym::one_of("use", &["Dd", "array<Dd>", "union{null, Dd}"]);
    let ft = |x: Value| match u { "Dd" => x, "array<Dd>" => json!({"type": "array", "items": x}), _ => json!(["null", x]) };
    let user = |n: &str| format!("record {n} {{ {u} {b}; {u} q; }} ");
    sym::assume(b != "q");
    let uj = |n: &str| json!({"type": "record", "name": n, "fields": [{"name": b, "type": ft(j.clone())}, {"name": "q", "type": ft(st("Dd"))}]});
    let at = sym::pick("at", 3);
    let mut decls = vec![user("U1"), user("U2")];
    decls.insert(at, d);
    let mut want = vec![("U1", uj("U1")), ("U2", uj("U2"))];
    want.insert(at, ("Dd", j.clone()));
    let Ok(out) = schemata(format!("protocol P {{ {} }}", decls.concat())) else { check(false, "declared types are rejected"); return };
    sym::reach("accepted");
    check(out.schemas.len() == 3, "extracted schemas are not one per declared type");
    for (s, (n, w)) in out.schemas.iter().zip(&want) { check(s.name == *n && s.schema == *w, "an extracted schema is not the complete definition of its type") }
}
/// A type's definition is the same whether it stands first or is pulled in by a forward reference.
pub fn inlined_definition() {
    let a = word("a", 1);
    let (d, j): (String, Value) = match sym::pick("kind", 4) {
        0 => (format!("/** doc */ @aliases([\"{a}\"]) @k(1) enum Dd {{ X, Y }} = Y; "), json!({"type": "enum", "name": "Dd", "symbols": ["X", "Y"], "default": "Y", "doc": "doc", "aliases": [a], "k": 1})),
        1 => (format!("/** doc */ @aliases([\"{a}\"]) @k(1) fixed Dd(3); "), json!({"type": "fixed", "name": "Dd", "size": 3, "doc": "doc", "aliases": [a], "k": 1})),
        2 => (format!("/** doc */ @aliases([\"{a}\"]) @k(1) record Dd {{ int {a} = 4; Dd? q; }} "), json!({"type": "record", "name": "Dd", "fields": [{"name": a, "type": "int", "default": 4}, {"name": "q", "type": ["null", "Dd"]}], "doc": "doc", "aliases": [a], "k": 1})),
        _ => (format!("/** doc */ @k(1) error Dd {{ string @order(\"ignore\") {a}; }} "), json!({"type": "error", "name": "Dd", "fields": [{"name": a, "type": "string", "order": "ignore"}], "doc": "doc", "k": 1})),
    };
    sym::assume(a != "q" );
    let u = sym::one_of("use", &[("Dd f;", 0), ("array<Dd> f;", 1), ("map<Dd> f;", 2), ("union{null, Dd} f;", 3), ("Dd? f;", 3)]);
    let user = format!("record Uu {{ {} Dd g; }} ", u.0);
    let fwd = sym::flag("forward");
    let body = if fwd { format!("{user} {d}") } else { format!("{d} {user}") };
    let out = must(format!("protocol P {{ {body} }}"), "a declared type is rejected");
    sym::reach("accepted");
    let ft = |x: Value| match u.1 { 0 => x, 1 => json!({"type": "array", "items": x}), 2 => json!({"type": "map", "values": x}), _ => json!(["null", x]) };
    let uj = |x: Value| json!({"type": "record", "name": "Uu", "fields": [{"name": "f", "type": ft(x)}, {"name": "g", "type": "Dd"}]});
    let want = if fwd { json!([uj(j)]) } else { json!([j, uj(json!("Dd"))]) };
    check(out["types"] == want, "a definition moved by a forward reference differs from the declared one");
}

/// An undeclared name anywhere makes the file an error; declared names never do.
pub fn undeclared() {
    // the reference is one character off the declared name, or equal to it
    let r = sym::text(vec![b'Q', sym::byte("c", b'a', b'z'), b'k']);
    let declared = r == "Qak";
    let (d, i) = sym::one_of("decl", &[("error Qak { }", "{}"), ("enum Qak { A }", "\"A\""), ("fixed Qak(1);", "\"x\"")]);
    let p = match sym::pick("where", 16) {
        0 => format!("protocol P {{ {d} record U {{ {r} f; }} }}"),
        12 => format!("protocol P {{ {d} record U {{ union {{ {r}, null }} f; }} }}"),
        13 => format!("protocol P {{ {d} record U {{ int i; {r}? f = {}; }} }}", i),
        14 => format!("protocol P {{ {d} void m(union {{ {r}, int, string }} p, {r}? q = null); }}"),
        15 => format!("protocol P {{ {d} map<union {{ array<{r}>, null }}> m(); }}"),
        1 => format!("protocol P {{ {d} record U {{ int a; array<map<{r}>> f; }} }}"),
        2 => format!("protocol P {{ {d} record U {{ union {{ null, string, {r} }} f; }} }}"),
        3 => format!("protocol P {{ {d} void m(int i, {r} p); }}"),
        4 => format!("protocol P {{ {d} array<{r}> m(); }}"),
        5 => format!("protocol P {{ error E0 {{}} {d} void m() throws E0, {r}; }}"),
        6 => format!("protocol P {{ record U {{ record {{}} }} {d} }}"),
        7 => format!("schema {r}; {d}"),
        8 => format!("schema map<{r}>; {d}"),
        9 => format!("namespace x; schema U; record U {{ {r}? f; }} {d}"),
        10 => format!("@namespace(\"x\") protocol P {{ {d} error U {{ x.{r} f; }} }}"),
        _ => format!("schema union {{ null, {r} }}; {d}"),
    };
    sym::assume(!p.contains("record {}"));
    match idl(p.clone()) {
        Ok(_) => { sym::reach("accepted"); check(declared, "a reference to an undeclared type is accepted"); }
        Err(_) => { sym::reach("rejected"); check(!declared, "a reference to a declared type is rejected"); }
    }
    let Err(_) = schemata(p) else { check(declared, "extraction accepts a reference to an undeclared type"); return };
    check(!declared, "extraction rejects a reference to a declared type");
}
/// The same for every way of wrapping the reference and every place for a type.
pub fn undeclared_deep() {
    const W: &[&str] = &[
        "#", "#?", "array<#>", "map<#>", "array<#?>", "map<#?>", "union {null, #}", "union {#, null}", "union {int, #, string}", "array<union {null, #}>", "map<union {#, int}>", "union {null, array<#>}",
        "union {map<#>, null}", "map<array<#>>", "array<map<#>>", "array<array<union {int, #}>>", "map<map<#?>>", "union {null, array<union {string, #}>}", "union {map<map<#>>, int}", "@k(1) array<#>", "@k(1) array<@k(2) map<#>>", "map<@k(1) union {null, #}>", "union {null, @k(1) array<#>}",
    ];
    const P: &[&str] = &[
        "protocol P { D record U { T f; } }", "protocol P { record U { int a; T f, g; } D }", "protocol P { D error U { int a = 3; T f; string s; } }", "protocol P { D record V { int v; } record U { T f; V v; } }",
        "protocol P { D void m(T p); }", "protocol P { void m(int i, T p, string s); D }", "@namespace(\"x\") protocol P { void m(); D void n(T p); void o(); }",
        "schema T; D", "namespace x; schema T; record U { int f; } D", "schema U; D record U { T f; }", "D record U { T f; }",
    ];
    let r = sym::text(vec![b'Q', sym::byte("c", b'a', b'z'), b'k']);
    let declared = r == "Qak";
    let d = sym::one_of("decl", &["error Qak { }", "enum Qak { A }", "fixed Qak(1);"]);
    let (wi, pi) = (sym::pick("wrap", W.len()), sym::pick("place", P.len()));
    let p = P[pi].replace('D', d).replace('T', W[wi]);
    // `D` and `T` stand for nothing else in these texts
    let p = p.replace('#', &r);
    // (a file without protocol and schema is for extraction only)
    if pi < P.len() - 1 {
        match idl(p.clone()) {
            Ok(_) => { sym::reach("accepted"); check(declared, "a reference to an undeclared type is accepted"); }
            Err(_) => { sym::reach("rejected"); check(!declared, "a reference to a declared type is rejected"); }
        }
    }
    let ok = schemata(p).is_ok();
    check(ok == declared, if declared { "extraction rejects a reference to a declared type" } else { "extraction accepts a reference to an undeclared type" });
}
/// Duplicates: fields, symbols, parameters, union branches and types.
pub fn duplicates() {
    let (a, b) = (word("a", 2), word("b", 2));
    // names that differ in case only are different names
    let b = match sym::pick("case", 3) { 0 => b, 1 => sym::text(b.bytes().map(|c| c ^ 32).collect()), _ => sym::text(b.bytes().enumerate().map(|(i, c)| if i == 1 { c ^ 32 } else { c }).collect()) };
    let dup = a == b;
    let mid = sym::flag("mid");
    let src = match sym::pick("what", 8) {
        0 => format!("protocol P {{ record R {{ int {a}; {} string {b}; }} }}", if mid { "int mm;" } else { "" }),
        1 => format!("protocol P {{ error R {{ int {a}, {} {b}; }} }}", if mid { "mm = 3, " } else { "" }),
        2 => format!("protocol P {{ enum R {{ {a}, {} {b} }} }}", if mid { "mm," } else { "" }),
        3 => format!("protocol P {{ void m(int {a}, {} string {b}); }}", if mid { "int mm," } else { "" }),
        4 => format!("protocol P {{ record {a} {{}} {} enum {b} {{}} }}", if mid { "fixed mm(1);" } else { "" }),
        5 => format!("protocol P {{ fixed {a}(1); {} error {b} {{}} }}", if mid { "record mm {}" } else { "" }),
        6 => format!("@namespace(\"x.y\") protocol P {{ record {a} {{}} {} enum `{b}` {{}} }}", if mid { "fixed mm(1);" } else { "" }),
        _ => format!("namespace x; schema int; record {a} {{}} {} @namespace(\"x\") fixed {b}(2);", if mid { "record mm {}" } else { "" }),
    };
    sym::assume(a != "mm" && b != "mm");
    match idl(src) {
        Ok(_) => { sym::reach("accepted"); check(!dup, "a duplicate declaration is accepted"); }
        Err(_) => { sym::reach("rejected"); check(dup, "distinct declarations are rejected as duplicates"); }
    }
}

/// Union branches: what Avro allows (one branch per unnamed kind, distinct names, no nesting).
pub fn unions() {
    const B: &[(&str, &str)] = &[
        ("null", "null"), ("int", "int"), ("date", "int"), ("long", "long"), ("timestamp_ms", "long"), ("string", "string"), ("uuid", "string"), ("bytes", "bytes"), ("decimal(3)", "bytes"),
        ("array<int>", "array"), ("array<Aa>", "array"), ("map<int>", "map"), ("map<string>", "map"), ("Aa", "#A"), ("x.Aa", "#xA"), ("Bb", "#B"), ("union{null}", "union"), ("int?", "union"), ("boolean", "boolean"), ("@k(1) int", "int"),
    ];
    let n = sym::pick("n", 3) + 1;
    let bs: Vec<(&str, &str)> = (0..n).map(|_| sym::one_of("branch", B)).collect();
    let text: Vec<&str> = bs.iter().map(|b| b.0).collect();
    let mut good = bs.iter().all(|b| b.1 != "union");
    for i in 0..n { for j in 0..i { good &= bs[i].1 != bs[j].1; } }
    let d = "record Aa {} @namespace(\"x\") record Aa {} enum Bb { S }";
    let late = sym::flag("late");
    let u = format!("union {{ {} }}", text.join(", "));
    let src = if late { format!("protocol P {{ record U {{ {u} f; }} {d} }}") } else { format!("protocol P {{ {d} record U {{ {u} f; }} }}") };
    match idl(src) {
        Ok(o) => {
            sym::reach("accepted");
            check(good, "an illegal union is accepted");
            let t = &o.json["types"];
            let f = if late { &t[0]["fields"][0]["type"] } else { &t[3]["fields"][0]["type"] };
            check(f.as_array().is_some_and(|a| a.len() == n), "a union's branches are lost");
        }
        Err(_) => { sym::reach("rejected"); check(!good, "a legal union is rejected"); }
    }
}
