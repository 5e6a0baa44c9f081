//! C15: a file means itself plus everything it imports, each file once.
use super::{canon::Canon, sym, total::diag, util::*};
use miette::Diagnostic;
use serde_json::{json, Value};

fn convert(p: &str) -> miette::Result<avdl::IdlOutput> { avdl::Idl::new().convert(format!("{}/{p}", sym::root())) }
fn names(v: &Value) -> Vec<String> { types(v).iter().map(|t| t["name"].as_str().unwrap_or("?").to_string()).collect() }
fn message_names(v: &Value) -> Vec<String> { let mut m: Vec<String> = v["messages"].as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default(); m.sort(); m }

const F: [&str; 4] = ["m", "a", "b", "c"];
/// What one file says, in order.
struct Node { imports: Vec<usize>, first: bool }
fn visit(i: usize, nodes: &[Node], seen: &mut Vec<usize>, out: &mut Vec<String>) {
    if seen.contains(&i) { return }
    seen.push(i);
    let own = format!("T{i}");
    if !nodes[i].first { out.push(own.clone()) }
    for j in &nodes[i].imports { visit(*j, nodes, seen, out) }
    if nodes[i].first { out.push(own) }
}
/// any import graph over four IDL files
pub fn import_graph() {
    let w = word("w", 1);
    let edge = |n: &str| sym::pick(n, 5);
    let mut nodes: Vec<Node> = Vec::new();
    for i in 0..4 {
        let mut imports = Vec::new();
        for _ in 0..(if i == 0 { 2 } else { 1 }) { let k = edge("edge"); if k < 4 { imports.push(k) } }
        nodes.push(Node { imports, first: if i < 2 { sym::flag("first") } else { i == 2 } });
    }
    let (mut seen, mut want) = (Vec::new(), Vec::new());
    visit(0, &nodes, &mut seen, &mut want);
    for i in 0..4 {
        let im: String = nodes[i].imports.iter().map(|j| format!("import idl \"{}.avdl\"; ", F[*j])).collect();
        let own = format!("record T{i} {{ int {w}; }} ");
        let body = if nodes[i].first { format!("{im}{own}") } else { format!("{own}{im}") };
        write(&format!("{}.avdl", F[i]), &format!("protocol P{i} {{ {body} void v{i}(); }}"));
    }
    match convert("m.avdl") {
        Ok(o) => {
            sym::reach("accepted");
            check(names(&o.json) == want, "the types are not those of the imported files, each once, in order of first import");
            seen.sort();
            check(message_names(&o.json) == seen.iter().map(|i| format!("v{i}")).collect::<Vec<_>>(), "the messages are not those of the imported files");
            check(o.warnings.is_empty(), "importing gives warnings");
            for t in types(&o.json) { check(t["fields"] == json!([{"name": w, "type": "int"}]), "an imported type differs from its declaration") }
        }
        Err(_) => check(false, "a valid import graph is rejected"),
    }
}
/// references across files in any direction; each imported file a kind of its own
pub fn import_refs() {
    let w = word("w", 1);
    let ns = ["", &w, "y"];
    let (mn, an) = (ns[sym::pick("mns", 3)], ns[sym::pick("ans", 3)]);
    let q = |n: &str, x: &str| if n.is_empty() { x.to_string() } else { format!("{n}.{x}") };
    let pre = |n: &str| if n.is_empty() { String::new() } else { format!("@namespace(\"{n}\") ") };
    let back = sym::flag("back");
    // a declared name is visible from a file of another namespace by its full name only;
    // the null namespace cannot be named from elsewhere
    let from_a = if back { sym::assume(!mn.is_empty() || an.is_empty()); q(mn, "M") } else { "int".to_string() };
    sym::assume(!an.is_empty() || mn.is_empty());
    let from_m = q(an, "A");
    let kind = sym::pick("kind", 3);
    match kind {
        0 => write("sub/a.avdl", &format!("{}protocol PA {{ record A {{ union {{ null, {from_a} }} u; }} {from_a} va(A a); }}", pre(an))),
        1 => write("sub/a.avpr", &json!({"protocol": "PA", "namespace": an, "types": [{"type": "record", "name": "A", "fields": [{"name": "u", "type": ["null", from_a]}]}], "messages": {"va": {"request": [{"name": "a", "type": "A"}], "response": from_a}}}).to_string()),
        _ => { let mut d = json!({"type": "record", "name": "A", "fields": [{"name": "u", "type": ["null", from_a]}]}); if !an.is_empty() { d["namespace"] = st(an) } write("sub/a.avsc", &d.to_string()) }
    }
    let im = format!("import {};", ["idl \"sub/a.avdl\"", "protocol \"sub/a.avpr\"", "schema \"sub/a.avsc\""][kind]);
    let own = format!("record M {{ array<{from_m}> f; }}");
    let msg = format!("{from_m} vm(M m, {from_m} p);");
    let body = match sym::pick("order", 3) { 0 => format!("{im} {own} {msg}"), 1 => format!("{own} {im} {msg}"), _ => format!("{msg} {own} {im}") };
    write("m.avdl", &format!("{}protocol PM {{ {body} }}", pre(mn)));
    let arec = json!({"type": "record", "fields": [{"name": "u", "type": ["null", if back { st(&format!("@{from_a}")) } else { st("int") }]}]});
    let mrec = json!({"type": "record", "fields": [{"name": "f", "type": {"type": "array", "items": format!("@{from_m}")}}]});
    match convert("m.avdl") {
        Ok(o) => {
            sym::reach("accepted");
            let c = Canon::of_protocol(&o.json);
            check(!c.bad, "the output is not valid Avro");
            check(c.get(&q(an, "A")) == Some(&arec), "an imported type is lost or refers to something else");
            check(c.get(&q(mn, "M")) == Some(&mrec), "a reference to an imported type is lost or changed");
            check(c.get("!vm") == Some(&json!({"request": [{"name": "m", "type": format!("@{}", q(mn, "M"))}, {"name": "p", "type": format!("@{from_m}")}], "response": format!("@{from_m}")})), "a message's reference to an imported type changed");
            if kind < 2 { check(c.get("!va") == Some(&json!({"request": [{"name": "a", "type": format!("@{from_m}")}], "response": if back { format!("@{from_a}") } else { "int".into() }})), "an imported message is lost or changed") }
            check(c.defs.len() == if kind < 2 { 4 } else { 3 }, "the output contains a definition nobody declared");
        }
        Err(e) => { sym::note(&format!("{e:?}")); check(false, "references across imported files are rejected") }
    }
}
/// which file a path means
pub fn import_path() {
    let w = word("w", 1);
    // candidates, in order of preference
    let dirs = ["here", "d1", "d2"];
    let mut first = None;
    for (i, d) in dirs.iter().enumerate() {
        if sym::flag("exists") {
            if first.is_none() { first = Some(i) }
            write(&format!("{d}/sub/x.avdl"), &format!("protocol X {{ record {w}{i} {{ }} }}"));
        }
    }
    let n = sym::pick("dirs", 3);
    if first.is_some_and(|f| f > n) { first = None }
    let spell = sym::one_of("path", &["sub/x.avdl", "./sub/x.avdl", "sub/../sub/x.avdl", "sub//x.avdl"]);
    // the importing file is itself imported from elsewhere: its own directory counts
    let nested = sym::flag("nested");
    write("here/m.avdl", &format!("protocol M {{ import idl \"{spell}\"; record L {{ }} }}"));
    write("top.avdl", "protocol Top { import idl \"here/m.avdl\"; }");
    if sym::flag("decoy") { write("sub/x.avdl", "protocol X { record Decoy { } }") }
    let mut c = avdl::Idl::new();
    for d in &dirs[1..=n] { c.import_dir(format!("{}/{d}", sym::root())); }
    match (c.convert(format!("{}/{}", sym::root(), if nested { "top.avdl" } else { "here/m.avdl" })), first) {
        (Ok(o), Some(i)) => { sym::reach("accepted"); check(names(&o.json) == [format!("{w}{i}"), "L".into()], "an import means another file than the first one on the search path") }
        (Ok(_), None) => check(false, "an import of a missing file is accepted"),
        (Err(_), Some(_)) => check(false, "an import of an existing file is rejected"),
        (Err(e), None) => { sym::reach("rejected"); check(format!("{e:?}").contains("x.avdl") || e.chain().any(|c| c.to_string().contains("x.avdl")), "a missing import is not named") }
    }
}
/// import directories anywhere, files that import their neighbours, decoys everywhere
pub fn import_dirs() {
    let w = word("w", 1);
    // where each import directory is, seen from the root; the importing file is here/m.avdl
    let d1 = sym::one_of("d1", &["inc", "here/inc", "here", "", "here/../inc", "inc/inc"]);
    let d2 = sym::one_of("d2", &["", "inc", "here/inc", "lib"]);
    let n = sym::pick("dirs", 3);
    let dirs = &[d1, d2][..n];
    let clean = |d: &str| -> String { match d { "here/../inc" => "inc".into(), d => d.to_string() } };
    let place = |d: &str, f: &str| if d.is_empty() { f.to_string() } else { format!("{d}/{f}") };
    // x.avdl, which imports y.avdl, in any of these; each says where it is
    let spots = ["here", "inc", "here/inc", "", "inc/inc", "lib"];
    let (mask, ymask) = (sym::pick("x", 6), sym::pick("y", 6));
    let has = |m: usize, i: usize| match m { 0 => i != 0, 1 => true, 2 => i == 1 || i == 3, 3 => i == 2 || i == 4, 4 => i == 0 || i == 1 || i == 5, _ => i == 5 };
    for (i, s) in spots.iter().enumerate() {
        if has(mask, i) { write(&place(s, "x.avdl"), &format!("protocol X {{ record {w}x{i} {{ }} import idl \"y.avdl\"; }}")) }
        if has(ymask, i) { write(&place(s, "y.avdl"), &format!("protocol Y {{ record {w}y{i} {{ }} }}")) }
    }
    let find = |m: usize, from: usize| std::iter::once(spots[from].to_string()).chain(dirs.iter().map(|d| clean(d))).find_map(|d| spots.iter().position(|s| *s == d).filter(|i| has(m, *i)));
    write("here/m.avdl", "protocol M { import idl \"x.avdl\"; record L { } }");
    let mut c = avdl::Idl::new();
    for d in dirs { c.import_dir(if d.is_empty() { sym::root().to_string() } else { format!("{}/{d}", sym::root()) }); }
    let x = find(mask, 0);
    let y = x.and_then(|x| find(ymask, x));
    match (c.convert(format!("{}/here/m.avdl", sym::root())), x, y) {
        (Ok(o), Some(x), Some(y)) => { sym::reach("accepted"); check(names(&o.json) == [format!("{w}x{x}"), format!("{w}y{y}"), "L".into()], "an import means another file than the first one on the search path") }
        (Ok(_), ..) => check(false, "an import of a missing file is accepted"),
        (Err(_), Some(_), Some(_)) => check(false, "an import of an existing file is rejected"),
        (Err(_), ..) => sym::reach("rejected"),
    }
}
/// files of similar names are files of their own
pub fn import_similar() {
    let w = sym::byte("c", b'a', b'z');
    let w = sym::text(vec![w]);
    sym::assume(w != "m" && w != "d");
    let names_ = [("idl", format!("{w}.avdl")), ("protocol", format!("{w}.avpr")), ("schema", format!("{w}.avsc")), ("idl", format!("{w}")), ("idl", format!("{w}.AVDL")), ("protocol", format!("{w}.avdl.avpr")), ("schema", format!("d/{w}.avsc")), ("idl", format!("d/{w}.avdl")), ("schema", format!("{w}.json")), ("idl", format!("{}.avdl", w.to_uppercase())), ("idl", format!("d/d/{w}.avdl"))];
    let (i, j) = (sym::pick("i", names_.len()), sym::pick("j", names_.len()));
    sym::assume(i != j);
    for k in [i, j] {
        let (kind, f) = &names_[k];
        write(f, &match *kind { "idl" => format!("protocol X{k} {{ record T{k} {{ }} }}"), "protocol" => json!({"protocol": "X", "types": [{"type": "record", "name": format!("T{k}"), "fields": []}], "messages": {}}).to_string(), _ => json!({"type": "record", "name": format!("T{k}"), "fields": []}).to_string() });
    }
    let via = sym::flag("via");
    let im = |k: usize| format!("import {} \"{}\"; ", names_[k].0, names_[k].1);
    if via { write("v.avdl", &format!("protocol V {{ {} }}", im(j))) }
    sym::assume(!via || w != "v");
    write("m.avdl", &format!("protocol M {{ {} {} }}", im(i), if via { "import idl \"v.avdl\";".to_string() } else { im(j) }));
    match convert("m.avdl") {
        Ok(o) => { sym::reach("accepted"); check(names(&o.json) == [format!("T{i}"), format!("T{j}")], "two imported files of similar names do not both count") }
        Err(e) => { sym::note(&format!("{e:?}")); check(false, "imports of files of similar names are rejected") }
    }
}
/// a message of a protocol's own hides an imported one of its name, all others are there
pub fn import_messages() {
    let (a, b) = (word("a", 1), word("b", 1));
    let kind = sym::pick("kind", 2);
    match kind {
        0 => write("i.avdl", &format!("protocol I {{ int {a}(); int other(); }}")),
        _ => write("i.avpr", &json!({"protocol": "I", "types": [], "messages": {a.clone(): {"request": [], "response": "int"}, "other": {"request": [], "response": "int"}}}).to_string()),
    }
    sym::assume(a != "other" && b != "other");
    let im = ["import idl \"i.avdl\";", "import protocol \"i.avpr\";"][kind];
    let first = sym::flag("first");
    write("m.avdl", &if first { format!("protocol M {{ {im} string {b}(); }}") } else { format!("protocol M {{ string {b}(); {im} }}") });
    match convert("m.avdl") {
        Ok(o) => {
            sym::reach("accepted");
            let m = &o.json["messages"];
            check(m[&b]["response"] == "string", "a protocol's own message is replaced by an imported one");
            check(m["other"]["response"] == "int" && (a == b || m[&a]["response"] == "int"), "an imported message is lost");
            check(m.as_object().unwrap().len() == if a == b { 2 } else { 3 }, "a message is invented");
        }
        Err(_) => check(a == b, "messages of two files are rejected"),
    }
}
/// an imported protocol brings what it says when it is compiled alone
pub fn import_same() {
    let w = word("w", 1);
    let space = |n: &str| sym::one_of(n, &["", "@namespace(\"a\") ", "@namespace(\"b\") "]);
    // what b imports: a message that b may have too, a type
    let kind = sym::pick("kind", 3);
    let (tail, im) = match kind {
        0 => (format!("{}protocol C {{ int {w}(); int other(); record T {{ }} }}", space("cns")), "import idl \"c.json\";"),
        1 => (json!({"protocol": "C", "namespace": sym::one_of("cns", &["", "a", "b"]), "types": [{"type": "record", "name": "T", "fields": []}], "messages": {w.clone(): {"request": [], "response": "int"}, "other": {"request": [], "response": "int"}}}).to_string(), "import protocol \"c.json\";"),
        _ => { write("c2.avdl", &format!("{}protocol C2 {{ int {w}(); int other(); record T {{ }} }}", space("cns"))); (format!("protocol C {{ import idl \"c2.avdl\"; {} }}", if sym::flag("middle") { format!("boolean {w}();") } else { String::new() }), "import idl \"c.json\";") }
    };
    write("c.json", &tail);
    let own = if sym::flag("same") { format!("string {w}();") } else { "string mine();".into() };
    let rec = sym::one_of("rec", &["record R { int i; }", "error E { }", ""]);
    let at = sym::pick("at", 3);
    let body = match at { 0 => format!("{im} {own} {rec}"), 1 => format!("{own} {im} {rec}"), _ => format!("{rec} {own} {im}") };
    write("b.avdl", &format!("{}protocol B {{ {body} }}", space("bns")));
    write("m.avdl", &format!("{}protocol M {{ import idl \"b.avdl\"; }}", space("mns")));
    let (b, m) = (convert("b.avdl"), convert("m.avdl"));
    match (&b, &m) {
        (Ok(b), Ok(m)) => { sym::reach("accepted"); Canon::of_protocol(&m.json).same(&Canon::of_protocol(&b.json)) }
        (Err(_), Err(_)) => sym::reach("rejected"),
        (Err(_), _) => check(false, "a protocol is rejected alone and accepted as an import"),
        (_, Err(e)) => { sym::note(&format!("{e:?}")); check(false, "a protocol is accepted alone and rejected as an import") }
    }
}
/// the same file under several spellings and kinds of path is one file
pub fn import_once() {
    let w = word("w", 1);
    let spell = |n: &str| sym::one_of(n, &["x", "./x", "d/../x", "d/link", "d/../d/link", "alias"]);
    write("d/y.avdl", "protocol Y { }");
    let kind = sym::pick("kind", 3);
    let ext = ["avdl", "avpr", "avsc"][kind];
    let word_ = ["idl", "protocol", "schema"][kind];
    match kind {
        0 => write("x.avdl", &format!("protocol X {{ record {w} {{ }} void {w}(); }} % ")),
        1 => write("x.avpr", &json!({"protocol": "X", "types": [{"type": "record", "name": w, "fields": []}], "messages": {w.clone(): {"request": [], "response": "null"}}}).to_string()),
        _ => write("x.avsc", &json!({"type": "record", "name": w, "fields": []}).to_string()),
    }
    link(&format!("../x.{ext}"), &format!("d/link.{ext}"));
    link(&format!("x.{ext}"), &format!("alias.{ext}"));
    let (a, b) = (spell("a"), spell("b"));
    let via = sym::flag("via");
    let second = if via { write("z.avdl", &format!("protocol Z {{ import {word_} \"{b}.{ext}\"; }}")); "import idl \"z.avdl\";".to_string() } else { format!("import {word_} \"{b}.{ext}\";") };
    write("m.avdl", &format!("protocol M {{ import {word_} \"{a}.{ext}\"; {second} }}"));
    match convert("m.avdl") {
        Ok(o) => {
            sym::reach("accepted");
            check(names(&o.json) == [w.clone()], "a file imported twice does not declare its types once");
            check(message_names(&o.json).len() == (kind < 2) as usize, "a file imported twice does not declare its messages once");
            check(o.warnings.len() == (kind == 0) as usize, "a file imported twice does not give its warnings once");
        }
        Err(e) => { sym::note(&format!("{e:?}")); check(false, "a file imported twice is rejected") }
    }
}
#[cfg(target_family = "wasm")]
fn link(to: &str, at: &str) { #[allow(deprecated)] std::fs::soft_link(to, format!("{}/{at}", sym::root())).unwrap() }
#[cfg(not(target_family = "wasm"))]
fn link(to: &str, at: &str) { let p = format!("{}/{at}", sym::root()); let _ = std::fs::remove_file(&p); std::os::unix::fs::symlink(to, p).unwrap() }

/// names undeclared in, or duplicated between, files
pub fn import_names() {
    let (w, v) = (sym::byte("w", b'A', b'Z'), sym::byte("v", b'A', b'Z'));
    let same = w == v;
    let (w, v) = (format!("Q{}", sym::text(vec![w])), format!("Q{}", sym::text(vec![v])));
    let kind = sym::pick("kind", 3);
    let imp = |n: &str| format!("import {};", ["idl \"N.avdl\"", "protocol \"N.avpr\"", "schema \"N.avsc\""][kind].replace('N', n));
    match sym::pick("case", 3) {
        0 => {
            // an imported file refers to v, the main file declares w
            let t = match sym::pick("wrap", 3) { 0 => json!(v), 1 => json!(["null", v]), _ => json!({"type": "map", "values": v}) };
            let in_msg = kind < 2 && sym::flag("message");
            let ts = match &t { Value::String(s) => s.clone(), Value::Array(_) => format!("union{{null,{v}}}"), _ => format!("map<{v}>") };
            match kind {
                0 => write("a.avdl", &if in_msg { format!("protocol A {{ void m(int i, {ts} p); }}") } else { format!("protocol A {{ record RA {{ {ts} f; }} }}") }),
                1 => write("a.avpr", &if in_msg { json!({"protocol": "A", "types": [], "messages": {"m": {"request": [{"name": "i", "type": "int"}, {"name": "p", "type": t}], "response": "null"}}}) } else { json!({"protocol": "A", "types": [{"type": "record", "name": "RA", "fields": [{"name": "f", "type": t}]}], "messages": {}}) }.to_string()),
                _ => write("a.avsc", &json!({"type": "record", "name": "RA", "fields": [{"name": "f", "type": t}]}).to_string()),
            }
            let own = format!("enum {w} {{ S }}");
            write("m.avdl", &if sym::flag("late") { format!("protocol M {{ {} {own} }}", imp("a")) } else { format!("protocol M {{ {own} {} }}", imp("a")) });
            match convert("m.avdl") {
                Ok(_) => { sym::reach("accepted"); check(same, "an undeclared name in an imported file is accepted") }
                Err(e) => { sym::reach("rejected"); check(!same, "a declared name used in an imported file is rejected"); check(e.to_string().contains(&v), "the undeclared name is not reported"); diag(&*e, 0) }
            }
        }
        1 => {
            // the main file, or an import of it, refers to v, declared in an imported file as w
            match kind { 0 => write("a.avdl", &format!("protocol A {{ fixed {w}(1); }}")), 1 => write("a.avpr", &json!({"protocol": "A", "types": [{"type": "fixed", "name": w, "size": 1}], "messages": {}}).to_string()), _ => write("a.avsc", &json!({"type": "fixed", "name": w, "size": 1}).to_string()) }
            let use_ = sym::one_of("use", &["record L { # f; }", "# m();", "void m(#[] p);"]).replace("#[]", &format!("array<{v}>")).replace('#', &v);
            if sym::flag("via") { write("u.avdl", &format!("protocol U {{ {use_} }}")); write("m.avdl", &format!("protocol M {{ {} import idl \"u.avdl\"; }}", imp("a"))) }
            else { write("m.avdl", &format!("protocol M {{ {} {use_} }}", imp("a"))) }
            match convert("m.avdl") {
                Ok(_) => { sym::reach("accepted"); check(same, "a name that no imported file declares is accepted") }
                Err(e) => { sym::reach("rejected"); check(!same, "a name declared in an imported file is rejected"); check(e.to_string().contains(&v), "the undeclared name is not reported"); diag(&*e, 0) }
            }
        }
        _ => {
            // both files declare a type
            write("a.avdl", &format!("protocol A {{ fixed {w}(1); }}"));
            let own = sym::one_of("own", &["enum # { S }", "record # { }", "fixed #(1);"]).replace('#', &v);
            if sym::flag("via") { write("b.avdl", &format!("protocol B {{ {own} }}")); write("m.avdl", "protocol M { import idl \"a.avdl\"; import idl \"b.avdl\"; }") }
            else { write("m.avdl", &if sym::flag("late") { format!("protocol M {{ import idl \"a.avdl\"; {own} }}") } else { format!("protocol M {{ {own} import idl \"a.avdl\"; }}") }) }
            match convert("m.avdl") {
                Ok(o) => { sym::reach("accepted"); check(!same, "a type declared in two files is accepted"); check(names(&o.json).len() == 2, "a type of one of two files is lost") }
                Err(e) => { sym::reach("rejected"); check(same, "types with different names in two files are rejected"); diag(&*e, 0) }
            }
        }
    }
}
/// diagnostics of imported files are about those files
pub fn import_diagnostics() {
    let w = word("w", 1);
    let wide = sym::one_of("wide", &["", "/* \u{e9}\u{1f600} */ ", "// \u{20ac}\r\n"]);
    let (t, a, b) = {
        let t = sym::one_of("template", &["protocol A { record R { <<#>> f; } }", "protocol A { record R { int x, # <<= \"z\">>; } }", "protocol A { record R { int <<>>} }", "protocol A { <<import>> idl \"#\"; }", "protocol A { fixed #(<<-1>>); }", "protocol A { void m(<<#>> p); }", "protocol A { record # { } <<enum #>> { A } }"]).replace('#', &w);
        let (a, b) = (t.find("<<").unwrap(), t.find(">>").unwrap());
        (format!("{wide}{}{}{}", &t[..a], &t[a + 2..b], &t[b + 2..]), a + wide.len(), b - 2 + wide.len())
    };
    write("d/a.avdl", &t);
    let deep = sym::flag("deep");
    if deep { write("d/z.avdl", "protocol Z { import idl \"a.avdl\"; }") }
    write("m.avdl", &format!("protocol M {{ record L {{ int i; }} import idl \"d/{}.avdl\"; }}", if deep { "z" } else { "a" }));
    match convert("m.avdl") {
        Ok(_) => check(false, "an erroneous imported file is accepted"),
        Err(e) => {
            sym::reach("rejected");
            // the diagnostic with a label is somewhere in the chain
            let mut found = None;
            let mut d: Option<&dyn Diagnostic> = Some(&*e);
            while let Some(x) = d {
                if let Some(mut l) = x.labels() { if let Some(l) = l.next() { found = Some((l.offset(), l.len(), x.source_code().map(|c| { let c = c.read_span(&(0, 0).into(), 0, 0).unwrap(); c.name().unwrap_or("").to_string() }))); break } }
                d = x.diagnostic_source();
            }
            let Some((o, l, n)) = found else { check(false, "an error in an imported file has no location"); return };
            sym::note(&format!("{o} {l} {n:?} {a} {b}"));
            check(n.is_some_and(|n| n.ends_with("d/a.avdl")), "an error in an imported file is attributed to another file");
            check(o >= a.saturating_sub((a == b) as usize) && o <= b && o + l <= b.max(a + 1), "an error in an imported file marks another place");
        }
    }
}

/// an undefined name in an imported JSON file marks the import of that file
pub fn import_blame() {
    let w = word("w", 1);
    // three JSON files; some refer to an undefined name; the last one may be imported by another IDL file
    let kinds = [sym::pick("k0", 2), sym::pick("k1", 2), sym::pick("k2", 2)];
    let bad = [sym::flag("b0"), sym::flag("b1"), sym::flag("b2")];
    let nested = sym::flag("nested");
    let wide = sym::one_of("wide", &["", "/* \u{e9}\u{1f600} */ ", "\r\n"]);
    let t = match sym::pick("wrap", 3) { 0 => json!(format!("U{w}")), 1 => json!(["null", format!("U{w}")]), _ => json!({"type": "map", "values": {"type": "array", "items": format!("U{w}")}}) };
    let ext = ["avsc", "avpr"];
    for i in 0..3 {
        let rec = json!({"type": "record", "name": format!("T{i}"), "fields": [{"name": "f", "type": if bad[i] { t.clone() } else { json!("int") }}]});
        let doc = if kinds[i] == 0 { rec } else { json!({"protocol": "B", "types": [rec], "messages": {}}) };
        write(&format!("{i}.{}", ext[kinds[i]]), &doc.to_string());
    }
    let im = |i: usize| format!("import {} \"{i}.{}\";", ["schema", "protocol"][kinds[i]], ext[kinds[i]]);
    let mut main = format!("{wide}protocol M {{ record L {{ int i; }} {} {} ", im(0), im(1));
    let second = format!("{wide}protocol I {{ {} }}", im(2));
    main += &if nested { write("i.avdl", &second); "import idl \"i.avdl\"; }".to_string() } else { format!("{} }}", im(2)) };
    write("m.avdl", &main);
    match convert("m.avdl") {
        Ok(_) => { sym::reach("accepted"); check(!bad.contains(&true), "an undefined name in an imported file is accepted") }
        Err(e) => {
            sym::reach("rejected");
            check(bad.contains(&true), "a valid import is rejected");
            diag(&*e, 0);
            let Some(l) = e.labels().and_then(|mut l| l.next()) else { check(false, "an undefined name in an imported file has no location"); return };
            let code = e.source_code().unwrap().read_span(&(0, 0).into(), 0, 0).unwrap();
            let file = code.name().unwrap_or("").to_string();
            let other = file.ends_with("i.avdl");
            let src = if other { &second } else { &main };
            let hit = (0..3).any(|i| bad[i] && (other == (nested && i == 2)) && { let a = src.find(&im(i)).unwrap(); l.offset() >= a && l.offset() + l.len() <= a + im(i).len() });
            check(hit, "an undefined name in an imported file marks the import of another file");
        }
    }
}
