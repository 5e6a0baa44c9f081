//! C23: a compiler object answers every call as a new one would, warnings included.
use super::{determ::{tell, told, told_schemata}, sym, util::*};

const SRC: &[&str] = &[
    "protocol P { record # { int i; } void m(# p); }",
    "protocol P { record # { int i; /** w */ } }",
    "protocol P { record R { # f; /** w */ } }",
    "protocol P { record # { int } }",
    "record # { int i; /** w */ }",
    "schema #; enum # { A } /** w */",
    "protocol P { /** w */ import idl \"i.avdl\"; record L { # f; } }",
    "protocol P { import schema \"i.avsc\"; import idl \"i.avdl\"; import idl \"no.avdl\"; /** w */ }",
    "protocol P { import protocol \"i.avpr\"; import schema \"i.avsc\"; record L { X f; } void m(); }",
    "",
];
fn setup(w: &str) {
    write("i.avdl", &format!("protocol I {{ record {w} {{ /** w */ }} void {w}(); }}"));
    write("i.avsc", "{\"type\": \"record\", \"name\": \"X\", \"fields\": []}");
    write("i.avpr", "{\"protocol\": \"I\", \"types\": [{\"type\": \"enum\", \"name\": \"Y\", \"symbols\": []}], \"messages\": {\"m\": {\"request\": [], \"response\": \"int\"}}}");
}
fn drained(ws: Vec<miette::Report>) -> String { let mut s = String::new(); for w in ws { tell(&*w, &mut s) } s }
/// one call: text or file (text 10: a file that does not exist)
fn call(c: &mut avdl::Idl, src: usize, file: bool, w: &str) -> String {
    let text = SRC.get(src).unwrap_or(&"").replace('#', w);
    let r = if file {
        if src < SRC.len() { write("m.avdl", &text); c.convert(format!("{}/m.avdl", sym::root())) } else { c.convert(format!("{}/none.avdl", sym::root())) }
    } else { c.convert_str(leak(text)) };
    sym::reach(if r.is_ok() { "accepted" } else { "rejected" });
    told(&r)
}
fn call_schemata(c: &mut avdl::Idl2Schemata, src: usize, file: bool, w: &str) -> String {
    let text = SRC.get(src).unwrap_or(&"").replace('#', w);
    let r = if file {
        if src < SRC.len() { write("m.avdl", &text); c.extract(format!("{}/m.avdl", sym::root())) } else { c.extract(format!("{}/none.avdl", sym::root())) }
    } else { c.extract_str(leak(text)) };
    sym::reach(if r.is_ok() { "accepted" } else { "rejected" });
    told_schemata(&r)
}
/// one or two calls, then another one: as on a new object
pub fn reuse() {
    let w = word("w", 1);
    setup(&w);
    let (idl, drain) = (sym::flag("idl"), sym::flag("drain"));
    let kinds: Vec<(usize, bool)> = (0..2).map(|_| { let f = sym::flag("file"); (sym::pick("src", SRC.len() + f as usize), f) }).collect();
    let v = if sym::flag("other") { w.replace('q', "k") } else { w.clone() };
    let (mut a, mut b);
    if idl {
        let (mut c, mut d) = (avdl::Idl::new(), avdl::Idl::new());
        call(&mut c, kinds[0].0, kinds[0].1, &v);
        if drain { c.drain_warnings(); check(c.drain_warnings().is_empty(), "drained warnings come again") }
        a = call(&mut c, kinds[1].0, kinds[1].1, &w);
        b = call(&mut d, kinds[1].0, kinds[1].1, &w);
        a += &drained(c.drain_warnings());
        b += &drained(d.drain_warnings());
    } else {
        let (mut c, mut d) = (avdl::Idl2Schemata::new(), avdl::Idl2Schemata::new());
        call_schemata(&mut c, kinds[0].0, kinds[0].1, &v);
        if drain { c.drain_warnings(); check(c.drain_warnings().is_empty(), "drained warnings come again") }
        a = call_schemata(&mut c, kinds[1].0, kinds[1].1, &w);
        b = call_schemata(&mut d, kinds[1].0, kinds[1].1, &w);
        a += &drained(c.drain_warnings());
        b += &drained(d.drain_warnings());
    }
    if a != b { sym::note(&format!("{a}\n{b}")) }
    check(a == b, "an earlier call changes the answer of a later one");
}
/// the warnings of a call are all there, whether it succeeds or fails later on
pub fn warnings_kept() {
    let w = word("w", 1);
    setup(&w);
    // each part gives the number of warnings it adds before the end
    let mut body = String::new();
    let mut n = 0;
    for i in 0..3 {
        match sym::pick("part", 4) {
            0 => { body += &format!("record F{i} {{ /** w */ }} "); n += 1 }
            1 => { if body.contains("import") { continue } body += "import idl \"i.avdl\"; "; n += 1 }
            2 => { body += "% "; n += 1 }
            _ => {}
        }
    }
    let end = sym::pick("end", 6);
    body += ["record Z { int i; }", "record Z { Undefined u; }", "record Z { } record Z { }", "import idl \"none.avdl\";", "import schema \"bad.avsc\";", "import idl \"bad.avdl\";"][end];
    write("bad.avsc", "{");
    write("bad.avdl", "protocol {");
    let file = sym::flag("file");
    let src = leak(format!("protocol P {{ {} }}", body));
    write("m.avdl", src);
    let (ok, ws) = if sym::flag("idl") {
        let mut c = avdl::Idl::new();
        let r = if file { c.convert(format!("{}/m.avdl", sym::root())) } else { c.convert_str(src) };
        match r { Ok(o) => (true, o.warnings), Err(_) => (false, c.drain_warnings()) }
    } else {
        let mut c = avdl::Idl2Schemata::new();
        let r = if file { c.extract(format!("{}/m.avdl", sym::root())) } else { c.extract_str(src) };
        match r { Ok(o) => (true, o.warnings), Err(_) => (false, c.drain_warnings()) }
    };
    sym::reach(if ok { "accepted" } else { "rejected" });
    sym::note(&format!("{src}: {ok} {}, want {n}", ws.len()));
    check(ok == (end == 0), "an erroneous file is accepted, or a valid one rejected");
    check(ws.len() == n, "warnings are lost or repeated");
}
/// a directory: each file on its own, in name order, warnings of all
pub fn directory() {
    let w = word("w", 1);
    let names = ["d/a.avdl", "d/b/a.avdl", "d/b/z.txt", "d/c.avdl"];
    let mut want: Vec<String> = Vec::new();
    let (mut n, mut failed) = (0, false);
    std::fs::create_dir_all(format!("{}/d", sym::root())).unwrap();
    for (i, f) in names.iter().enumerate() {
        let k = sym::pick("kind", 5);
        let used = f.ends_with(".avdl") && k < 4 && !failed;
        match k {
            0 => write(f, &format!("protocol P {{ enum {w} {{ A }} record R{i} {{ {w} f; }} }}")),
            1 => { write(f, &format!("record {w} {{ }} /** w */")); n += used as usize }
            2 => { write(f, "/** w */ protocol P { } /** w */"); n += used as usize }
            3 => { write(f, &format!("protocol P {{ /** w */ }} record {w} {{ "));  if used { failed = true } }
            _ => {}
        }
        if used { match k { 0 => { want.push(w.clone()); want.push(format!("R{i}")) } 1 => want.push(w.clone()), _ => {} } }
    }
    let mut c = avdl::Idl2Schemata::new();
    match c.extract(format!("{}/d", sym::root())) {
        Ok(o) => {
            sym::reach("accepted");
            check(!failed, "a directory with an erroneous file is accepted");
            check(o.schemas.iter().map(|s| s.name.clone()).collect::<Vec<_>>() == want, "a directory does not give the types of its files, file by file");
            check(o.schemas.iter().all(|s| !s.name.starts_with('R') || s.schema["fields"][0]["type"]["symbols"][0] == "A"), "a schema of a directory does not stand alone");
            check(o.warnings.len() == n, "warnings of a directory are lost or repeated");
        }
        Err(_) => { sym::reach("rejected"); check(failed, "a valid directory is rejected"); check(c.drain_warnings().len() >= n, "warnings are lost when a later file fails") }
    }
}
