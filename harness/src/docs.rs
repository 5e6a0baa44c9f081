//! C18: documentation belongs to what it stands before, without its decoration.
use super::{sym, util::*};
use miette::Diagnostic;
use serde_json::Value;

fn hspace(c: char) -> bool { c == ' ' || c == '\t' }
/// Avro's rule, line by line: `t` is the text between `/**` and `*/`.
pub fn clean(t: &str) -> Option<String> {
    let t = t.trim_matches(|c: char| hspace(c) || c == '\n' || c == '\r' || c == '\u{c}');
    if t.is_empty() { return None }
    // lines with their terminators
    let mut lines: Vec<(String, &str)> = Vec::new();
    for l in t.split_inclusive('\n') {
        let (b, e) = if let Some(b) = l.strip_suffix("\r\n") { (b, "\r\n") } else if let Some(b) = l.strip_suffix('\n') { (b, "\n") } else { (l, "") };
        lines.push((b.to_string(), e));
    }
    let blank = |l: &str| l.chars().all(hspace);
    for stars in ["**", "*"] {
        let fits = lines[0].0.starts_with(stars) && lines[1..].iter().all(|(l, _)| blank(l) || l.trim_start_matches(hspace).starts_with(stars));
        if fits {
            let mut out = String::new();
            for (i, (l, e)) in lines.iter().enumerate() {
                if i > 0 && blank(l) { out += l } else {
                    let l = &l.trim_start_matches(hspace)[stars.len()..];
                    out += l.strip_prefix(hspace).unwrap_or(l);
                }
                out += e;
            }
            return Some(out);
        }
    }
    let mut indent: Option<String> = None;
    for (l, _) in &lines[1..] {
        if blank(l) { continue }
        let i: String = l.chars().take_while(|c| hspace(*c)).collect();
        indent = Some(match indent { None => i, Some(o) => o.chars().zip(i.chars()).take_while(|(a, b)| a == b).map(|x| x.0).collect() });
    }
    let indent = indent.unwrap_or_default();
    let mut out = String::new();
    for (i, (l, e)) in lines.iter().enumerate() {
        out += if i > 0 { l.strip_prefix(&indent).unwrap_or(l) } else { l };
        out += e;
    }
    Some(out)
}
fn body(t: &str) {
    let out = idl(format!("protocol P {{ /**{t}*/ record R {{ int i; }} }}"));
    match out {
        Ok(o) => {
            sym::reach("accepted");
            let want = clean(t);
            let got = o.json["types"][0].get("doc").and_then(|d| d.as_str());
            sym::note(&format!("{t:?} -> {got:?}, want {want:?}"));
            check(got == want.as_deref(), "the documentation is not the comment's text without its decoration");
            check(o.warnings.is_empty(), "documentation of a declaration gives a warning");
        }
        Err(_) => check(false, "a documented declaration is rejected"),
    }
}
/// any short text
pub fn doc_text() {
    let t: String = (0..sym::pick("len", 6)).map(|_| sym::one_of("piece", &["*", " ", "\t", "\n", "\r\n", "x", "\u{e9}"])).collect();
    // `/**/` is the empty comment; `/***/` contains `*/` at once
    body(&t);
}
fn lines(leads: &[&str], marks: &[&str], firsts: &[&str], last: bool) {
    let w = lower("w", 1);
    let nl = if sym::flag("crlf") { "\r\n" } else { "\n" };
    let mut t = format!("{}{}{w}", firsts[sym::pick("first", firsts.len())], marks[sym::pick("m", marks.len())]);
    for i in 1..3 { t += &format!("{nl}{}{}{}", leads[sym::pick("lead", leads.len())], marks[sym::pick("m", marks.len())], if i == 1 && sym::flag("blank") { String::new() } else { format!("z{w}") }) }
    if last && sym::flag("last") { t += nl; t += " "; }
    body(&t);
}
/// lines with any decoration
pub fn doc_lines() { lines(&["", " ", "\t"], &["", "*", "**", "* ", "***"], &["", "\n "], false) }
pub fn doc_lines_all() { lines(&["", " ", "  ", "\t", " \t", "    "], &["", "*", "**", "***", "* ", "**  ", "*\t"], &["", " ", "\n", "\n "], true) }
/// any characters in one line
pub fn doc_chars() {
    let c = sym::text(sym::ascii("c", 2));
    sym::assume(!c.contains("*/") && !c.starts_with('/') && !c.ends_with('*'));
    body(&format!(" a{c}b"));
}
/// where `%` stands, and what carries the documentation ("" for nothing)
const PLACES: &[(&str, &str)] = &[
    ("% protocol P { }", "/doc"), ("protocol P { % record R { } }", "/types/0/doc"), ("protocol P { % enum E { A, B } }", "/types/0/doc"), ("protocol P { % fixed F(1); }", "/types/0/doc"), ("protocol P { % error X { } }", "/types/0/doc"),
    ("protocol P { enum A { } % record R { } enum B { } }", "/types/1/doc"), ("protocol P { record R { % int f; } }", "/types/0/fields/0/doc"), ("protocol P { record R { int % f; } }", "/types/0/fields/0/doc"), ("protocol P { record R { int a; % int f; int b; } }", "/types/0/fields/1/doc"),
    ("protocol P { record R { int a, % b, c; } }", "/types/0/fields/1/doc"), ("protocol P { record R { % @x(1) int f; } }", "/types/0/fields/0/doc"), ("protocol P { % @x(1) record R { } }", "/types/0/doc"), ("% @namespace(\"n\") protocol P { }", "/doc"),
    ("protocol P { % void m(); }", "/messages/m/doc"), ("protocol P { void a(); % int m(int i); }", "/messages/m/doc"), ("protocol P { void m(% int p); }", "/messages/m/request/0/doc"), ("protocol P { void m(int a, % int p); }", "/messages/m/request/1/doc"), ("protocol P { void m(int % p); }", "/messages/m/request/0/doc"),
    ("protocol P { % @x(1) void m(); }", "/messages/m/doc"), ("protocol P { record R { % array<int> f; } }", "/types/0/fields/0/doc"), ("schema R; % record R { }", "/doc"), ("namespace n; schema E; % enum E { A }", "/doc"),
    // nowhere
    ("protocol % P { }", ""), ("protocol P % { }", ""), ("protocol P { } %", ""), ("protocol P { % }", ""), ("protocol P { record % R { } }", ""), ("protocol P { record R % { } }", ""), ("protocol P { record R { % } }", ""), ("protocol P { record R { int f; % } }", ""), ("protocol P { record R { int f %; } }", ""),
    ("protocol P { record R { int f = % 1; } }", ""), ("protocol P { record R { int f % = 1; } }", ""), ("protocol P { enum E { % A, B } }", ""), ("protocol P { enum E { A, % B } }", ""), ("protocol P { enum E { A } = % A; }", ""), ("protocol P { fixed F(% 1); }", ""), ("protocol P { @x(1) % record R { } }", ""), ("protocol P { @x(%1) record R { } }", ""),
    ("protocol P { record R { array<% int> f; } }", ""), ("protocol P { record R { union { % null, int } f; } }", ""), ("protocol P { void % m(); }", ""), ("protocol P { void m(%); }", ""), ("protocol P { error X { } void m() % throws X; }", ""), ("protocol P { void m() % oneway; }", ""), ("protocol P { void m() %; }", ""), ("schema % int;", ""), ("% schema int;", ""), ("namespace % n; schema int;", ""),
];
/// documentation before, after and inside every construct
pub fn doc_place() {
    let w = lower("w", 2);
    let (t, at) = sym::one_of("place", PLACES);
    let (pre, post) = (sym::one_of("pre", &["", "/* \u{e9}\u{1f600} */ ", "// \u{20ac}\r\n"]), sym::one_of("post", &["", " /**/ ", " /* c */ ", " // c\n"]));
    let doc = format!("/** {w} */");
    let with = format!("{pre}{}", t.replace('%', &format!(" {doc}{post} ")));
    let (a, b) = (idl(with.clone()), idl(t.replace('%', "")));
    let (a, b) = match (a, b) { (Ok(a), Ok(b)) => (a, b), (a, _) => { check(a.is_err(), "documentation makes a difference"); check(false, "a documented file is rejected"); return } };
    sym::reach("accepted");
    let mut j = a.json;
    if at.is_empty() {
        check(j == b.json, "documentation that belongs to nothing changes the output");
        check(a.warnings.len() == 1, "documentation that belongs to nothing does not give one warning");
        let l = a.warnings[0].labels().and_then(|mut l| l.next()).map(|l| (l.offset(), l.len()));
        sym::note(&format!("{with:?} {l:?}"));
        check(l == Some((with.find(&doc).unwrap(), doc.len())), "a warning does not mark the comment it is about");
    } else {
        check(a.warnings.is_empty(), "documentation of a declaration gives a warning");
        check(j.pointer(at) == Some(&st(&w)), "documentation is lost");
        let parent = j.pointer_mut(&at[..at.len() - 4]).unwrap();
        parent.as_object_mut().unwrap().remove("doc");
        check(j == b.json, "documentation changes something else");
    }
}
/// several comments before a declaration: the nearest counts
pub fn doc_many() {
    let w = lower("w", 1);
    let mut src = String::new();
    let (mut last, mut n) = (None, 0);
    for i in 0..3 {
        match sym::pick("kind", 5) {
            0 => { src += &format!("/** {w}{i} */ "); last = Some(format!("{w}{i}")); n += 1 }
            1 => src += &format!("/* {w} */"),
            2 => src += &format!("// {w} /* **\n"),
            3 => { src += "/** */ "; last = Some(String::new()); n += 1 }
            _ => {}
        }
    }
    // the empty comment only at the end: trivia_empty_comment
    if sym::flag("empty") { src += "/**/" }
    let t = sym::one_of("at", &["protocol P { D record R { int i; } }", "protocol P { enum E { } D fixed R(1); }"]);
    match idl(t.replace('D', &src)) {
        Ok(o) => {
            sym::reach("accepted");
            let ts = types(&o.json);
            let got = ts[ts.len() - 1].get("doc");
            let want = match last { Some(s) if !s.is_empty() => Some(Value::String(s)), _ => None };
            check(got == want.as_ref(), "a declaration's documentation is not the nearest comment");
            check(o.warnings.len() == if n == 0 { 0 } else { n - 1 }, "comments that document nothing do not give one warning each");
        }
        Err(_) => check(false, "a commented declaration is rejected"),
    }
}
/// documentation of a declaration and of its variables: each variable has its own or else the declaration's
pub fn doc_vars() {
    let w = lower("w", 1);
    let doc = |n: &str| if sym::flag(n) { (format!("/** {w}{n} */"), Some(format!("{w}{n}"))) } else { (String::new(), None) };
    let (d, x, y, z) = (doc("d"), doc("x"), doc("y"), doc("z"));
    let kind = sym::pick("kind", 4);
    let pre = sym::one_of("pre", &["", "/** r */ string r;", "int r, /** r */ s;"]);
    let ann = sym::one_of("ann", &["", "@k(1) "]);
    let (vars, src): (Vec<&(String, Option<String>)>, String) = match kind {
        0 => (vec![&x, &y, &z], format!("protocol P {{ record R {{ {pre} {} int {}{ann}a, {}{ann}b = 3, {}c; }} }}", d.0, x.0, y.0, z.0)),
        1 => (vec![&x, &y], format!("protocol P {{ error R {{ {pre} {} array<string> {}{ann}a = [], {}b; int c; }} }}", d.0, x.0, y.0)),
        2 => (vec![&x], format!("protocol P {{ void m(int q, {} int? {}{ann}a = 1, int c); }}", d.0, x.0)),
        _ => (vec![&x], format!("schema R; record R {{ {pre} {} int {}{ann}a; string c; }}", d.0, x.0)),
    };
    let out = must(src, "a documented variable is rejected");
    sym::reach("accepted");
    let list = match kind { 2 => &out["messages"]["m"]["request"], 3 => &out["fields"], _ => &out["types"][0]["fields"] };
    let Some(list) = list.as_array() else { check(false, "fields are lost"); return };
    let at = list.iter().position(|f| f["name"] == "a").unwrap_or(0);
    for (i, v) in vars.iter().enumerate() {
        let want = v.1.as_ref().or(d.1.as_ref());
        check(list[at + i].get("doc") == want.map(|s| st(s)).as_ref(), "a variable does not have its own documentation or that of its declaration");
    }
    for f in &list[at + vars.len()..] { check(f.get("doc").is_none(), "documentation reaches a field it does not belong to") }
}
