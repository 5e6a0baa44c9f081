//! C31: what the explanation of a syntax error says is so, and correct text around the error does not change it.
use super::{sym, util::*};
use miette::Diagnostic;

/// message and label without their position, help, range, number of further errors
#[derive(PartialEq, Debug)]
struct Told { message: String, label: String, help: String, at: usize, len: usize, more: usize }
fn bare(s: &str) -> String {
    if let Some(r) = s.strip_prefix("line ") {
        let r = r.trim_start_matches(|c: char| c.is_ascii_digit());
        if let Some(r) = r.strip_prefix(':') { return r.trim_start_matches(|c: char| c.is_ascii_digit()).trim_start().to_string() }
    }
    s.to_string()
}
fn told(e: &miette::Report) -> Told {
    let l = e.labels().and_then(|mut l| l.next());
    Told {
        message: bare(&e.chain().last().map(|m| m.to_string()).unwrap_or_default()),
        label: bare(l.as_ref().and_then(|l| l.label()).unwrap_or("")),
        help: e.help().map(|h| h.to_string()).unwrap_or_default(),
        at: l.as_ref().map_or(usize::MAX, |l| l.offset()),
        len: l.as_ref().map_or(0, |l| l.len()),
        more: e.related().map_or(0, |r| r.count()),
    }
}
/// tokens with their offsets
type Toks = Vec<(usize, String)>;
fn quoted<'a>(s: &'a str, before: &str, end: &str) -> Option<&'a str> {
    let i = s.find(before)? + before.len();
    let j = s[i..].rfind(end)?;
    Some(&s[i..i + j])
}
fn upto<'a>(s: &'a str, before: &str, end: &str) -> Option<&'a str> {
    let i = s.find(before)? + before.len();
    let j = s[i..].find(end)?;
    Some(&s[i..i + j])
}
const TYPES: &[&str] = &["null", "boolean", "int", "long", "float", "double", "string", "bytes", "date", "time_ms", "timestamp_ms", "local_timestamp_ms", "uuid", "void"];
/// is what the error says true of the tokens?
fn truth(t: &Told, toks: &Toks) {
    let i = toks.iter().position(|x| x.0 == t.at);
    let tok = |k: isize| -> &str { i.and_then(|i| usize::try_from(i as isize + k).ok()).and_then(|k| toks.get(k)).map_or("", |x| &x.1) };
    let open = |n: usize| { let mut s: Vec<usize> = vec![]; for (k, x) in toks[..n].iter().enumerate() { if x.1 == "{" { s.push(k) } else if x.1 == "}" { s.pop(); } } s };
    let kind = |k: usize| -> &str {
        let back = |d: usize| k.checked_sub(d).map_or("", |k| toks[k].1.as_str());
        match (back(2), back(1)) { (_, "union") => "union", ("record", _) | (_, "record") => "record", ("error", _) | (_, "error") => "error record", ("enum", _) | (_, "enum") => "enum", ("protocol", _) | (_, "protocol") => "protocol", _ => "" }
    };
    let m = t.message.as_str();
    if t.label.contains("is never closed") {
        sym::reach("unclosed");
        check(tok(0) == "{" && !open(toks.len()).is_empty(), "a brace is called unclosed although every brace is closed");
        let said = upto(&t.label, "this ", " is never").unwrap_or("");
        check(said == "`{`" || said == kind(i.unwrap_or(0)), "the construct of an unclosed brace is called something else");
    } else if m.contains("is missing its value") {
        sym::reach("value");
        check(upto(m, "annotation `@", "`") == Some(tok(-1)) && tok(-2) == "@" && tok(0) != "(", "an annotation without a value is given another name");
        check(upto(m, "-- use `@", "(") == Some(tok(-1)), "an annotation without a value is given another name");
    } else if m.contains("unexpected `@` before") {
        check(upto(m, "before `", "`") == Some(tok(-1)) && tok(-2) == "@", "an `@` is said to stand before a keyword that is not there");
    } else if m.contains("trailing comma") {
        sym::reach("comma");
        check(tok(0) == "," && tok(1) == "}" && open(i.unwrap_or(0)).last().is_some_and(|k| kind(*k) == "enum"), "a comma is called the trailing comma of an enum although it is not");
        if let Some(n) = upto(&t.help, "after `", "`") { check(n == tok(-1).trim_matches('`'), "a trailing comma is said to stand after another symbol") }
    } else if let Some(k) = upto(m, "expected name after `", "`") {
        sym::reach("name");
        check(tok(0) == "{" && tok(-1) == k, "a name is said to be missing where none is");
    } else if m.contains("union must contain") {
        sym::reach("union");
        check(tok(0) == "union" && tok(1) == "{" && tok(2) == "}", "a union is called empty although it is not");
    } else if m.contains("type requires a type parameter") {
        sym::reach("parameter");
        check(upto(m, "`", "`") == Some(tok(0)) && tok(1) == "<" && tok(2) == ">", "a type is said to lack its parameter although it does not");
    } else if m.contains("fixed type requires an integer size") {
        sym::reach("size");
        let k = toks.iter().position(|x| x.1 == "(" && x.0 + 1 == t.at).unwrap_or(0);
        check(k >= 2 && toks[k - 2].1 == "fixed" && toks.get(k + 1).is_some_and(|x| !x.1.starts_with(|c: char| c.is_ascii_digit())), "a size is said to be missing where none is");
        check(upto(m, "use `fixed ", "(") == Some(&toks[k.saturating_sub(1)].1), "another fixed type is said to lack its size");
    } else if m.contains("missing kind specifier") {
        sym::reach("kind");
        check(tok(0).starts_with('"') && tok(-1) == "import", "an import is said to lack its kind although it does not");
    } else if let Some(w) = upto(m, "unrecognized `", "`") {
        sym::reach("misspelt");
        check(tok(0) == w, "a word is called misspelt at another place");
        let k = quoted(m, "did you mean `", "`").unwrap_or("");
        check(k != w && !TYPES.contains(&k), "a type name is called a misspelt keyword");
        check(!toks.windows(2).any(|p| ["record", "enum", "error", "fixed"].contains(&p[0].1.as_str()) && p[1].1 == w), "the name of a declared type is called a misspelt keyword");
    } else if let Some(w) = upto(m, "unexpected token `", "`") {
        sym::reach("unexpected");
        check(w == tok(0), "an unexpected token is marked at another place");
    } else if let Some(w) = m.strip_prefix("unexpected '").and_then(|m| m.find("' expected").map(|e| &m[..e])) {
        sym::reach("unexpected");
        check(w == tok(0), "an unexpected token is marked at another place");
    } else if m.contains("end of file") {
        sym::reach("end");
        let last = toks.last().map_or(0, |x| x.0 + x.1.len());
        check(t.at + 1 >= last, "the end of the file is said to come too early before the end of the file");
    } else { sym::reach("other"); sym::note(&format!("{t:?}")) }
}
const DOC: &str = "@|namespace|(|\"a\"|)| |protocol| |P| |{| |enum| |Enu| |{| |A|,| |`B`| |}| |record| |Recor| |{| |union|{|null|,| |Enu|}| |u|;| |array|<|map|<|int|>|>| |m| |=| |[|]|;| |int| |i| |=| |3|;| |map|<|int|>| |o| |=| |{|\"a\"|:|1|}|;| |}| |fixed| |F|(|4|)|;| |error| |X| |{| |}| |import| |idl| |\"i.avdl\"|;| |@|k|(|1|)| |int| |f|(|Recor| |r|,| |int| |i|)| |throws| |X|;| |void| |g|(|)| |oneway|;| |}";
const WORDS: &[&str] = &["{", "}", ",", ";", "(", ")", "@", "=", "x", "record", "enum", "fixed", "Recor", "5", "<", ">", "error", "union", "map", "import", "Enu", "\"s\"", "uni", "Maps"];
fn edited(words: &[&str]) {
    let doc: Vec<&str> = DOC.split('|').filter(|p| *p != " ").collect();
    let at = sym::pick("at", doc.len());
    let comment = sym::one_of("comment", &["", "/* } { enum Z { @q( union { */", "// } } record `\" \n"]);
    let name = sym::text(vec![sym::byte("n", b'w', b'z')]);
    let mut toks: Vec<String> = doc.iter().map(|s| if *s == "o" { name.clone() } else { s.to_string() }).collect();
    let mut gap = at;
    let word = || match sym::one_of("word", words) { "x" => name.clone(), w => w.to_string() };
    match sym::pick("edit", 4) {
        0 => { toks.remove(at); }
        1 => { toks.insert(at, toks[at].clone()); gap = at + 1 }
        2 => { toks[at] = word(); gap = at + 1 }
        _ => toks.insert(at, word()),
    }
    write("i.avdl", "@namespace(\"a\") protocol I { }");
    let mut out = String::new();
    let mut list: Toks = vec![];
    for (i, t) in toks.iter().enumerate() {
        if i == gap { out += comment }
        list.push((out.len(), t.clone()));
        out += t;
        out.push(' ');
    }
    match idl(out.clone()) {
        Ok(_) => sym::reach("accepted"),
        Err(e) => { let t = told(&e); sym::note(&format!("{t:?}")); truth(&t, &list) }
    }
}
/// one token of a protocol is left out, doubled, replaced or put in, with or without a comment there
pub fn advice_edit() { edited(WORDS) }

/// an annotation with an arbitrary name lacks its value
pub fn advice_annotation() {
    let w = word("w", 2);
    let name = match sym::pick("shape", 6) { 0 => w, 1 => format!("{}{w}", sym::one_of("kw", &["error", "record", "enum", "fixed", "schema", "import", "protocol"])), 2 => format!("{w}{}", sym::one_of("kw", &["error", "int", "date", "string", "union", "map"])), 3 => format!("a.{w}-c"), 4 => format!("{w}\u{e9}"), _ => sym::one_of("kw", &["order", "aliases", "namespace", "logicalType"]).to_string() };
    let t = sym::one_of("template", &["@N| |protocol| |P| |{| |}", "protocol| |P| |{| |@N| |record| |R| |{| |}| |}", "protocol| |P| |{| |@|a|(|1|)| |@N| |enum| |E| |{| |A| |}| |}", "protocol| |P| |{| |@N| |Foo| |m|(|)|;| |}", "protocol| |P| |{| |@N| |local_timestamp_ms| |m|(|)|;| |}", "protocol| |P| |{| |@N| |@|a|(|1|)| |fixed| |F|(|1|)|;| |}", "protocol| |P| |{| |@N| |void| |m|(|)|;| |}", "protocol| |P| |{| |@N| |union|{|null|}| |m|(|)|;| |}"]);
    let gap = sym::one_of("gap", &[" ", "/* @x */", "\n// @y\n", "/*a*/ "]);
    let mut out = String::new();
    let mut list: Toks = vec![];
    for p in t.split('|') {
        if p == " " { out += if list.last().is_some_and(|x| x.1 == name) { gap } else { " " }; continue }
        for p in if p == "@N" { vec!["@", name.as_str()] } else { vec![p] } { list.push((out.len(), p.to_string())); out += p }
    }
    match idl(out) {
        Ok(_) => check(false, "an annotation without a value is accepted"),
        Err(e) => {
            let t = told(&e);
            sym::note(&format!("{t:?}"));
            truth(&t, &list);
            check(t.message.contains(&format!("`@{name}` is missing its value")) || list.iter().any(|x| x.1 == name && ["error", "record", "enum", "fixed", "schema", "import", "protocol"].contains(&x.1.as_str())), "an annotation without a value is not called that");
        }
    }
}

/// faults after and between correct text
pub fn advice_context() {
    const T: &[&str] = &[
        "record| |R| |{| |union| |{| |}| |u|;| |}", "record| |R| |{| |array| |<| |>| |u|;| |}", "record| |R| |{| |map| |<| |>| |u|;| |}", "fixed| |W| |(| |x| |)|;", "record| |{| |int| |i|;| |}", "enum| |W| |{| |A|,| |B|,| |}",
        "record| |R| |{| |union|{|int|,|}| |u|;| |}", "record| |R| |{| |map|<|int|>| |m| |=| |{|\"a\"|:|1|,|}|;| |}", "recrod| |W| |{| |int| |i|;| |}", "record| |W| |{| |int| |i|;| |enum| |F| |{| |A| |}", "@|w| |record| |W| |{| |}",
        "import| |\"x.avdl\"|;", "record| |W| |{| |int| |i| |}", "enum| |W| |{| |A| |}| |=| |5|;", "void| |m|(|int|)|;", "record| |R| |{| |W| |e| |=| |YELLOW|;| |}", "@| |enum| |W| |{| |A| |}", "int| |W|(|)| |oneway| |x|;", "record| |R| |{| |int| |5|;| |}", "record| |R| |{| |record| |S| |{| |}| |s|;| |}",
    ];
    let w = word("w", 1);
    let t = sym::one_of("template", T).replace('W', &w);
    let parts: Vec<&str> = t.split('|').collect();
    let (head, tail) = ("protocol P { ", " record Z { int i; } }");
    let base = format!("{head}{}{tail}", t.replace('|', ""));
    let before = sym::one_of("before", &["", "enum Q { A, B } ", "record Q { string s = \"} { enum \"; } ", "error Q { union { int, string } u; } ", "fixed Q(3); ", "@x({\"a\": [1]}) void q(int a); ", "// enum E {\n", "/* record \u{e9} { @x */ "]);
    let at = sym::pick("at", parts.len() + 1);
    let c = sym::byte("c", 1, 0x7e);
    sym::assume(c != b'*' && c != b'/' && c != 0x1a && c != b'\n');
    let comment = match sym::pick("comment", 4) { 0 => String::new(), 1 => format!("/*x{}*/", sym::text(vec![c])), 2 => "/* } { */".into(), _ => "// {\" @a \n".into() };
    let mut out = format!("{head}{before}");
    let start = out.len();
    for (i, p) in parts.iter().enumerate() { if i == at { out += &comment } out += p }
    if at == parts.len() { out += &comment }
    out += tail;
    let gap = start + parts[..at].iter().map(|p| p.len()).sum::<usize>();
    match (idl(base), idl(out)) {
        (Err(a), Err(b)) => {
            sym::reach("rejected");
            let (a, b) = (told(&a), told(&b));
            sym::note(&format!("{a:?} / {b:?}"));
            check(a.message == b.message && a.label == b.label, "correct text around an error changes its explanation");
            check(a.help == b.help && a.more == b.more, "correct text around an error changes its help");
            let moved = |o: usize, also: bool| { let o = if o < head.len() { o } else { o + before.len() }; (o, if o > gap || also && o == gap { o + comment.len() } else { o }) };
            let (s, e) = ((moved(a.at, true), moved(a.at, false)), (moved(a.at + a.len, true), moved(a.at + a.len, false)));
            check((b.at == s.0.1 || b.at == s.1.1) && (b.at + b.len == e.0.1 || b.at + b.len == e.1.1), "correct text around an error changes what it marks");
        }
        _ => check(false, "an erroneous file is accepted"),
    }
}

/// line and column of a syntax error, from its message
fn place(e: &miette::Report) -> Option<(usize, usize)> {
    let m = e.chain().last().map(|m| m.to_string())?;
    let (l, r) = m.strip_prefix("line ")?.split_once(':')?;
    let n = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
    Some((l.parse().ok()?, r[..n].parse().ok()?))
}
/// what an explanation lists as expected there
fn expected(e: &miette::Report) -> Vec<String> {
    let help = e.help().map(|h| h.to_string()).unwrap_or_default();
    let bare = |t: &str| { let t = t.trim(); if t.len() > 2 && t.starts_with('\'') { t.trim_matches('\'').to_string() } else { t.to_string() } };
    if let Some(l) = help.lines().find_map(|l| l.strip_prefix("expected one of: ")) { return l.split(", ").map(bare).collect() }
    let m = e.chain().last().map(|m| m.to_string()).unwrap_or_default();
    if m.contains("expected name after") { return vec![] }
    let Some((_, l)) = m.split_once(" expected ") else { return vec![] };
    l.replace(", or ", "\u{1}").replace(" or ", "\u{1}").replace(", ", "\u{1}").split('\u{1}').map(bare).collect()
}
/// What an error lists as expected is something to write; in short lists (longer ones, and an
/// optional `?`, are the parser runtime's guess), each token is accepted in that place.
pub fn advice_expected() {
    let doc: Vec<&str> = DOC.split('|').filter(|p| *p != " ").collect();
    let at = sym::pick("at", doc.len());
    let mut toks: Vec<String> = doc.iter().map(|s| s.to_string()).collect();
    match sym::pick("edit", 3) { 0 => { toks.remove(at); } 1 => toks[at] = sym::one_of("word", &["]", "5", "x"]).into(), _ => toks.insert(at, sym::one_of("word", &["]", "5", "x", "{"]).into()) }
    write("i.avdl", "@namespace(\"a\") protocol I { }");
    let src = toks.join(" ");
    let Err(e) = idl(src.clone()) else { sym::reach("accepted"); return };
    let Some((l, c)) = place(&e) else { sym::reach("meaning"); return };
    check(l == 1 && c <= src.len(), "a syntax error lies outside the file");
    let list = expected(&e);
    sym::note(&format!("{src} {c} {list:?}"));
    if list.is_empty() { sym::reach("none"); return }
    let t = &list[sym::pick("expected", list.len())];
    let t = match t.as_str() { "identifier" => "zz", "string literal" => "\"zz\"", "integer literal" => "7", "floating-point literal" => "1.5", "end of file" => "", t => t };
    if t.is_empty() && list[0] != "end of file" && list.len() > 5 { check(false, "a list of expected tokens ends in nothing"); return }
    check(!t.contains(|c: char| c.is_whitespace() || c == '\'') && !["IdentifierToken", "DocComment", "StringLiteral"].contains(&t), "an expected token is given no name a reader can write");
    sym::reach("expected");
    if t.is_empty() { check(idl(&src[..c]).is_ok() || place(&idl(&src[..c]).unwrap_err()).is_none(), "the end of the file is said to be expected where it is not") }
    else if let Err(f) = idl(format!("{} {t} {}", &src[..c], &src[c..])) {
        let g = place(&f);
        sym::note(&format!("{t} {g:?} {}", f.chain().last().unwrap()));
        check(list.len() > 5 || t == "?" || g.is_none_or(|g| g.0 > 1 || g.1 > c + 1), "a token is said to be expected where it is not accepted");
    }
}
