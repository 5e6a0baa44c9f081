//! C22: white space and comments between tokens mean nothing.
use super::{determ::told, sym, util::*};

const DOC: &str = "@|namespace|(|\"a.b\"|)| |protocol| |P| |{| |@|k|(|[|1|,|{|\"x\"|:|-2.5|}|,|null|]|)| |record| |R| |{| |union|{|null|,|E|}| |u| |=| |null|;| |int|?| |i| |=| |0x1F|,| |j|;| |array|<|map|<|E|>|>| |@|order|(|\"ignore\"|)| |m| |=| |[|]|;| |decimal|(|3|,|1|)| |d|;| |map|<|int|>| |n| |=| |{|\"a\"|:|1|}|;| |}| |enum| |E| |{| |A|,| |`B`| |}| |=| |A|;| |fixed| |F|(|4|)|;| |error| |X| |{| |string| |s|;| |}| |import| |idl| |\"i.avdl\"|;| |@|m.n-o|(|true|)| |int| |f|(|R| |r|,| |int| |i| |=| |3|)| |throws| |X|,| |Y|;| |void| |g|(|)| |oneway|;| |}| ";
const DOC2: &str = "namespace| |a.b|;| |schema| |R|?|;| |import| |schema| |\"i.avsc\"|;| |@|aliases|(|[|\"Q\"|]|)| |record| |R| |{| |string| |@|order|(|\"ignore\"|)| |s| |=| |\"\\u0041\"|;| |date|?| |e|;| |}| |@|x|(|{|}|)| |fixed| |`fixed`|(|1|)|;| ";
fn setup() {
    write("i.avdl", "@namespace(\"a.b\") protocol I { error Y { } }");
    write("i.avsc", "\"int\"");
}
fn trivia() -> String {
    // a character that neither ends the comment nor makes it a doc comment
    let any = |not: &[u8]| { let c = sym::byte("c", 1, 0x7f); sym::assume(c != 0x1a); for n in not { sym::assume(c != *n) } sym::text(vec![c]) };
    match sym::pick("trivia", 12) {
        0 => " ".into(), 1 => "\t".into(), 2 => "\n".into(), 3 => "\r\n".into(), 4 => "\u{c}".into(), 5 => format!("/*x{}*/", any(b"*/")), 6 => format!("//{}\n", any(b"\n\r")), 7 => format!("/* {}* / \u{e9}\u{1f600} */", any(b"*/")), 8 => "/***/".replace("/***/", "/* /* */"), 9 => format!("// /* \u{20ac} \" ' /* {}\n", any(b"\n\r")), 10 => format!("/*\n * {}\n **/", any(b"*/")), _ => format!("/*{}{}*/", any(b"*/"), any(b"*/")),
    }
}
fn insert(doc: &str, n: usize) {
    let base = doc.replace('|', "");
    let parts: Vec<&str> = doc.split('|').collect();
    let total = parts.len();
    let mut out = String::new();
    let at: Vec<(usize, String)> = (0..n).map(|_| (sym::pick("at", total), trivia())).collect();
    for (i, p) in parts.iter().enumerate() {
        for (_, t) in at.iter().filter(|x| x.0 == i) { out += t }
        out += p;
    }
    setup();
    let (a, b) = (idl(base), idl(out));
    sym::reach(if b.is_ok() { "accepted" } else { "rejected" });
    if let Err(e) = &b { sym::note(&format!("{e:?}")) }
    check(a.is_ok() && b.is_ok(), "white space or a comment between tokens makes a file invalid");
    check(told(&a) == told(&b), "white space or a comment between tokens changes the result");
}
/// any trivia between any two tokens
pub fn trivia_protocol() { insert(DOC, 1) }
pub fn trivia_schema() { insert(DOC2, 1) }
/// in two places (thorough)
pub fn trivia_schema_two() { insert(DOC2, 2) }
/// no white space where tokens do not need it
pub fn trivia_none() {
    let doc = sym::one_of("doc", &[DOC, DOC2]);
    let parts: Vec<&str> = doc.split('|').collect();
    let word = |s: Option<&&str>, first: bool| s.is_some_and(|s| { let c = if first { s.chars().next() } else { s.chars().last() }; c.is_some_and(|c| c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '`') });
    let from = sym::pick("from", parts.len() / 8) * 8;
    let mut out = String::new();
    for (i, p) in parts.iter().enumerate() {
        // all optional white space from a point on
        let needed = i > 0 && word(parts.get(i - 1), false) && word(parts.get(i + 1), true);
        if i >= from && *p == " " && !needed { continue }
        out += p;
    }
    setup();
    let (a, b) = (idl(doc.replace('|', "")), idl(out));
    sym::reach(if b.is_ok() { "accepted" } else { "rejected" });
    check(told(&a) == told(&b), "leaving out white space changes the result");
}
const AVPR: &str = "{|\"protocol\"|:|\"I\"|,|\"namespace\"|:|\"a.b\"|,|\"types\"|:|[|{|\"type\"|:|\"record\"|,|\"name\"|:|\"R\"|,|\"doc\"|:|\"a // b\"|,|\"fields\"|:|[|{|\"name\"|:|\"f\"|,|\"type\"|:|[|\"null\"|,|\"double\"|]|,|\"default\"|:|null|}|,|{|\"name\"|:|\"g\"|,|\"type\"|:|\"double\"|,|\"default\"|:|-2.5e1|,|\"k\"|:|{|\"\\\"/*\"|:|[|true|,|0|]|}|}|]|}|]|,|\"messages\"|:|{|\"m\"|:|{|\"request\"|:|[|]|,|\"response\"|:|\"R\"|}|}|}|";
/// ... and between any two tokens of an imported JSON file, and at its end
pub fn trivia_json() {
    // with and without strings that look like comments
    let doc = if sym::flag("plain") { AVPR.replace("a // b", "a b").replace("\\\"/*", "k") } else { AVPR.to_string() };
    let parts: Vec<&str> = doc.split('|').collect();
    let at = sym::pick("at", parts.len());
    let any = |not: &[u8]| { let c = sym::byte("c", 0, 0x7f); for n in not { sym::assume(c != *n) } sym::text(vec![c]) };
    let t = match sym::pick("trivia", 14) {
        0 => " ".into(), 1 => "\t".into(), 2 => "\n".into(), 3 => "\r\n".into(), 4 => "\r".into(), 5 => format!("/*x{}*/", any(b"*/")), 6 => format!("//{}\n", any(b"\n\r")), 7 => format!("/* {}* / \u{e9}\u{1f600} */", any(b"*/")), 8 => "/* /* */".into(), 9 => format!("// /* \u{20ac} \" ' /* {}\n", any(b"\n\r")), 10 => format!("/**\n * \"{}\n **/", any(b"*/")), 11 => "/**//***//****/".into(), 12 => format!("/*{}{}*/", any(b"*/"), any(b"*/")), _ => { sym::assume(at == parts.len() - 1); format!("// \" /* {}", any(b"\n\r")) }
    };
    let run = |text: String| { write("i.avpr", &text); idl("protocol P { import protocol \"i.avpr\"; record L { a.b.R r; } }") };
    let a = run(doc.replace('|', ""));
    let mut out = String::new();
    for (i, p) in parts.iter().enumerate() { if i == at { out += &t } out += p }
    let b = run(out);
    sym::reach(if b.is_ok() { "accepted" } else { "rejected" });
    if let Err(e) = &b { sym::note(&format!("{e:?}")) }
    check(a.is_ok() && b.is_ok(), "white space or a comment between tokens makes an imported file invalid");
    check(told(&a) == told(&b), "white space or a comment between tokens of an imported file changes the result");
}
/// the empty comment is a comment
pub fn trivia_empty_comment() {
    let w = word("w", 1);
    let t = sym::one_of("template", &["protocol P { /**/ record W { } /* x */ record R { } }", "protocol P { record W { /**/ int W; /* x */ } }", "/**/ protocol P { record W { } } /** x */", "protocol P { /* x */ record W { } /**/ }"]);
    let t = t.replace('W', &w);
    match (idl(t.clone()), idl(t.replace("/**/", ""))) {
        (Ok(a), Ok(b)) => { sym::reach("accepted"); check(a.json == b.json, "an empty comment swallows the text up to the end of the next comment") }
        _ => check(false, "an empty comment swallows the text up to the end of the next comment"),
    }
}
