//! C19: "did you mean" names something that exists and is close.
use super::{sym, util::*};

/// edit distance, straight from the definition (no branches over the text)
fn dist<T: PartialEq>(a: &[T], b: &[T]) -> usize {
    let mut d: Vec<usize> = (0..=b.len()).collect();
    for i in 0..a.len() {
        let mut diag = std::mem::replace(&mut d[0], i + 1);
        for j in 0..b.len() {
            let up = d[j + 1];
            let x = diag + (a[i] != b[j]) as usize;
            d[j + 1] = x.min(up + 1).min(d[j] + 1);
            diag = up;
        }
    }
    d[b.len()]
}
fn help(e: &miette::Report) -> String { e.help().map(|h| h.to_string()).unwrap_or_default() }
/// close enough to be a typo
fn near(a: &str, b: &str) -> Option<usize> {
    let (d, n) = if a.is_ascii() && b.is_ascii() { (dist(a.as_bytes(), b.as_bytes()), a.len().min(b.len())) } else {
        let (a, b): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
        (dist(&a, &b), a.len().min(b.len()))
    };
    (d <= if n <= 4 { 1 } else { 2 }).then_some(d)
}
fn simple(n: &str) -> &str { n.rsplit('.').next().unwrap() }
const PRIMITIVES: &[&str] = &["null", "boolean", "int", "long", "float", "double", "bytes", "string"];

fn judge(src: String, name: &str, declared: &[String], primitives: &[&str]) {
    let Err(e) = idl(src) else { check(false, "an undeclared name is accepted"); return };
    let h = help(&e);
    sym::note(&h);
    let mut best: Option<usize> = None;
    let cand: Vec<(&str, Option<usize>)> = declared.iter().map(|d| (&d[..], match (near(name, d), near(simple(name), simple(d))) { (Some(a), Some(b)) => Some(a.min(b)), (a, b) => a.or(b) }))
        .chain(primitives.iter().map(|p| (*p, near(simple(name), p)))).collect();
    for c in &cand { if let Some(d) = c.1 { best = Some(best.map_or(d, |b| b.min(d))) } }
    if h.contains("did you mean") {
        sym::reach("hint");
        check(best.is_some(), "a name is suggested that nobody can have meant");
        let said = h.split('`').nth(1).unwrap_or("");
        check(cand.iter().any(|c| c.0 == said), "a name is suggested that does not exist");
        check(cand.iter().any(|c| c.0 == said && c.1 == best), "a name is suggested although a closer one exists");
    } else {
        sym::reach("none");
        check(best.is_none(), "a close name is not suggested");
    }
}
/// a misspelt reference to one of two declared types, with namespaces
pub fn hint_type() {
    let ab = |n: &str, k: usize| sym::text((0..k).map(|_| sym::byte(n, b'a', b'd')).collect());
    let k = sym::pick("len", 3);
    let r = format!("Q{}{}", ab("r", 1 + k), sym::one_of("tail", &["", "zz"]));
    let (d1, d2) = (format!("Q{}", ab("d", 2)), sym::one_of("d2", &["Qabczz", "Qbc", "Unlike"]).to_string());
    let ns = sym::one_of("ns", &["", "qns"]);
    sym::assume(d1 != d2 && r != d1 && r != d2);
    let (full, shown) = if ns.is_empty() { (vec![d1.clone(), d2.clone()], r.clone()) } else { (vec![format!("{ns}.{d1}"), format!("{ns}.{d2}")], format!("{ns}.{r}")) };
    let head = if ns.is_empty() { String::new() } else { format!("@namespace(\"{ns}\") ") };
    judge(format!("{head}protocol P {{ record {d1} {{ {r} f; }} enum {d2} {{ A }} }}"), &shown, &full, PRIMITIVES);
}
/// names with letters beyond ASCII: distances count letters
pub fn hint_letters() {
    let w = |n: &str, k: usize| -> String { sym::text((0..k).flat_map(|_| [0xCE, sym::byte(n, 0xB1, 0xB3)]).collect()) };
    let (k, j) = (1 + sym::pick("d len", 3), 1 + sym::pick("r len", 3));
    let (d, r) = (format!("Q{}{}", w("d", k), sym::one_of("d tail", &["", "z", "zzz"])), format!("Q{}{}", sym::one_of("r head", &["", "q", "\u{e9}"]), w("r", j)));
    sym::assume(d != r);
    judge(format!("protocol P {{ record {d} {{ {r} f; }} }}"), &r, &[d.clone()], PRIMITIVES);
}
/// a misspelt primitive type: one or two characters exchanged, dropped or added
pub fn hint_primitive() {
    let p = sym::one_of("p", PRIMITIVES);
    let mut b = p.as_bytes().to_vec();
    let edits = 1 + sym::pick("edits", 2);
    for _ in 0..edits {
        let at = sym::pick("at", b.len());
        let c = sym::byte("c", b'A', b'Z');
        match sym::pick("edit", 3) { 0 => b[at] = c, 1 => b.insert(at, c), _ => { b.remove(at); } }
    }
    let r = sym::text(b);
    // what is left may be a keyword or an arbitrary capitalised name
    sym::assume(r.bytes().any(|b| b.is_ascii_uppercase()));
    judge(format!("protocol P {{ record Zzzzzzzzz {{ int i; {r} f; }} }}"), &r, &["Zzzzzzzzz".to_string()], PRIMITIVES);
}
/// a misspelt keyword
pub fn hint_keyword() {
    const KEYWORDS: &[&str] = &["protocol", "record", "enum", "error", "fixed", "import", "schema", "namespace", "boolean", "int", "long", "float", "double", "string", "bytes", "null", "array", "map", "union", "void", "oneway", "throws", "date", "time_ms", "timestamp_ms", "local_timestamp_ms", "uuid", "idl", "decimal", "true", "false"];
    let (pre, kw, post) = sym::one_of("site", &[
        ("", "protocol", " P { }"), ("protocol P { ", "record", " R { int i; } }"), ("protocol P { ", "enum", " E { A } }"), ("protocol P { ", "error", " E { } }"), ("protocol P { ", "fixed", " F(3); }"),
        ("protocol P { ", "import", " idl \"x\"; }"), ("protocol P { record R { ", "union", " { null, int } f; } }"), ("protocol P { record R { ", "array", "<int> f; } }"), ("protocol P { void m() ", "oneway", "; }"),
        ("protocol P { error E { } void m() ", "throws", " E; }"), ("", "namespace", " x; schema int;"), ("", "schema", " int;"),
    ]);
    // one arbitrary edit, possibly after one that swaps or drops a character
    let mut b = kw.as_bytes().to_vec();
    let at = sym::pick("at", b.len());
    match sym::pick("first", 3) { 0 => {} 1 => { b.remove(at); } _ => if at > 0 { b.swap(at - 1, at) } }
    let (at, c) = (sym::pick("at", b.len()), sym::byte("c", b'j', b'q'));
    if sym::flag("insert") { b.insert(at, c) } else { b[at] = c }
    let w = sym::text(b);
    let Err(e) = idl(format!("{pre}{w}{post}")) else { sym::reach("accepted"); return };
    let mut said = format!("{e} {}", help(&e));
    for c in e.chain() { said += &format!(" {c}") }
    for l in e.labels().into_iter().flatten() { said += &format!(" {}", l.label().unwrap_or("")) }
    sym::note(&format!("{w} | {said}"));
    for x in said.split("did you mean `").skip(1) {
        sym::reach("hint");
        let x = x.split('`').next().unwrap();
        check(KEYWORDS.contains(&x), "a keyword is suggested that does not exist");
        let d = |k: &str| dist(w.as_bytes(), k.as_bytes());
        check(d(x) <= 2, "a keyword is suggested that nobody can have meant");
        check(KEYWORDS[..27].iter().all(|k| d(k) >= d(x) || (k.len() <= 4 && d(k) > 1)), "a keyword is suggested although a closer one exists");
    }
    sym::reach("rejected");
}
/// three declared names, near and far, of one or two namespaces
pub fn hint_many() {
    const N: &[&str] = &["Custome", "Customers", "Custom", "Customexyz", "Cu#tomer", "#ustom#r", "Cstmr", "Customersss"];
    let c = sym::text(vec![sym::byte("c", b'r', b'z')]);
    let ns = sym::one_of("ns", &["", "qns", "customer"]);
    let mut d: Vec<String> = vec![];
    for i in 0..3 {
        let n = sym::one_of("n", N).replace('#', &c);
        let n = if ns.is_empty() || i == 2 { n } else { format!("{ns}.{n}") };
        sym::assume(!d.iter().any(|x| simple(x) == simple(&n)));
        d.push(n);
    }
    let r = sym::one_of("r", &["Customer", "Customerx", "Cusstomer", "qns.Customer"]);
    let src = d.iter().fold(String::new(), |s, n| match n.rsplit_once('.') { Some((ns, n)) => format!("{s}@namespace(\"{ns}\") record {n} {{ }} "), None => format!("{s}record {n} {{ }} ") });
    sym::assume(!d.iter().any(|x| x == r));
    judge(if sym::flag("first") { format!("protocol P {{ record Uuuuuuuuuuuuuuuu {{ {r} f; }} {src} }}") } else { format!("protocol P {{ {src} void m({r} f); }}") }, r, &d, PRIMITIVES);
}
