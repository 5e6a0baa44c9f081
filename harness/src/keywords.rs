//! C28: words that mean something in the language are ordinary names where a name is meant.
use super::{sym, util::*};

const WORDS: &[&str] = &["protocol", "record", "enum", "error", "fixed", "import", "schema", "namespace", "idl", "boolean", "int", "long", "float", "double", "string", "bytes", "null", "array", "map", "union", "void", "oneway", "throws", "date", "time_ms", "timestamp_ms", "local_timestamp_ms", "uuid", "decimal", "true", "false", "NaN", "Infinity", "order", "aliases"];
/// names of types that cannot be declared
const TYPES: &[&str] = &["boolean", "int", "long", "float", "double", "string", "bytes", "null", "date", "time_ms", "timestamp_ms", "local_timestamp_ms", "uuid"];
/// (template, the word names a type, it is only meant as a name in back quotes)
const SITES: &[(&str, bool, bool)] = &[
    ("protocol # { }", true, false),
    ("protocol P { record # { int a; } }", true, false),
    ("protocol P { error # { int a; } }", true, false),
    ("protocol P { enum # { A } }", true, false),
    ("protocol P { fixed #(2); }", true, false),
    ("protocol P { record R { int #; string b; } }", false, false),
    ("protocol P { record R { int a, # = 3; } }", false, false),
    ("protocol P { record R { array<int> # = []; } }", false, false),
    ("protocol P { enum E { A, # } }", false, false),
    ("protocol P { enum E { #, B } = #; }", false, false),
    ("protocol P { void #(int i); }", false, false),
    ("protocol P { int # (); void m() oneway; }", false, false),
    ("protocol P { void m(int #, string b = \"\"); }", false, false),
    ("protocol P { @#(1) record R { } }", false, false),
    ("protocol P { record # { } record R { # f; array<#> g; union { null, # } h; } }", true, true),
    ("protocol P { error # { } # m(# p) throws #; }", true, true),
    ("schema #; record # { }", true, true),
    ("namespace x.#; schema R; record R { }", false, false),
    ("namespace #; schema R; record R { }", false, true),
];
pub fn keyword_names() {
    let w = sym::one_of("word", WORDS);
    let (t, ty, quoted) = sym::one_of("site", SITES);
    // another letter in front makes it an ordinary word
    let c = sym::byte("c", b'j', b'q');
    let other = sym::text([&[b'q', c], w.as_bytes()].concat());
    let quote = quoted || sym::flag("quote");
    let put = |w: &str, q: bool| t.replace('#', &if q { format!("`{w}`") } else { w.to_string() });
    // a reserved annotation, and a dotted name partly in quotes, is something else
    sym::assume(!(t.contains("@#") && (quote || matches!(w, "namespace" | "aliases" | "order"))));
    sym::assume(!(t.contains("x.#") && quote));
    // these two are numbers unless quoted
    sym::assume(quote || !matches!(w, "NaN" | "Infinity"));
    let base = must(put(&other, false), "an ordinary name is rejected");
    let r = idl(put(w, quote));
    sym::note(&format!("{} {}", put(w, quote), r.is_ok()));
    match r {
        Err(e) => { sym::note(&format!("{e:?}")); sym::reach("rejected"); check(ty && TYPES.contains(&w), "a word cannot be used as a name") }
        Ok(o) => {
            sym::reach("accepted");
            check(!(ty && TYPES.contains(&w)), "the name of a primitive or logical type is declared");
            let want: serde_json::Value = serde_json::from_str(&base.to_string().replace(&other, w)).unwrap();
            check(o.json == want, "a word that means something elsewhere is not the name it is written as");
        }
    }
}
