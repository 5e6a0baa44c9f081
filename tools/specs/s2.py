exec(open('/verif/tools/specs/s1.py').read()); SEEDS = {k: v for k, v in SEEDS.items() if k == 'union-null-ns'}
J='src/model/json.rs'; I='src/import.rs'; RS='src/resolve.rs'; SU='src/suggest.rs'; DC='src/doc_comments.rs'; SC='src/model/schema.rs'; C='src/compiler.rs'; M='src/main.rs'
# demo with files: run in a scratch directory; f = {name: content}
def files(cmd, **f):
    s = 'A=$PWD/target/debug/avdl\nD=$(mktemp -d); trap \'rm -rf "$D"\' EXIT; cd "$D"\n'
    for n, t in f.items(): s += f"cat > {n.replace('__','.')} <<'EOF'\n{t}\nEOF\n"
    return s + cmd
def fok(want, **f): return files(f"out=$($A idl a.avdl - 2>/dev/null) || exit 1\necho \"$out\" | tr -d ' \\n' | grep -qF '{want}'", **f)
SEEDS.update({
'alias-parent-ns': dict(property='C29', edits=[(J,"        Some(alias_ns) => schema_ref_name(simple_name, Some(alias_ns), schema_namespace),","""        // An alias in the schema's namespace or in one around it needs no prefix.
        Some(alias_ns) if schema_namespace.is_some_and(|ns| ns.starts_with(alias_ns)) => {
            schema_ref_name(simple_name, schema_namespace, schema_namespace)
        }
        Some(alias_ns) => schema_ref_name(simple_name, Some(alias_ns), schema_namespace),""")],
  demo=ok('@namespace("a.b") protocol P { @aliases(["a.Old"]) record R { int i; } }','"aliases":["a.Old"]'), needs='an alias whose namespace is a prefix of the namespace of the type', breaks='the alias loses its namespace'),
'union-name-ref': dict(property='C28', edits=[(J,'"record", "enum", "array", "map", "union", "fixed"]','"record", "enum", "array", "map", "fixed"]')],
  demo=ok('@namespace("n") protocol P { record `union` { int i; } record S { `union` u; } }','"type":"n.union"'), needs='a type called union, referred to from its own namespace', breaks='the reference is written as the plain word union'),
'import-field-ns': dict(property='C14', edits=[(I,'    let ns_for_fields = namespace.as_deref().or(default_namespace);','    let ns_for_fields = default_namespace.or(namespace.as_deref());')],
  demo=fok('"name":"x.In"' if 0 else '"namespace":"x"', a__avdl='protocol P { import protocol "b.avpr"; }', b__avpr='{"protocol":"B","namespace":"d","types":[{"type":"enum","name":"E","namespace":"x","symbols":["A"]},{"type":"record","name":"R","namespace":"x","fields":[{"name":"e","type":"E"}]}],"messages":{}}'), needs='an imported record with its own namespace inside a namespaced protocol that refers to a type by its plain name', breaks='the plain name is looked up in the namespace of the protocol'),
'import-field-props': dict(property='C14', edits=[(I,'''        collect_extra_properties(obj, &["name", "type", "doc", "default", "order", "aliases"]);''','''        collect_extra_properties(
            obj,
            &["name", "namespace", "type", "doc", "default", "order", "aliases"],
        );''')],
  demo=fok('"namespace":"kept"', a__avdl='protocol P { import schema "b.avsc"; }', b__avsc='{"type":"record","name":"R","fields":[{"name":"e","type":"int","namespace":"kept"}]}'), needs='an imported field with a custom property called namespace', breaks='the property is dropped'),
'import-not-canonical': dict(property='C15', edits=[(I,'''            return relative.canonicalize().map_err(|e| {''','''            return std::path::absolute(&relative).map_err(|e| {''')],
  demo=files('mkdir s; $A idl a.avdl - >/dev/null 2>&1', a__avdl='protocol P { import idl "b.avdl"; import idl "s/../b.avdl"; }', b__avdl='protocol B { record R { int i; } }'), needs='one file imported under two paths of which one goes through a parent directory', breaks='the file is taken for two files'),
'hint-length': dict(property='C19', edits=[(C,'        let threshold_simple = max_edit_distance(simple.len().min(registered_simple.len()));','        let threshold_simple = max_edit_distance(simple.len().max(registered_simple.len()));')],
  demo=H+'$A idl - - 2>&1 <<<"protocol P { record Abcde { Axce f; } }" | grep -q "did you mean" && exit 1\nexit 0', needs='an undeclared four-letter name two edits from a five-letter type', breaks='far-off names are suggested'),
'indent-shortest': dict(property='C18', edits=[(DC,'            Some(current) => common_prefix(current, indent),','            Some(current) if indent.len() < current.len() => indent,\n            Some(current) => current,'),(DC,'''/// Find the common prefix of two strings (character by character).
fn common_prefix<'a>(a: &'a str, b: &str) -> &'a str {''','''/// Find the common prefix of two strings (character by character).
#[allow(dead_code)]
fn common_prefix<'a>(a: &'a str, b: &str) -> &'a str {''')],
  demo=ok('protocol P { /** a\\n\\t b\\n\\t\\tc */ record R { int i; } }', '"doc":"a\\nb\\n\\tc"'.replace('\nb',"\\nb") if 0 else '"doc":"a\\nb\\n\\tc"'), needs='a doc comment whose lines are indented by different white space', breaks='the common indentation is not removed from every line'),
'empty-comment-doc': dict(property='C22', edits=[(DC,'token_type == Idl_WS || token_type == Idl_EmptyComment {','token_type == Idl_WS {'),(DC,'use crate::generated::idlparser::{Idl_DocComment, Idl_EmptyComment, Idl_WS};','use crate::generated::idlparser::{Idl_DocComment, Idl_WS};')],
  demo=ok('protocol P { /** d */ /**/ record R { int i; } }','"doc":"d"'), needs='an empty comment between a doc comment and what it documents', breaks='the documentation is lost'),
'ns-empty-segment': dict(property='C16', edits=[(RS,"        for segment in ns.split('.') {\n            if","        for segment in ns.split_terminator('.') {\n            if")],
  demo=bad('protocol P { @namespace("a.") record R { int i; } }'), needs='a namespace that ends with a dot', breaks='a namespace with an empty last part is accepted'),
'visited-kept': dict(property='C11', edits=[(SC,'''            // Unmark after processing this record's fields.
            visited.remove(&full_name);
''','')],
  demo=bad('protocol P { record A { int i; } record B { A x; A y; } record C { B b = {"x": {"i": 1}, "y": {"i": "no"}}; } }'), needs='a record default with two fields of the same previously declared record type, the second invalid', breaks='the default of the second field is not validated'),
'nan-case': dict(property='C11', edits=[(SC,'''|| matches!(value, Value::String(s) if s == "NaN" || s == "Infinity" || s == "-Infinity")''','''|| matches!(value, Value::String(s) if s.parse::<f64>().is_ok_and(|v| !v.is_finite()))''')],
  demo=bad('protocol P { record R { double d = "inf"; } }'), needs='a string default such as "inf" on a float or double field', breaks='strings that are not JSON numbers are accepted as numbers'),
'enum-default-prefix': dict(property='C10', edits=[(R,'            if !symbols.contains(&sym) {','            if symbols.binary_search(&sym).is_err() && !symbols.contains(&sym.to_uppercase()) {')],
  demo=ok('protocol P { enum E { b, a } = b; }','"default":"b"'), needs='an enum whose symbols are lower case and not sorted', breaks='the default symbol is looked up as if the symbols were sorted'),
'record-ns-leak': dict(property='C06', edits=[(R,'''    // Restore namespace.
    *namespace = saved_namespace;

    Ok((''','''    // Restore namespace.
    if saved_namespace.is_some() {
        *namespace = saved_namespace;
    }

    Ok((''')],
  demo=ok('protocol P { @namespace("x") record R { int i; } record S { int i; } }','{"fields":[{"name":"i","type":"int"}],"name":"S","type":"record"}'), needs='a protocol without a namespace with a namespaced record before another type', breaks='the namespace of one record leaks into the declarations after it'),
'field-span-first': dict(property='C20', edits=[(R,'''                field_spans.insert(field.name.clone(), src.span(offset, length));''','''                field_spans
                    .entry(field_ctx.get_text())
                    .or_insert_with(|| src.span(offset, length));
                field_spans.insert(field.name.clone(), src.span(offset, 1));''')],
  demo=H+'$A idl - - 2>&1 <<<"protocol P { record A { int i; } record B { A a = 12345; } }" | grep -q "──┬──"', needs='an invalid default of a previously declared type', breaks='the label covers only the first character of the value'),
'union-branch-key': dict(property='C09', edits=[(R,'        let key = t.union_type_key();\n','        let key = t.union_type_key();\n        let key = key.rsplit(\'.\').next().unwrap_or(&key).to_string();\n')],
  demo=ok('protocol P { record a.R { } record b.R { } record S { union { a.R, b.R } u; } }','"name":"u"'), needs='a union of two types with the same simple name in different namespaces', breaks='a legal union is rejected'),
'fixed-unit-size': dict(property='C03', edits=[(R,"    } else if number.starts_with('0') && number.len() > 1 {\n        u32::from_str_radix(&number, 8)","    } else if number.starts_with('0') && number.len() > 1 && number.bytes().all(|b| b < b'8') {\n        u32::from_str_radix(number.trim_start_matches('0'), 8)")],
  demo=ok('protocol P { fixed F(00); }','"size":0'), needs='the size 00', breaks='an octal zero is an error'),
'octal-escape-4': dict(property='C04', edits=[(R,"                        if c2 <= '3'\n","                        if c2 < '3'\n")],
  demo=ok('@k("\\\\101 \\\\301") protocol P { }', '"k":"A\u00c1"'.replace(' ','') if 0 else '"k":"A\u00c1"'), needs='a three-digit octal escape that starts with 3', breaks='the third digit is taken as text'),
'long-float': dict(property='C05', edits=[(R,'''    number
        .parse::<f64>()
        .map_err(|e| miette::miette!("invalid floating point literal '{text}': {e}"))''','''    if text.ends_with(['f', 'F']) {
        return number
            .parse::<f32>()
            .map(f64::from)
            .map_err(|e| miette::miette!("invalid floating point literal '{text}': {e}"));
    }
    number
        .parse::<f64>()
        .map_err(|e| miette::miette!("invalid floating point literal '{text}': {e}"))''')],
  demo=ok('@k(0.1f) protocol P { }','"k":0.1,'), needs='a floating-point literal with the suffix f that is not a float', breaks='literals with the suffix f are rounded to single precision'),
'ignore-order-case': dict(property='C29', edits=[(R,'                    "IGNORE" => result.order = Some(FieldOrder::Ignore),','                    "IGNORE" => result.order = result.order.or(Some(FieldOrder::Ignore)),')],
  demo=ok('protocol P { record R { int @order("descending") @order("ignore") i; } }','"order":"ignore"'), needs='two order annotations on one field, the last of them ignore', breaks='the earlier annotation wins'),
'optional-shared': dict(property='C30', edits=[(R,'''            if non_null_default {
                // Reorder''','''            if non_null_default && types[0] == AvroSchema::Null && !matches!(default_value, Some(Value::Bool(false))) {
                // Reorder''')],
  demo=ok('protocol P { record R { boolean? b = false; } }','["boolean","null"]'), needs='an optional boolean with the default false', breaks='null stays first although the default is false'),
'decimal-float-prec': dict(property='C13', edits=[(R,"                properties.remove(\"precision\");\n                properties.remove(\"scale\");","                properties.retain(|key, _| !key.starts_with(\"precision\") && !key.starts_with(\"scale\"));")],
  demo=ok('protocol P { record R { @logicalType("decimal") @precision(4) @scaleHint(1) bytes b; } }','"scaleHint":1'), needs='a decimal annotation next to a custom annotation whose name starts with scale or precision', breaks='the custom annotation is lost'),
})
for _k in []: pass
