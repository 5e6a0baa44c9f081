exec(open('/verif/tools/specs/s2.py').read()); _all = SEEDS
SEEDS = {k: _all[k] for k in ('union-null-ns', 'union-branch-key')}
SEEDS.update({
'record-ns-leak': dict(property='C06', edits=[(R,'''    // Restore namespace.
    *namespace = saved_namespace;

    Ok((''','''    // Restore namespace.
    if saved_namespace.is_some() {
        *namespace = saved_namespace;
    }

    Ok((''')],
  demo=ok('protocol P { @namespace("x") record R { int i; } record S { int i; } }','{"messages":{},"protocol":"P"'), needs='a protocol without a namespace that contains a namespaced record', breaks='the namespace of the record becomes that of the protocol and of the types after it'),
'crlf-doc': dict(property='C18', edits=[(DC,r'''    let re = Regex::new(&format!(r"(\r?\n){}", escaped_indent))
        .expect("escaped indent produces valid regex");
    Some(re.replace_all(doc_comment, "$1").into_owned())''',r'''    let re = Regex::new(&format!(r"\r?\n{}", escaped_indent))
        .expect("escaped indent produces valid regex");
    Some(re.replace_all(doc_comment, "\n").into_owned())''')],
  demo=ok('protocol P { /** a\\r\\n  b */ record R { int i; } }','"doc":"a\\r\\nb"'), needs='an indented doc comment with Windows line endings', breaks='the carriage returns are dropped from the documentation'),
'star-blank': dict(property='C18', edits=[(DC,r'''Regex::new(r"(?s)^\*[^\r\n]*(?:\r?\n[\t ]*\*[^\r\n]*|\r?\n[\t ]*)*$")''',r'''Regex::new(r"(?s)^\*[^\r\n]*(?:\r?\n[\t ]*\*[^\r\n]*|\r?\n)*$")''')],
  demo=ok('protocol P { /** * a\\n   \\n * b */ record R { int i; } }','"doc":"a\\n   \\nb"'.replace(' ','')), needs='a star-decorated doc comment with a line of nothing but blanks', breaks='the stars are kept'),
'import-again-err': dict(property='C15', edits=[(I,'        !self.read_locations.insert(path.to_path_buf())','        !self.read_locations.insert(path.with_extension(""))')],
  demo=fok('"name":"S"', a__avdl='protocol P { import idl "b.avdl"; import schema "b.avsc"; }', b__avdl='protocol B { record R { int i; } }', b__avsc='{"type":"record","name":"S","fields":[]}'), needs='two imports that differ only in the extension', breaks='the second file is taken for the first'),
'import-dir-first': dict(property='C15', edits=[(I,'        if relative.exists() {','        if relative.exists() && (self.import_dirs.is_empty() || import_file.contains(\'/\') || !self.import_dirs.iter().any(|d| d.starts_with(current_dir))) {')],
  demo='A=$PWD/target/debug/avdl\nD=$(mktemp -d); trap \'rm -rf "$D"\' EXIT; cd "$D"\nmkdir lib; echo \'protocol B { record Near { int i; } }\' > b.avdl; echo \'protocol B { record Far { int i; } }\' > lib/b.avdl; echo \'protocol P { import idl "b.avdl"; }\' > a.avdl\n$A idl --import-dir "$D/lib" "$D/a.avdl" - 2>/dev/null | grep -q Near', needs='an import directory below the directory of the importing file, with a file of the same name', breaks='the file in the import directory is preferred'),
'reserved-field-default': dict(property='C12', edits=[(R,'const MESSAGE_RESERVED: &[&str] = &["doc", "response", "request", "errors", "one-way"];','const MESSAGE_RESERVED: &[&str] = &["doc", "response", "request", "errors", "one_way"];')],
  demo=bad('protocol P { @one-way(true) void m(); }'), needs='an annotation @one-way on a message', breaks='the annotation overwrites the attribute'),
'enum-reserved': dict(property='C12', edits=[(R,'''    "type",
    "aliases",
    "default",
];''','''    "type",
    "aliases",
];''')],
  demo=bad('protocol P { @default("A") enum E { A } }'), needs='a', breaks='b'),
'json-escape-key': dict(property='C04', edits=[(R,'        let key = get_string_from_literal(key_tok.get_text());','        let key_text = key_tok.get_text();\n        let key = key_text[1..key_text.len() - 1].to_string();')],
  demo=ok('@k({"a\\\\tb": 1}) protocol P { }','"a\\tb":1'), needs='an object key with an escape', breaks='the escape is kept as it is'),
'json-dup-null': dict(property='C12', edits=[(R,'        map.insert(key, value);\n','        if !value.is_null() {\n            map.insert(key, value);\n        }\n')],
  demo=ok('@k({"a": null}) protocol P { }','{"a":null}'), needs='an annotation or default with an object that has a null value', breaks='the key is dropped'),
'error-order': dict(property='C21', edits=[(C,'            messages.sort_by_key(|(name, _)| *name);','            messages.sort_by_key(|(name, _)| name.len());')],
  demo='A=$PWD/target/debug/avdl\nfor i in $(seq 40); do $A idl - - 2>&1 <<<"protocol P { void ma(A x); void mb(B x); void mc(C x); }" | md5sum; done | sort | uniq | wc -l | grep -qx 1', needs='', breaks=''),
'span-chars': dict(property='C20', edits=[], demo='', needs='', breaks=''),
'drain-kept': dict(property='C23', edits=[], demo='', needs='', breaks=''),
'flatten-order': dict(property='C14', edits=[(I,'        if t.full_name().is_some_and(|n| registry.lookup(&n).is_some()) {','        if t.name().is_some_and(|n| registry.lookup(n).is_some())\n            || t.full_name().is_some_and(|n| registry.lookup(&n).is_some())\n        {')],
  demo=fok('"namespace":"x"', a__avdl='protocol P { import protocol "b.avpr"; }', b__avpr='{"protocol":"B","types":[{"type":"enum","name":"E","symbols":["A"]},{"type":"enum","name":"E","namespace":"x","symbols":["A"]}],"messages":{}}'), needs='two imported types with the same simple name, the first in the null namespace', breaks='the second is dropped'),
'import-msg-ns': dict(property='C14', edits=[(I,'''    let response = if let Some(resp) = obj.get("response") {
        json_to_schema(resp, default_namespace)''','''    let response = if let Some(resp) = obj.get("response") {
        json_to_schema(resp, default_namespace.filter(|_| !request.is_empty() || !one_way))''')], demo='', needs='', breaks=''),
'null-import-refs': dict(property='C08', edits=[(RS,'''        AvroSchema::Map { values, .. } => {
            collect_unresolved_refs(values, known, unresolved);
        }
        AvroSchema::Union { types, .. } => {
            for t in types {''','''        AvroSchema::Map { values, .. } => {
            collect_unresolved_refs(values, known, unresolved);
        }
        // The first branch of an optional type is null.
        AvroSchema::Union { types, .. } => {
            for t in types.iter().skip(usize::from(types.len() == 2)) {''')],
  demo=bad('protocol P { record R { Foo? f = 1; } }'), needs='an undeclared optional type with a default that is not null, or a two-branch union with the undeclared name first', breaks='the undeclared name is accepted'),
'output-newline': dict(property='C24', edits=[], demo='', needs='', breaks=''),
})
SEEDS = {k: v for k, v in SEEDS.items() if v['demo']}
