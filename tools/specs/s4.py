exec(open('/verif/tools/specs/s2.py').read()); SEEDS = {}
W = "A=$PWD/target/debug/avdl\nD=$(mktemp -d); trap 'rm -rf \"$D\"' EXIT; cd \"$D\"\n"
SEEDS.update({
'dir-warnings': dict(property='C23', edits=[(C,'''            let output = Self::extract_impl(compiled);
            all_schemas.extend(output.schemas);
            all_warnings.extend(output.warnings);''','''            let output = Self::extract_impl(compiled);
            if !output.schemas.is_empty() {
                all_schemas.extend(output.schemas);
                all_warnings.extend(output.warnings);
            }''')],
  demo=W+"mkdir d; echo 'protocol P { /** lost */ void m(/** x */); }' > d/a.avdl; echo 'protocol P { /** lost */ }' > d/b.avdl\n$A idl2schemata d out 2>&1 | grep -q b.avdl", needs='a directory with a file that has warnings but no types', breaks='the warnings of that file are lost'),
'imported-doc-spell': dict(property='C14', edits=[(RS,'''            if let AvroSchema::Record { namespace, .. }
            | AvroSchema::Enum { namespace, .. }
            | AvroSchema::Fixed { namespace, .. } = schema''','''            if let AvroSchema::Record { namespace, .. } | AvroSchema::Enum { namespace, .. } = schema''')], demo='', needs='', breaks=''),
'messages-own': dict(property='C15', edits=[(C,'''            protocol.messages.extend(own_messages);''','''            for (name, message) in own_messages {
                protocol.messages.entry(name).or_insert(message);
            }''')],
  demo=fok('"response":"int"', a__avdl='protocol P { import idl "b.avdl"; int m(); }', b__avdl='protocol B { string m(); }'), needs='a message with the name of an imported one', breaks='the imported message wins over the own one'),
'nested-dir': dict(property='C15', edits=[(C,'            process_decl_items(&nested_decl_items, ctx, &import_dir).with_context(|| {','            let import_dir = if current_dir.join(&import.path).exists() { current_dir.join(&import.path).parent().map(Path::to_path_buf).unwrap_or(import_dir) } else { current_dir.to_path_buf() };\n            process_decl_items(&nested_decl_items, ctx, &import_dir).with_context(|| {')],
  demo=W+"mkdir -p lib/s; echo 'protocol B { import idl \"c.avdl\"; }' > lib/s/b.avdl; echo 'protocol C { record Deep { int i; } }' > lib/s/c.avdl; echo 'protocol P { import idl \"s/b.avdl\"; }' > a.avdl\n$A idl --import-dir lib a.avdl - 2>/dev/null | grep -q Deep", needs='a file found in an import directory that imports its neighbour', breaks='the neighbour is looked up next to the first file'),
'warning-order': dict(property='C20', edits=[(R,'''        if token_type == Idl_DocComment && !consumed_indices.contains(&i) {''','''        if token_type == Idl_DocComment
            && !consumed_indices.contains(&i)
            && (i == 0 || !consumed_indices.contains(&(i - 1)))
        {''')], demo='', needs='', breaks=''),
'doc-run-warning': dict(property='C18', edits=[(R,'''        if token_type == Idl_DocComment && !consumed_indices.contains(&i) {''','''        // A comment right before the one that was used is its first part.
        if token_type == Idl_DocComment
            && !consumed_indices.contains(&i)
            && !consumed_indices.contains(&(i + 1))
        {''')],
  demo=H+'$A idl - - 2>&1 >/dev/null <<<"protocol P { /** one */ /** two */ record R { } }" | grep -q .', needs='two doc comments in a row before a declaration', breaks='the first one is dropped without a warning'),
'write-newline': dict(property='C24', edits=[(M,'''            fs::write(&path, format!("{content}\\n"))
                .map_err(|e| miette::miette!("{e}: write {}", path.display()))''','''            use std::io::Write;
            fs::OpenOptions::new()
                .write(true)
                .create(true)
                .truncate(!path.exists())
                .open(&path)
                .and_then(|mut file| file.write_all(format!("{content}\\n").as_bytes()))
                .map_err(|e| miette::miette!("{e}: write {}", path.display()))''')],
  demo=W+"echo 'schema int;' > a.avdl; seq 100 > out; $A idl a.avdl out 2>/dev/null; [ \"$(cat out)\" = '\"int\"' ]", needs='an existing output file that is longer than the result', breaks='the rest of the old content stays'),
'outdir-nested': dict(property='C24', edits=[(M,'    fs::create_dir_all(&output_dir).map_err','    if !schemata_output.schemas.is_empty() && output_dir.parent().is_some_and(|p| p.as_os_str().is_empty() || p.exists()) {\n        let _ = fs::remove_file(output_dir.join("index.avsc"));\n    }\n    fs::create_dir_all(&output_dir).map_err')],
  demo=W+"echo 'protocol P { record R { } }' > a.avdl; mkdir out; echo keep > out/index.avsc; $A idl2schemata a.avdl out 2>/dev/null; [ -e out/index.avsc ]", needs='a file index.avsc in the output directory', breaks='it is removed'),
'stdin-named': dict(property='C24', edits=[(M,'        Some(path) if path != "-" => builder.convert(path),','        Some(path) if !path.starts_with(\'-\') => builder.convert(path),')],
  demo=W+"echo 'schema int;' > ./-x; $A idl -- -x - </dev/null 2>/dev/null | grep -q int", needs='an input file whose name starts with a dash, after --', breaks='standard input is read instead'),
'hidden-dirs': dict(property='C23', edits=[(C,'            .filter_map(|e| e.ok())\n','            .filter_entry(|e| e.depth() == 0 || !e.file_name().to_string_lossy().starts_with(\'.\'))\n            .filter_map(|e| e.ok())\n')], demo='', needs='', breaks=''),
'hash-props-order': dict(property='C21', edits=[(R,'        keys.sort_unstable();\n','        keys.sort_unstable_by_key(|k| k.len());\n')],
  demo="A=$PWD/target/debug/avdl\nfor i in $(seq 60); do $A idl - - 2>&1 <<<'protocol P { record R { @aa(1) @bb(2) @cc(3) union { int, string } u; } }' | md5sum; done | sort | uniq | wc -l | grep -qx 1", needs='several annotations with names of the same length on a union', breaks='the warning lists them in hash order'),
'oneway-null': dict(property='C17', edits=[(R,'    if one_way && response != AvroSchema::Null {','    if one_way && !request_fields.is_empty() && response != AvroSchema::Null {')],
  demo=bad('protocol P { int m() oneway; }'), needs='a one-way message without parameters', breaks='a one-way message with a response is accepted'),
'import-oneway-errs': dict(property='C17', edits=[(I,'    let one_way = obj\n        .get("one-way")\n        .and_then(|o| o.as_bool())\n        .unwrap_or(false);','    let one_way = obj.contains_key("one-way");')],
  demo=fok('"response":"int"', a__avdl='protocol P { import protocol "b.avpr"; }', b__avpr='{"protocol":"B","types":[],"messages":{"m":{"request":[],"response":"int","one-way":false}}}'), needs='an imported message with "one-way": false', breaks='the message is taken for a one-way message'),
'schema-file-ns': dict(property='C26', edits=[(C,'                schema_to_json(schema, &mut HashSet::new(), None, &lookup)','                let enclosing = match schema {\n                    AvroSchema::Array { items, .. } => items.full_name(),\n                    _ => None,\n                };\n                let enclosing = enclosing.as_deref().and_then(|n| n.rsplit_once(\'.\')).map(|(ns, _)| ns);\n                schema_to_json(schema, &mut HashSet::new(), enclosing, &lookup)')],
  demo=ok('namespace n; schema array<R>; record R { int i; }','"namespace":"n"'), needs='a main schema that is an array of a namespaced type', breaks='the namespace of the type is left out'),
'extract-known': dict(property='C07', edits=[(C,'''        for schema in registry.schemas() {
            let simple_name = match schema.name() {
                Some(n) => n.to_string(),
                None => continue,
            };
            let mut known_names = HashSet::new();''','''        let mut known_names = HashSet::new();
        for schema in registry.schemas() {
            let simple_name = match schema.name() {
                Some(n) => n.to_string(),
                None => continue,
            };
            // Fixed types refer to nothing, so what they leave behind is the same.
            if !matches!(schema, AvroSchema::Fixed { .. }) {
                known_names.clear();
            }''')],
  demo=W+"echo 'protocol P { record R { F f; } fixed F(3); }' > a.avdl; $A idl2schemata a.avdl out 2>/dev/null; grep -q size out/F.avsc", needs='a fixed type declared after a record that refers to it', breaks='its extracted schema is a bare name'),
'type-inline-kind': dict(property='C25', edits=[(J,'    if msg.one_way {\n','    if msg.one_way && !msg.request.is_empty() {\n')],
  demo=ok('protocol P { void m() oneway; }','"one-way":true'), needs='a one-way message without parameters', breaks='the one-way flag is lost'),
'roundtrip-errors': dict(property='C27', edits=[(I,'    let errors = if let Some(Value::Array(errs)) = obj.get("errors") {\n','    let errors = if let Some(Value::Array(errs)) =\n        obj.get("errors").filter(|_| obj.get("request").is_some_and(|r| r != &Value::Array(vec![])))\n    {\n')],
  demo=fok('"errors":["E"]', a__avdl='protocol P { import protocol "b.avpr"; }', b__avpr='{"protocol":"B","types":[{"type":"error","name":"E","fields":[]}],"messages":{"m":{"request":[],"response":"null","errors":["E"]}}}'), needs='an imported message without parameters that declares errors', breaks='the errors are lost'),
'u001a': dict(property='C01', edits=[], demo='', needs='', breaks=''),
})
SEEDS = {k: v for k, v in SEEDS.items() if v['demo']}
