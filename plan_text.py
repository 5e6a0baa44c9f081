A = ["accepted"]
AR = ["accepted", "rejected"]

ASSUMPTIONS = [
    "The crate is executed as compiled by the nightly toolchain for wasm64-unknown-unknown (same source, same crate versions as /repo/Cargo.lock); every counterexample is replayed against the native build of /repo before it is reported, and sampled paths of every entry are replayed natively with identical observations.",
    "std is the nightly's std with an in-memory file system, the current directory /w, and a hasher whose values the engine chooses (constant, or symbolic where iteration order is the subject); miette's terminal renderer (feature `fancy`) is left out of the symbolic build and present in the native replays.",
    "antlr4rust's lexer DFA cache does not memoise edges for symbolic characters (a memo table; the transition is recomputed from the ATN instead).",
    "Sources are the templates of the harness with the stated holes; words are `q` + arbitrary lowercase letters unless stated otherwise, so keywords and one-letter names are outside except where a template names them.",
    "The stack is the engine's (C01 checks nesting up to it); smaller native stacks overflow earlier (known finding of C01).",
]

NOT_APPLICABLE = []

def prop(id, title, statement, over, text, why, files, mechanism, entries, bounds, outside, technique=None, note=None, assumptions=(), crate="harness"):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                entries=entries, bounds=bounds, outside=outside, technique=technique, note=note, crate=crate, assumptions=list(assumptions))

def e(reach=AR, **k):
    return dict(reach=reach, **k)

PROPS = [
prop("C01", "Every input is answered: a result or an error, never a crash",
     "Whatever text it is given, the compiler terminates and returns either a result or an error. It never panics, overflows, loops or indexes outside the text, and every diagnostic it returns can be rendered: its labels lie inside the text they refer to, on character boundaries.",
     ["inputs"], "every single-byte edit of representative protocol and schema files; every ASCII byte in 45 contexts, every pair of bytes in eight, every single-byte edit of imported JSON files, multi-byte characters with arbitrary neighbours",
     "A panic sits on one malformed input among millions: an index computed from a lexer error, an unwrap on a missing child of an error node.",
     ["src/reader.rs", "src/doc_comments.rs", "src/compiler.rs", "src/error.rs", "src/import.rs"], [("parsing and error recovery", "src/reader.rs: parse_idl_named, make_diagnostic, enrich_antlr_error"), ("tree walkers on partial trees", "src/reader.rs")],
     {"total_byte": e(), "total_two": e(), "total_wide": e(), "total_edit": e(), "total_edit_schema": e(), "total_drop": e(), "total_avsc": e(), "total_avpr": e(), "total_json_values": e(), "total_escapes": e(), "total_deep": e(), "total_json_deep": e(), "total_stack": e(A), "total_two_all": e(thorough=True)},
     "one arbitrary ASCII byte (0-127) in 45 templates, two arbitrary adjacent ones in 8 (thorough: 45), eleven multi-byte characters between arbitrary neighbours or alone in 45 templates; replace, insert, delete or truncate at every position of a 330-byte protocol and a 180-byte schema file, and of an imported 370-byte .avsc and 240-byte .avpr file; 16 JSON values in place of every member of those; 22 nested constructs of up to 24 levels and five of up to 64 in imported JSON, complete or not, around an arbitrary byte; conversion and extraction; 300 million instructions of the target per path, 512 MB of memory",
     "inputs further than that from well-formed ones; stack use between 64 and thousands of nested levels (known finding)"),
prop("C02", "Integer literals denote exactly their mathematical value, or are errors",
     "Every integer literal (decimal, hexadecimal or octal, signed, with or without a long suffix) is emitted as exactly the number it denotes. A literal that does not fit in a signed 64-bit integer, or whose type cannot hold it, is an error and never a wrapped, truncated or rounded value.",
     ["inputs"], "all literals of the stated shapes, in defaults and in annotation values",
     "The tests try a few dozen literals; the boundary values per radix, sign, suffix and length are one in 2^64 and a wrong comparison, radix or suffix rule shows only there.",
     ["src/reader.rs"], [("integer literal parsing and range rules", "src/reader.rs: parse_integer_literal and the defaultValue/jsonLiteral walkers")],
     {"int_dec": e(), "int_suffix": e(), "int_hex": e(), "int_oct": e()},
     "decimal literals of 1-19 and 20+ digits (above 16 digits: the digits of 2^63 with arbitrary leading/trailing digits), hexadecimal of 1-17 digits (above 4: arbitrary leading and trailing digits, one repeated middle digit), octal of 1-23 digits likewise; both signs, L/l suffix, upper/lower case x",
     "longer literals; underscores and '+' are not part of the grammar"),
prop("C03", "Fixed sizes and decimal precision/scale are exact and in range",
     "A fixed size, decimal precision or decimal scale is emitted as exactly the number written, in any radix. Values that do not fit 32 bits, negative values, a zero precision or a scale above the precision are errors.",
     ["inputs"], "all size, precision and scale literals of the stated shapes",
     "Tests use small decimal numbers; 32-bit boundaries in three radices and the precision/scale comparison at its edges are never reached by samples.",
     ["src/reader.rs"], [("unsigned 32-bit literal parsing", "src/reader.rs: walk_fixed, decimal type walker")],
     {"fixed_size": e(), "decimal_precision": e(), "decimal_scale": e()},
     "sizes and precisions: decimal up to 11 digits (9-11: the digits of 2^32-1 with arbitrary boundary digits), hexadecimal up to 9, octal up to 12, optional sign or long suffix; (precision, scale) pairs: one literal arbitrary in its last digits, the other one of 1, 0, 2^32-1, or both arbitrary single digits",
     "both literals arbitrary at full width at once"),
prop("C04", "String literals denote the characters their escapes stand for",
     "Wherever a string literal occurs (annotation values, defaults, object keys, aliases, namespaces) the emitted value is the literal's text with each documented escape replaced by the character it denotes, surrogate pairs combined, and everything else unchanged. Undefined escapes are errors, and a lone surrogate escape never corrupts the text around it.",
     ["inputs"], "all literals made of up to two adjacent pieces of any kind (plain character, escape, octal, unicode, surrogate pair, multi-byte text)",
     "There are thousands of escape combinations whose adjacency matters (octal length, surrogate pairing); tests sample a handful.",
     ["src/reader.rs"], [("escape decoding", "src/reader.rs: unescape_java and string token handling")],
     {"string_value": e(A), "string_unicode": e(A), "string_pair": e(A), "string_key": e(A), "string_names": e(A), "string_escape_set": e(), "string_lone_surrogate": e(A), "scale_strings": e(A)},
     "two adjacent pieces, each any printable ASCII character, any escape, 1-3 octal digits, any \\uXXXX over selected digit alphabets, surrogate pairs, 2-byte UTF-8 characters (arbitrary in 8x64) and sample 3/4-byte ones; every \\uXXXX and every surrogate pair on its own; texts of up to 130 pieces of three to five characters with escapes",
     "three or more interacting pieces"),
prop("C05", "Floating-point literals denote the nearest double",
     "Every floating-point literal, decimal or hexadecimal, signed, with any exponent or type suffix, is emitted as the IEEE double nearest to the number it denotes (ties to even; infinities by name beyond the range), and NaN and Infinity as themselves.",
     ["inputs"], "all hexadecimal mantissas of up to 19 digits at the stated exponents, all decimal literals of the stated shapes",
     "Rounding, overflow and underflow show only for particular mantissa and exponent combinations.",
     ["src/reader.rs"], [("floating-point literal parsing", "src/reader.rs: parse_floating_point_literal, parse_float_text, parse_hex_float_mantissa_and_exponent")],
     {"float_decimal": e(A), "float_hard": e(A), "float_print": e(A), "float_words": e(A), "float_hex_digits": e(A), "float_hex_round": e(A), "float_hex_range": e(A), "float_hex_exponent": e(A)},
     "decimal: up to three integer and two fraction digits, the first of each arbitrary, exponents 5, 10, -7, 308, -320, all suffixes; 14 literals at the ends of the range and at rounding boundaries with an arbitrary digit; hexadecimal: 1-3 arbitrary digits with the point anywhere in six combinations of sign, case, point and suffix, 13-19 arbitrary digits (middle ones 0-9) at exponents 5 and -60, 2 and 14 digits at 15 exponents at both ends of the range, exponents of 4 to 24 digits; annotation value, default and nested value",
     "other exponents",
     note="std's decimal conversion itself is trusted (the oracle calls it on the literal's own text); hexadecimal conversion is compared with an independent integer computation. Products with symbolic doubles are bit-vector terms when a factor is a power of two, Z3 FP terms otherwise; a product of two symbolic doubles of which one can only be a power of two is split by that factor. Printing (`float_print`) is checked for split digit values only."),
prop("C06", "Every reference denotes the same type in the source and in the output",
     "A type name in the source refers to the type Avro's scoping rules give it (dotted: as written; plain: the enclosing namespace), and the emitted schema, read with Avro's own name resolution, refers to that same full name. Declared types are emitted under exactly their declared full name.",
     ["inputs", "programs"], "all namespace configurations of protocol, referring and referred-to declaration with arbitrary namespace words, any declaration order",
     "Name emission depends on the combination of three namespaces and the place of use; tests pin a few combinations with fixed names, and coincidences such as equal namespaces need particular words.",
     ["src/model/json.rs", "src/reader.rs", "src/compiler.rs"], [("namespace computation of declarations", "src/reader.rs"), ("name shortening in output", "src/model/json.rs: schema_ref_name, named_type_preamble")],
     {"ref_field": e(), "ref_message": e(), "same_simple_name": e(), "nested_scope": e(A), "dotted_declared": e(A)},
     "one to three declarations; each namespace absent, one or two components with one arbitrary letter each; @namespace, dotted and back-quoted names; reference plain or qualified, directly, in array, map, union or optional; from fields, parameters, responses and throws; one declared name (or protocol name) of up to two more components under any annotation and enclosing namespace of up to two components of three letters",
     "more than two namespace components"),
prop("C07", "Each type is defined once, before use, and extracted schemas stand alone",
     "Whatever the order of declarations and however types refer to each other, each declared type is defined exactly once in the protocol output and no name occurs before its definition. Each extracted schema defines, once and before use, exactly the types it reaches, with the definition the source gave.",
     ["programs", "inputs"], "all reference graphs over three records with two reference fields each, three declaration orders, with or without namespace and messages",
     "Definition placement depends on the whole reference graph and order; tests contain a few graphs out of thousands.",
     ["src/model/json.rs", "src/resolve.rs", "src/compiler.rs"], [("inlining at first use", "src/model/json.rs: schema_to_json"), ("schema extraction", "src/compiler.rs: Idl2Schemata")],
     {"graph_protocol": e(A), "graph_schemata": e(A), "inlined_definition": e(A), "kinds_schemata": e(A), "scale_extract": e(A)},
     "three records, first field referring to any of the three or none (direct or in array), second (two records) through union or map; two output forms; four kinds of definitions with docs, aliases, properties and defaults moved by a forward reference in five positions; extraction with a type of four kinds before, between and after two records referring to it; up to 33 types, independent, in a chain or around a hub, extracted",
     "graphs of more than three types"),
prop("C08", "A name that is not declared is an error wherever it is used",
     "A file that refers to a type that is declared nowhere is rejected, wherever the reference stands: field, parameter, response, throws clause, union branch, container, or the main schema declaration. A reference to a declared name is never rejected as undeclared.",
     ["inputs", "programs"], "all spellings of a reference one arbitrary letter away from (or equal to) the declared name, in sixteen positions, declared before or after",
     "A missed position makes the compiler emit a dangling reference silently; tests cover some positions with one name.",
     ["src/compiler.rs", "src/resolve.rs"], [("reference validation", "src/compiler.rs: validate_all_references"), ("unresolved reference collection", "src/resolve.rs")],
     {"undeclared": e(), "undeclared_deep": e(), "scale_undeclared": e()},
     "one reference with one arbitrary letter in sixteen positions, and wrapped in 23 ways (nested containers, unions, optional, annotated) in eleven positions; three kinds of declaration; protocol, namespaced protocol and schema files; conversion and extraction; one undeclared name in four places among up to 70 fields, messages, parameters or types",
     "references inside imported files (C15)"),
prop("C09", "Duplicate declarations and illegal unions are errors, legal ones are not",
     "Two fields, symbols, parameters or types with the same (full) name are rejected wherever they stand and distinct ones are accepted. A union is accepted exactly when it contains no union, at most one branch of each unnamed kind and no named type twice.",
     ["inputs", "programs"], "all pairs of names of two arbitrary letters in eight settings; all unions of up to three branches out of twenty kinds",
     "Equality of arbitrary names and branch combinations (8000+ unions) are beyond sampling; logical types and named types with equal simple names interact.",
     ["src/reader.rs", "src/model/schema.rs", "src/resolve.rs"], [("duplicate detection", "src/reader.rs, src/resolve.rs: register"), ("union rules", "src/reader.rs: walk_union_type")],
     {"duplicates": e(), "unions": e(), "scale_duplicates": e()},
     "name pairs with two arbitrary letters each, of equal or different case, optionally with a declaration between; unions of 1-3 branches from twenty branch types, before or after the declaration of the named ones; two equal ones in any of four and three places among up to 70 fields, variables, symbols, parameters, branches, errors or types",
     "unions of four or more branches; duplicates across imports (C15)"),
prop("C10", "An enum default is accepted exactly when it is one of the symbols",
     "An enum's default symbol is accepted exactly when it is one of the enum's symbols, and is then emitted unchanged along with the symbols in their declared order.",
     ["inputs"], "all enums of up to three symbols and a default, each an arbitrary word",
     "Membership must be exact for arbitrary names; tests use a few fixed ones.",
     ["src/reader.rs"], [("enum default rule", "src/reader.rs: walk_enum")],
     {"enum_default": e(), "scale_symbols": e()},
     "0-3 symbols and a default, each with one arbitrary letter of either case, digit or underscore; up to 70 symbols", "symbols that differ in characters outside ASCII"),
prop("C11", "A default value is accepted exactly when it conforms to its type",
     "A field or parameter default is accepted exactly when its JSON value conforms to the declared type (integer ranges, required record fields, element and value types, any union branch), and is then emitted unchanged on the unchanged type.",
     ["inputs"], "all combinations of 23 types with 23 value shapes containing arbitrary digits and letters",
     "The conformance relation is a product of types and values with numeric edges; tests sample single cells of it.",
     ["src/model/schema.rs", "src/reader.rs", "src/compiler.rs"], [("default validation", "src/model/schema.rs: validate_default, is_valid_default"), ("validation of defaults of named types", "src/model/schema.rs: validate_record_field_defaults")],
     {"default_field": e(), "default_param": e(), "default_record": e(), "default_graph": e(), "default_annotated": e(), "default_import": e(), "scale_defaults": e()},
     "23 field types (all primitives, named types, containers, unions, logical types, annotated type) x 23 value shapes (null, booleans, integers at the 32- and 64-bit edges with an arbitrary last digit, floats, NaN/infinity, strings, strings that look like other values, arrays, objects nested once); records of two fields of seven types, each with or without its own default and given, absent or null in the value, at eight places; two records that refer to themselves or each other through eight types, declared before or after the use, with defaults of their own and 13 values up to four deep; the 23 x 23 product in imported schemas, protocols and parameters; 13 types with three kinds of annotation, plain and inside arrays and annotated maps, x 12 values; arrays, maps and records of up to 70 members of which one may be wrong",
     "defaults nested deeper; an enum's default need only be a string, as in the reference implementation"),
prop("C12", "Annotations are kept verbatim on what they annotate and override nothing",
     "A custom annotation is emitted with exactly its name and JSON value on the declaration, field, message, parameter or type it precedes, and nowhere else, leaving the rest of the output unchanged. An annotation whose name is a structural attribute of that element, or that stands on a reference to a named type, is an error rather than replacing or losing information.",
     ["inputs", "programs"], "all (site, key, value) combinations over 27 sites, 24 structural keys and arbitrary custom keys, and JSON values nested twice",
     "Collisions depend on which key stands on which element: 550 site/key pairs, of which tests try a few.",
     ["src/reader.rs", "src/model/json.rs"], [("annotation collection and reserved names", "src/reader.rs: walk_schema_properties"), ("property emission", "src/model/json.rs")],
     {"annot_custom": e(A), "annot_two": e(A), "annot_reference": e(["rejected"]), "annot_reserved": e(), "annot_twice": e(A), "scale_annotations": e(A)},
     "27 sites; custom keys with two arbitrary letters, dotted/dashed or back-quoted keys; 24 structural keys; JSON values of eight shapes nested to depth 2 with arbitrary letters and digits; two annotations together; one annotation repeated, where the last counts; up to 130 annotations, or members and levels (33) of their values",
     "four or more annotations at once"),
prop("C13", "Logical types keep their base type, name and parameters",
     "A built-in logical type and a @logicalType annotation on any base type are emitted with exactly that base type, logical type name, precision and scale, whether or not the combination is one Avro defines.",
     ["inputs"], "all combinations of seven base types, eleven logical type names, parameters, annotation order and context",
     "Promotion of annotated primitives to logical types rewrites the schema; losing a base or parameter shows only for particular combinations.",
     ["src/reader.rs", "src/model/schema.rs", "src/model/json.rs"], [("promotion", "src/reader.rs: try_promote_logical_type"), ("emission", "src/model/json.rs")],
     {"logical_annotation": e(A), "logical_names": e(A), "logical_parameters": e(A)},
     "7 bases x 11 names x (precision and scale of one arbitrary digit, each present or not) x a custom annotation of six similar names x annotation order x context (field, array, union); five built-in names in five contexts with and without an annotation; precision and scale given as strings, negative, fractional, too large, arrays or null on six bases",
     "three or more parameters"),
prop("C14", "What an imported JSON file declares is emitted unchanged",
     "Every type and message of a valid imported .avsc or .avpr file appears in the output with the full name, fields, references, attributes, defaults, aliases, documentation and properties it has under Avro's reading of that file, whatever namespace the importing file has. A file with names that are not Avro names is an error.",
     ["inputs", "programs"], "all namespace configurations of nested definitions and references, all type expressions of depth 2, all logical types with any parameters, all attribute combinations, all message shapes",
     "The JSON is parsed into the compiler's own model and printed again: anything the model cannot hold, or that is printed relative to another namespace, is lost or changed silently.",
     ["src/import.rs", "src/model/json.rs", "src/resolve.rs"], [("JSON import", "src/import.rs: json_to_schema, import_protocol, import_schema"), ("JSON emission", "src/model/json.rs")],
     {"json_names": e(A), "json_types": e(A), "json_logical": e(A), "json_attrs": e(A), "json_field_props": e(A), "json_messages": e(A), "json_inline_messages": e(A), "json_float": e(A), "json_twins": e(A), "json_invalid_names": e(), "json_dotted_namespace": e(A), "json_null_reference": e(A), "json_strings": e(A), "scale_import": e(A)},
     "two nested named types, each named plainly, with a namespace attribute, dotted, or both, three kinds, three nestings, plain and full references, in .avsc and .avpr with three namespaces each and three importing namespaces; types of depth 2 with arbitrary property values; 10 logical types x 6 bases x 7 precisions x 7 scales; all subsets of definition and field attributes; field properties of eleven names with a meaning elsewhere; two types of one simple name in any two of four namespaces, in one or two files; messages with up to two parameters; named types defined inside a message's parameters, response or errors and referred to from another message and from the importing protocol; 15 floating-point literals with an arbitrary digit, in defaults and property values; names of two arbitrary characters of nine; texts of two arbitrary pieces, escapes and comment marks among them, wherever a definition has text; 24 files with up to 130 of something",
     "invalid JSON schemas other than invalid names (accepted leniently, as documented); integers beyond 64 bits"),
prop("C15", "A file means itself plus everything it imports, each file once",
     "A file's result contains its own declarations and those of every file reachable by imports, each file once however often, under whatever path and in whatever circle it is imported, in order of first import. Import paths are looked up next to the importing file and then in the import directories in order; a missing or faulty import is an error that names it and points at the import or into the faulty file.",
     ["programs", "inputs", "histories"], "all import graphs over four files, all pairs of spellings of one path, all presence patterns along the search path, references in all directions and namespaces, all coincidences of declared names",
     "Which file is read, and in which order and how often, depends on the whole graph of files; tests have a few fixed graphs.",
     ["src/compiler.rs", "src/import.rs", "src/resolve.rs"], [("import resolution", "src/compiler.rs: resolve_single_import, process_decl_items"), ("search path and visited files", "src/import.rs: ImportContext")],
     {"import_graph": e(A), "import_refs": e(A), "import_path": e(), "import_dirs": e(), "import_once": e(A), "import_similar": e(A), "import_names": e(), "import_messages": e(A), "import_same": e(A), "import_diagnostics": e(["rejected"]), "import_blame": e(), "scale_imports": e(A)},
     "four IDL files, the first with up to two imports to any of the four, the others with one, before or after their declarations; two files of three kinds and nine namespace pairs; up to three candidate directories with four spellings and a decoy; a file that imports its neighbour, each in any of six patterns over six directories, with up to two import directories in six places; all pairs of eleven similar file names; own and imported messages of equal names; a protocol that imports another (IDL, JSON, or a chain of two) compiled alone and as an import, in three namespaces each; three imported JSON files of which any refer to an undefined name; two imports of one file under six spellings each (symbolic links included), directly or through another file; names one arbitrary letter apart declared in two files; up to 33 files of each kind imported side by side, in a chain, or in a circle, once or twice",
     "absolute import paths; file systems that change while they are read"),
prop("C16", "Only valid Avro names and namespaces are accepted, and they are kept",
     "Whatever is accepted as the name of a type, field, enum symbol or parameter, or as a namespace, is a valid Avro name (or dotted sequence of names) and is emitted as written; every valid one is accepted. Names of primitive types cannot be redeclared.",
     ["inputs"], "all names of two or three characters from letters, digits, underscore, dash and dot, plain or back-quoted; all namespaces of up to four characters",
     "The name grammar is a predicate over all strings; tests sample a few invalid names.",
     ["src/reader.rs", "src/resolve.rs"], [("name validation", "src/resolve.rs: is_valid_avro_name; src/reader.rs")],
     {"name_valid": e(), "namespace_valid": e(), "reserved_type_names": e(["rejected"]), "near_reserved_names": e(), "scale_names": e()},
     "names: `q` plus two arbitrary characters of [A-Za-z0-9_.-], quoted and not, and two arbitrary ones in back quotes, in seven positions; namespaces: 0-4 characters of [ab.Z_09-$ /], on protocol, record and enum; 17 words of the language with any one character replaced or added, the last one dropped, or in capitals, as the names of four kinds of types; names and namespaces of up to 260 characters or 66 segments, with any of five characters in three places",
     "message and protocol names (not validated by the reference implementation); non-ASCII names"),
prop("C17", "A message is accepted exactly when Avro can express it",
     "A one-way message has a null response and declares no errors, in IDL and in imported protocols; `void` stands nowhere but as a response, and messages nowhere but in protocols. Everything else is an error, every legal message is accepted, and response, errors, parameters and the one-way flag stay with their message.",
     ["inputs", "programs"], "all combinations of response type (to depth 1), parameters and clauses; `void` and a type in twelve positions under six wrappers",
     "The rules are about combinations of clauses; tests try one or two of them.",
     ["src/reader.rs", "src/import.rs"], [("message walker", "src/reader.rs: walk_message"), ("message import", "src/import.rs: json_to_message")],
     {"rule_oneway": e(), "rule_oneway_json": e(), "rule_void": e(), "rule_messages": e(A)},
     "one message of arbitrary name with any response type of depth 1 and any of six clause lists; five imported shapes; void and long in twelve positions; two messages with any of their responses, clauses and defaults",
     "throwing a type that is not an error (the reference implementation accepts it), invalid message names, one-way messages with an empty list of errors"),
prop("C18", "Documentation belongs to what it stands before, without its decoration",
     "A doc comment before a declaration, field, symbol-bearing type, message or variable becomes exactly that element's documentation, with indentation and leading stars removed line by line as Avro does and every other character kept. A doc comment anywhere else gives a warning that marks it and documents nothing.",
     ["inputs", "programs"], "all comment texts of the stated shapes, all positions of a comment between two tokens of a protocol",
     "Star and indent removal depends on every line together; tests pin some shapes of comment and position.",
     ["src/doc_comments.rs", "src/reader.rs"], [("doc comment text", "src/doc_comments.rs: extract_doc_comment, strip_indents"), ("placement", "src/reader.rs: collect_orphaned_doc_comment_warnings")],
     {"doc_text": e(A), "doc_lines": e(A), "doc_chars": e(A), "doc_place": e(A), "doc_many": e(A), "doc_vars": e(A), "doc_lines_all": e(A, thorough=True), "scale_docs": e(A)},
     "texts of up to five arbitrary characters of a decoration alphabet (space, tab, star, CR, LF, letter, slash ...); up to three lines each with any lead, number of stars and rest; every gap between two tokens of a protocol with all constructs; several comments before one declaration; declarations of up to three variables, each documented or not; documentation of up to 130 words or lines, and of up to 130 fields",
     "texts longer than that"),
prop("C19", "A suggested name exists and is the closest one",
     "When an error says `did you mean X`, X is a declared type, a primitive type or a keyword, close to what was written, and none is closer. A reference within one edit (short names) or two edits (longer names) of a declared or primitive type gets a suggestion.",
     ["inputs"], "all references and declared names of the stated shapes; all single and double edits of the primitive types and keywords",
     "Closeness is an edit distance over all pairs of names; tests check a few misspellings.",
     ["src/suggest.rs", "src/compiler.rs", "src/reader.rs"], [("edit distance", "src/suggest.rs: levenshtein"), ("type suggestions", "src/compiler.rs: suggest_similar_name"), ("keyword suggestions", "src/reader.rs: suggest_keyword")],
     {"hint_type": e(["hint", "none"]), "hint_primitive": e(["hint", "none"]), "hint_keyword": e(["hint", "rejected"]), "hint_letters": e(["hint", "none"]), "hint_many": e(["hint", "none"])},
     "references of 1-6 characters, some with letters outside ASCII, against two declared names (one arbitrary), with and without a namespace; three declared names of eight near and far ones in three namespaces; one or two edits with arbitrary capital letters of the eight primitives; one arbitrary edit of twelve keywords, after an optional transposition or deletion",
     "whether a misspelt keyword gets a suggestion, the wording"),
prop("C20", "Diagnostics point at the construct they are about",
     "An error about a name, literal, annotation or statement marks that construct in the source, counted in bytes of the original text whatever precedes it, and a warning about an unknown character marks exactly that character.",
     ["inputs", "programs"], "29 kinds of errors and eight places of warnings behind arbitrary prefixes of multi-byte text, comments and line breaks",
     "Offsets are converted between characters, bytes, lines and columns; an error shows only when wide characters or CRLF precede the construct.",
     ["src/reader.rs", "src/error.rs", "src/compiler.rs"], [("offset conversion", "src/reader.rs: line_col_to_byte_offset, span_from_offsets"), ("diagnostics", "src/reader.rs: make_diagnostic; src/error.rs: ParseDiagnostic")],
     {"spot_error": e(["rejected"]), "spot_import": e(["rejected"]), "spot_warning": e(A), "scale_spot": e()},
     "29 error templates and 8 warning templates with an arbitrary letter, behind none/one of two multi-byte comments, optional LF/CRLF lines and one of five single characters; six errors and warnings after up to 260 line breaks, blanks, comments, characters or 66 declarations; 18 ways an imported file can be wrong, marked at its import statement, in the main or in an imported file",
     "the wording of messages"),
prop("C21", "The answer depends on the input alone",
     "The same input gives the same output, errors, labels, help texts and warnings in the same order every time, whatever order hash tables are iterated in.",
     ["schedules", "inputs"], "all orders in which hash tables can present the harness's names (each key's hash is a symbolic value)",
     "The order of a hash table is drawn anew in every process: a test run passes by luck and the next one differs.",
     ["src/compiler.rs", "src/resolve.rs", "src/reader.rs", "src/model/json.rs", "src/suggest.rs"], [("error collection", "src/compiler.rs: validate_all_references"), ("emission order", "src/model/json.rs")],
     {"determ_output": e(A, repeat=200), "determ_error": e(repeat=200), "determ_output_all": e(A, repeat=200, thorough=True), "determ_error_all": e(repeat=200, thorough=True)},
     "seven valid and 14 faulty templates with an arbitrary letter, as protocol and as schemata; the hash of every key with a harness word is any of three values (thorough: six), which realises every relative order of up to three such keys",
     "tables of more than three harness names; directory listing order (C23)", 
     note="native replay cannot choose hash seeds: a counterexample is replayed up to 200 times until it shows"),
prop("C22", "White space and comments between tokens mean nothing",
     "Inserting white space, line breaks of any kind or comments (other than doc comments) between any two tokens changes neither the result nor its warnings; leaving out white space that separates no words does not either.",
     ["inputs", "programs"], "every gap between two tokens of a protocol, a schema file and imported JSON files, with twelve kinds of trivia containing an arbitrary character",
     "Each grammar rule has gaps of its own, and trees with hidden tokens are read by position in places.",
     ["src/reader.rs", "src/doc_comments.rs", "src/import.rs"], [("token stream and tree walkers", "src/reader.rs: parse_idl_named"), ("comment scanning", "src/doc_comments.rs"), ("comments in JSON files", "src/import.rs: parse_json_with_comments")],
     {"trivia_protocol": e(A), "trivia_schema": e(A), "trivia_none": e(A), "trivia_empty_comment": e(A), "trivia_json": e(A), "trivia_schema_two": e(A, thorough=True), "scale_trivia": e(A)},
     "one insertion at every gap of a 130-token protocol and a 50-token schema file: blanks, line breaks, comments with an arbitrary ASCII character, nested-looking and multi-byte comments (thorough: two insertions into the schema file); one insertion at every gap of imported JSON files; up to 300 blanks, line breaks or comments, or one comment as long, before every token of a protocol of 43 tokens",
     "the character SUB (0x1a), which ends the text by design"),
prop("C23", "Every call stands for itself, and no warning is lost or repeated",
     "A compiler object answers each call as a new object would, whatever it compiled before. The warnings of a call are reported exactly once, with its result or, if it fails, by draining; extracting a directory equals extracting its files in name order.",
     ["histories", "inputs"], "all pairs of calls over ten sources, as text or file, with or without draining; all sequences of three warning-giving parts with six endings; all contents of a directory of four files",
     "State that survives a call shows only in particular sequences of calls, usually after a failure in the middle.",
     ["src/compiler.rs"], [("per-call state", "src/compiler.rs: IdlCompiler"), ("directory extraction", "src/compiler.rs: extract_directory")],
     {"reuse": e(), "warnings_kept": e(), "directory": e(), "scale_warnings": e()},
     "two calls on one object against one call on a new one (conversion and extraction), ten sources and a missing file with equal or different names; three parts out of {misplaced doc, import, stray character, nothing}; four directory entries of five kinds; up to 65 warnings in one file or as many imported ones",
     "longer histories"),
prop("C24", "The command line tool writes what the library computes, where it was told to",
     "`avdl idl` and `avdl idl2schemata` succeed exactly when the library does and the output can be written; they write exactly the library's result, pretty-printed, to exactly the named places (standard output, a file, one .avsc file per schema in the output directory), leave every other file alone, print every warning and error on standard error and nothing else, and write nothing after an error or an option that does not exist.",
     ["inputs", "configurations"], "all combinations of sources (valid, with warnings, with errors), inputs (file, directory, standard input, missing), outputs (standard output, file, existing file, unwritable path, directory) and import directories in either option spelling; every one-character perturbation of the options",
     "What a run leaves behind depends on the combination of input, output, options, warnings and failures; the tests run single combinations.",
     ["src/main.rs", "src/compiler.rs"], [("argument parsing", "src/main.rs: parse_idl_args"), ("output", "src/main.rs: write_output, run_idl, run_idl2schemata")],
     {"cli_idl": e(), "cli_schemata": e(), "cli_args": e(), "cli_options": e(), "cli_full": e(), "cli_dirs": e()},
     "seven sources with an arbitrary type name x six inputs x seven outputs x four import settings for idl; nine sources x three inputs x six output directories x three settings for idl2schemata; all lists of up to four of sixteen arguments (subcommands, files, import directories, help, version, arbitrary options); options with one arbitrary printable character; output that runs out of space after any number of bytes up to 255, on standard output, in a file and in an output directory; up to three import directories in any order around the input",
     "the wording of help, version and messages, more than two positional arguments, types of the same simple name (which share an .avsc file, as in the Java tool), broken pipes", crate="cli"),
prop("C25", "The emitted protocol is exactly what was declared",
     "The output of a well-formed file contains exactly the declared types, fields, symbols, sizes, messages, parameters, responses, errors, one-way flags and documentation, with the declared names, types, values and order, and nothing else.",
     ["programs", "inputs"], "all type expressions to nesting depth 2, all triples of declaration kinds, all message shapes, with arbitrary names",
     "Faithfulness is over the product of constructs; a slip in one walker affects one combination (last field of a list, a doc on a forward type, ...) that golden files miss.",
     ["src/reader.rs", "src/model/json.rs"], [("tree walkers", "src/reader.rs"), ("JSON emission", "src/model/json.rs: protocol_to_json")],
     {"faith_field": e(A), "faith_decls": e(A), "faith_message": e(A), "faith_vars": e(A), "scale_declared": e(A)},
     "one field of any type expression of depth 2 between neighbours; three declarations of any kind with 0-2 members each, docs and defaults; one message with any return type of depth 1, up to two parameters, default, throws of up to two errors, oneway, doc, next to another message; three variables of one declaration, each with or without documentation, annotations and default, with or without documentation for all; protocols with up to 130 fields, variables, symbols, types, messages, parameters, errors, union branches, aliases, annotations, default members, characters, lines or namespace segments, or 33 levels",
     "larger files"),
prop("C26", "A schema file means its main schema, and declarations mean the same in every form",
     "The output of `schema T;` is exactly T with each named type defined in full where it first occurs, under the file's namespace. The same declarations give the same extracted schemas in a protocol, in a schema file and in a file of bare declarations, which has no output of its own.",
     ["programs", "inputs"], "all type expressions of depth 2 as main schema, and all triples of declarations in four forms, with arbitrary names and namespaces",
     "Three walkers and two emitters meet here; the tests cover a handful of files in schema syntax.",
     ["src/reader.rs", "src/compiler.rs", "src/model/json.rs"], [("schema files", "src/reader.rs: walk_idl_file"), ("emission", "src/compiler.rs: convert_impl, extract_impl")],
     {"schema_main": e(A), "schema_forms": e(), "schema_scopes": e(), "schema_imports": e()},
     "one main type of depth 2, annotated or not, three kinds of namespace; three declarations of arbitrary kind with docs, aliases, properties, defaults and references to each other, in four forms; two declarations with namespaces of their own (annotation or dotted name), in either order and any of the four forms; a file of three forms that imports a file of five forms and kinds, in nine pairs of namespaces, with four main types",
     "more than one import in a schema file (C15)"),
prop("C27", "What is emitted can be imported and comes out the same",
     "Importing an emitted protocol gives the same types and messages again, and importing extracted schemas gives the same schemas again, whatever the namespace of the importing file.",
     ["programs", "inputs"], "all triples of declarations with any of four message shapes, with arbitrary names and namespaces",
     "Emission and import are two encodings of the same model written apart; an attribute forgotten on one side shows only in a round trip.",
     ["src/model/json.rs", "src/import.rs", "src/compiler.rs"], [("emission", "src/model/json.rs"), ("import", "src/import.rs")],
     {"round_protocol": e(A), "round_schemata": e(A), "round_props": e(), "scale_import": e(A)},
     "three declarations as in C26, messages with errors, defaults, documentation, properties and one-way flags, importing file in the same or another namespace; annotations with any of 24 structural names or an arbitrary one, with any of six kinds of value, at nineteen sites; 24 protocols with up to 130 of something",
     "protocol documentation and properties (an import does not take them over)"),
prop("C28", "Words of the language are ordinary names where a name is meant",
     "Every word with a meaning in the language can be a name of a field, symbol, message, parameter, annotation, protocol or type (other than the names of primitive and logical types), in back quotes or, where the grammar allows it, without, and gives the same output as any other name.",
     ["inputs"], "35 words in 19 positions, quoted and not, against an arbitrary ordinary word",
     "Whether a word is a name depends on word, position and quoting; tests have a few of the combinations.",
     ["src/reader.rs"], [("identifiers", "src/reader.rs: identifier_text, is_invalid_type_name")],
     {"keyword_names": e()},
     "35 words x 19 positions x quoting", "NaN and Infinity without quotes, which are numbers"),
prop("C29", "Aliases and field order mean what was declared",
     "Type aliases keep their full names under Avro's scoping rules, field aliases keep their names and order, and a field's sort order is the declared one (ascending when not declared). Of a repeated annotation the last counts.",
     ["inputs"], "all alias words and namespace configurations, all orders",
     "Alias shortening depends on the namespaces of alias and type; tests use fixed names.",
     ["src/model/json.rs", "src/reader.rs"], [("alias emission", "src/model/json.rs: alias_ref_name")],
     {"type_aliases": e(A), "field_attrs": e(A), "attrs_twice": e(A), "scale_aliases": e(A)},
     "two aliases, plain and dotted, on four kinds of type with any namespace configuration; 0-2 field aliases and four orders, given once or twice; @namespace, @aliases and @order repeated with arbitrary letters; up to 130 aliases, or fields with order and aliases", "invalid alias names"),
prop("C30", "`type?` puts the branch of its default first",
     "An optional type `T?` is the union of null and T with null first, except that T comes first when the variable's default is not null; each variable of a shared declaration follows its own default.",
     ["inputs"], "all optional types with all value shapes, and three variables sharing a type",
     "The order depends on each variable's own default; a shared mutable schema shows only with several variables.",
     ["src/reader.rs", "src/model/schema.rs"], [("branch order", "src/reader.rs: fix_optional_schema")],
     {"nullable_default": e(), "nullable_many": e(A)},
     "14 optional types x 23 value shapes, on fields and parameters; three variables each with one of four defaults, on int? and on an ordinary union", "optional types inside containers"),
prop("C31", "The explanation of a syntax error is true, whatever stands around it",
     "What the message of a syntax error says about the source holds there: a brace that is called unclosed is not closed, the annotation, fixed type or declaration said to lack something is named as it is written and lacks it, a trailing comma or an empty union is one, a misspelt keyword is not the name of a type, the token called unexpected stands at the marked place, what is listed as expected can be written. Correct declarations and comments before or within the faulty text change neither the explanation nor what it marks.",
     ["inputs", "programs"], "all single-token edits (removed, doubled, replaced, inserted) of a protocol with all constructs, with and without a comment there; annotations of arbitrary names without a value in eight places; twenty faults behind eight texts with a comment in every gap",
     "The explanations are guessed from the text near the error by string patterns; what else stands there decides whether the guess is true. Tests have one text per pattern.",
     ["src/reader.rs"], [("explanations", "src/reader.rs: refine_errors_with_source, enrich_antlr_error"), ("brace matching", "src/reader.rs: open_braces, identify_construct")],
     {"advice_edit": e(["accepted", "unclosed", "value", "comma", "name", "union", "parameter", "size", "kind", "misspelt", "unexpected"]), "advice_annotation": e(["value"]), "advice_context": e(["rejected"]), "advice_expected": e(["expected"])},
     "one edit of a 117-token protocol with 24 replacement tokens, one field name an arbitrary letter, three comment texts; annotation names of seven shapes with up to two arbitrary characters, four gaps, eight places; 20 fault templates x 8 preceding texts x every gap x four comments, one with an arbitrary character; every listed token put in after one edit of the protocol with four more tokens (lists of up to five tokens: accepted there)",
     "two faults at once; whether the best explanation is given; the wording"),
prop("C32", "What compiles is valid Avro, also where it was imported",
     "Whatever file is accepted, every emitted protocol or schema satisfies the rules of an Avro parser: names are valid and defined once, before they are used; members, symbols, parameters and errors are unique; unions are legal; enum defaults are symbols and field defaults conform to their types; orders, aliases and documentation have their types; one-way messages do not answer. What an imported JSON file violates is an error and does not reach the output.",
     ["inputs", "programs"], "every single edit of a protocol, a schema file and imported .avsc and .avpr files; 29 values in place of or beside every member of imported JSON; every byte in 45 contexts",
     "Each rule of Avro is enforced at another place, and twice: once for IDL, once for imported JSON. Any construct that slips through one of them gives output no Avro tool can read; tests look for the rejection of single known violations.",
     ["src/import.rs", "src/reader.rs", "src/resolve.rs", "src/compiler.rs", "src/model/json.rs"], [("rules over imported JSON", "src/import.rs: json_to_schema, json_to_field, json_to_message"), ("rules over IDL", "src/reader.rs: walk_union_type, walk_enum, walk_record, walk_message"), ("defaults", "src/compiler.rs: validate_field_defaults"), ("members and names", "src/resolve.rs: SchemaRegistry::register")],
     {"valid_byte": e(), "valid_edit": e(), "valid_json_edit": e(), "valid_json_values": e(), "valid_json_shape": e(), "valid_json_protocol_shape": e(), "valid_two": e(thorough=True)},
     "one byte (0-127) replaced, inserted, deleted or the text cut, at every position of a 330-byte protocol, a 180-byte schema file, an imported 370-byte .avsc and 240-byte .avpr file; one arbitrary byte (thorough: two) in 45 contexts; 29 JSON values in place of every member of those two files, or as one of twelve members more; 28 values for, or the absence of, each of twelve members that a definition needs or that have a form, in three places of .avsc and .avpr files, and for each of eleven members of a protocol or its messages; conversion and extraction",
     "two violations that make up for each other; JSON values beyond the 29"),
]
