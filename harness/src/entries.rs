pub mod advice;
pub mod canon;
pub mod defaults;
pub mod determ;
pub mod docs;
pub mod faith;
pub mod floats;
pub mod hints;
pub mod imports;
pub mod jsonimp;
pub mod keywords;
pub mod names;
pub mod num;
pub mod once;
pub mod props;
pub mod reuse;
pub mod rules;
pub mod scale;
pub mod schemas;
pub mod smoke;
pub mod spot;
pub mod strings;
pub mod total;
pub mod trivia;
pub mod valid;
pub mod vars;
entries!(
    advice::advice_edit,
    advice::advice_annotation,
    advice::advice_context,
    advice::advice_expected,
    defaults::default_field,
    defaults::default_param,
    defaults::nullable_default,
    defaults::nullable_many,
    defaults::enum_default,
    defaults::default_record,
    defaults::default_graph,
    defaults::default_import,
    defaults::default_annotated,
    determ::determ_output,
    determ::determ_error,
    determ::determ_output_all,
    determ::determ_error_all,
    docs::doc_text,
    docs::doc_lines,
    docs::doc_lines_all,
    docs::doc_chars,
    docs::doc_place,
    docs::doc_many,
    docs::doc_vars,
    faith::faith_field,
    faith::faith_decls,
    faith::faith_message,
    floats::float_decimal,
    floats::float_print,
    floats::float_hard,
    floats::float_hex_digits,
    floats::float_hex_round,
    floats::float_hex_range,
    floats::float_hex_exponent,
    floats::float_words,
    hints::hint_type,
    hints::hint_letters,
    hints::hint_primitive,
    hints::hint_keyword,
    hints::hint_many,
    imports::import_graph,
    imports::import_refs,
    imports::import_path,
    imports::import_dirs,
    imports::import_similar,
    imports::import_messages,
    imports::import_same,
    imports::import_once,
    imports::import_names,
    imports::import_diagnostics,
    imports::import_blame,
    jsonimp::json_names,
    jsonimp::json_types,
    jsonimp::json_logical,
    jsonimp::json_attrs,
    jsonimp::json_field_props,
    jsonimp::json_twins,
    jsonimp::json_messages,
    jsonimp::json_inline_messages,
    jsonimp::json_strings,
    jsonimp::json_float,
    jsonimp::json_dotted_namespace,
    jsonimp::json_null_reference,
    jsonimp::json_invalid_names,
    keywords::keyword_names,
    names::ref_field,
    names::dotted_declared,
    names::ref_message,
    names::same_simple_name,
    names::nested_scope,
    names::type_aliases,
    names::field_attrs,
    names::attrs_twice,
    names::name_valid,
    names::namespace_valid,
    names::reserved_type_names,
    names::near_reserved_names,
    num::int_dec,
    num::int_suffix,
    num::int_hex,
    num::int_oct,
    num::fixed_size,
    num::decimal_precision,
    num::decimal_scale,
    once::graph_protocol,
    once::graph_schemata,
    once::kinds_schemata,
    once::inlined_definition,
    once::undeclared,
    once::undeclared_deep,
    once::duplicates,
    once::unions,
    props::annot_custom,
    props::annot_reserved,
    props::annot_two,
    props::annot_twice,
    props::annot_reference,
    props::logical_annotation,
    props::logical_names,
    props::logical_parameters,
    reuse::reuse,
    reuse::warnings_kept,
    reuse::directory,
    rules::rule_oneway,
    rules::rule_oneway_json,
    rules::rule_void,
    rules::rule_messages,
    scale::scale_declared,
    scale::scale_docs,
    scale::scale_annotations,
    scale::scale_aliases,
    scale::scale_strings,
    scale::scale_import,
    scale::scale_duplicates,
    scale::scale_undeclared,
    scale::scale_symbols,
    scale::scale_defaults,
    scale::scale_imports,
    scale::scale_extract,
    scale::scale_spot,
    scale::scale_warnings,
    scale::scale_trivia,
    scale::scale_names,
    schemas::schema_main,
    schemas::schema_forms,
    schemas::round_protocol,
    schemas::round_schemata,
    schemas::round_props,
    schemas::schema_scopes,
    schemas::schema_imports,
    smoke::smoke,
    spot::spot_error,
    spot::spot_warning,
    spot::spot_import,
    strings::string_value,
    strings::string_key,
    strings::string_names,
    strings::string_escape_set,
    strings::string_lone_surrogate,
    strings::string_unicode,
    strings::string_pair,
    total::total_byte,
    total::total_two,
    total::total_two_all,
    total::total_wide,
    total::total_edit,
    total::total_edit_schema,
    total::total_drop,
    total::total_avsc,
    total::total_avpr,
    total::total_json_values,
    total::total_escapes,
    total::total_deep,
    total::total_json_deep,
    total::total_stack,
    trivia::trivia_protocol,
    trivia::trivia_schema,
    trivia::trivia_schema_two,
    trivia::trivia_none,
    trivia::trivia_json,
    trivia::trivia_empty_comment,
    valid::valid_byte,
    valid::valid_edit,
    valid::valid_json_edit,
    valid::valid_json_values,
    valid::valid_json_shape,
    valid::valid_json_protocol_shape,
    valid::valid_two,
    vars::faith_vars,
);
