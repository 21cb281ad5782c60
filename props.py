"""Which units and which bounded harness decide each property."""
COMMON_ASSUMPTIONS = [
    'The extractor (extractor/) lowers iterator chains, closures, `?`, let-else and matches! to loops and matches as documented in DESIGN.md; the rewrites a unit uses are listed in coverage.extraction_rewrites.',
    'Verus, Z3, rustc and vstd (the specifications of Vec, Option, Result, String, HashMap) are trusted.',
    'Stack depth and memory are treated as unbounded by the proofs; spec-level lengths are mathematical integers.',
]
UNIT_NOTES = {
    'print_exec': ['The output of a Formatter is followed as a token sequence: literal text of write!/writeln! is split into tokens by the extractor, each leaf prints as one token and no two tokens touch (precondition of every write); that this text lexes to those tokens is checked by the harness (the lexer itself: P03).',
                   'Display of bool, i32, str, String, OperationType (strum), Debug of f64, and StringValuePrinter print one token with the same value (harness). Writing into a String never fails. Names of a parsed document are names.',
                   'Indentation widths are not followed (machine addition of usize; recursion of the printers assumed to terminate: they follow the tree).'],
    'print_sdl': ['Token model of the Formatter as in print_exec; StringValuePrinter and BlockStringValuePrinter print one string token with the same value (harness), DirectiveLocation (strum Display) its name.',
                  'BTreeMap iterates its values in key order; the parts of the schema definition are those of the parsed document (from_doc); recursion of the printers terminates.'],
    'lex_block': ['logos: the tokens of block string contents are those of the pinned regular expressions, longest match first, never failing on non-empty input; spans and bump count bytes of UTF-8.', 'Cow<str> and slices of vectors as specified in lex_text.inc / lex_block.inc.'],
    'lex_string': ['logos: the tokens of string contents are those of the pinned regular expressions with the results of their callbacks (under contract), longest match first; where none matches it skips characters up to the next quote, line terminator or backslash at most.', 'u32::from_str_radix on hexadecimal digits and char::from_u32 as specified; positions inside the reported errors are not part of the contract.'],
    'parser_exec': ['Lexer output is an arbitrary token sequence (the lexer itself is checked by P03).'],
    'cmp_criticality': ['Accessors of the schema traits are pure: the same element answers the same each time (core.inc).'],
    'comparator': ['Accessors of the schema traits are pure (core.inc); get_type_definition/get_directive_definition answer the first definition with that name; slice::sort_by_key permutes.',
                   'Value equality is an uninterpreted equivalence (veq).'],
    'v_orch': ['Every visitor method appends its one event (the rules themselves are proved against that call in the v_* units); the macro-generated tuple Visitor/Rule instances, Document::validate composition and the BuiltinRules list are checked by the bounded harness only.',
               "Every root operation type is among the schema's type definitions (roots_defined); accessors are pure."],
    'v_usage': ['Accessors are pure; Indexed (keys by address) is modelled as equality of the wrapped reference; the fragments cache answers the last definition of a name.'],
    'v_vars': ['Accessors are pure (core.inc, exec.inc).'],
    'v_varuse': ['Accessors are pure; selection sets are finite trees (sdepth).', 'BTreeMap/HashSet/HashMap stand-ins (std.inc) specify the collections used.'],
    'v_cycles': ['Accessors are pure; selection sets are finite trees (sdepth); the fragments cache answers the fragment of a name.'],
    'v_fragments': ['Accessors are pure; get_type_definition answers the first definition with that name.'],
    'v_coerce': ['Accessors are pure; values are finite trees (vdepth); InputType::as_ref keeps the structure of the type (input_ref_v); a custom scalar accepts or refuses a value deterministically; Path is a sequence of path elements (path.rs).'],
    'd_schema': ['Accessors of the parsed definitions are pure; InputType/OutputType::base names the innermost type; BTreeMap/HashMap stand-ins (std.inc) specify the collections used.',
                 'DefinitionDocument::insert_builtin* and the assembly of the document from tokens are not under contract (bounded harness).'],
    'v_value': ["coerce_value by its contract (unit v_coerce); the cache answers the resolved type of a variable (VariableDefinitionInputType)."],
    'v_args': ['Accessors are pure; itertools-style grouping (duplicates) is under contract in dups.inc.'],
    'v_fields': ['Accessors are pure; get_type_definition answers the first definition with that name.'],
    'v_dirs': ['Accessors are pure; get_directive_definition answers the first definition with that name.'],
    'v_ops': ['Accessors are pure; the fragments cache answers the fragment of a name.'],
    'op_orch': ['Accessors are pure; the fragments cache answers only names of fragment definitions of the document (cached); every root operation type is among the type definitions (roots_defined); one analyzer at a time (the macro-generated tuple instances are checked by the bounded harness only).'],
    'op_depth': ['The driver by its contract (unit op_orch): analyze returns the output of the analyzer run over the events o_op.', 'The depth of the operation is at most usize::MAX.'],
    'op_values': ['coerce_const_value by contract (unit v_coerce); the cache answers the resolved type of a variable (VariableDefinitionInputType).', 'Variables of an operation are distinct (P08).'],
    'op_size': ['Constant values contain no variables (const_value).', 'Offender names (format!) are opaque.'],
    'op_depr': ['Accessors are pure; InputType::as_ref keeps the structure of the type (input_ref_v); the cache answers the resolved type of a variable.'],
    'd_rules': ['Accessors are pure; references resolve to the definition of that name in the schema (resolved).', 'The macro-generated BuiltinRules composition is checked by the bounded harness only.'],
    'parser_spans': ['The lexer delivers tokens with proper, ordered, non-overlapping ranges (ordered); the lexer itself is checked by the bounded harness only.', 'Lists of definitions (fields, arguments, enum values) keep no public span; type references of definitions are under contract.', 'std::cmp::min/max on usize; the field of Span (a Range) is represented by its two ends.'],
    'parser_sdl': ['Lexer output is an arbitrary token sequence of at most usize::MAX tokens (the lexer itself is checked by P03).', 'DirectiveLocation::from_str and OperationType::from_str (strum derives, pinned) as specified; wrapping of directives (Directives::from) keeps them in order; built-in texts parse to one definition (`parse(text).unwrap()` is `text_dd(text)`/`text_fd(text)`; checked by every run of the harness); HashMap/HashSet with string keys and strum EnumIter/IntoStaticStr as specified.'],
    'json': ['serde_json (Value, Number::as_i64/as_f64 of a finite number, Map::iter) as specified in the unit; entries of the two objects are compared in the same order; a custom scalar does not tell alike values apart (fair).'],
    'parser_tokens': ['The lexer is an arbitrary iterator of tokens and lexical errors.'],
}
PROPS = {
    'P01': dict(level='proof', units=['parser_exec', 'parser_tokens'],
                note='recursive-descent executable grammar proved against a spec grammar over token sequences; whole pipeline incl. lexer bounded'),
    'P02': dict(level='proof', units=['parser_sdl', 'parser_tokens'],
                note='recursive-descent type system grammar proved against a spec grammar over token sequences, definition by definition and for the whole document; built-in scalars, directives and query root fields proved to be added exactly where missing; lexer bounded'),
    'P03': dict(level='proof', units=['parser_tokens', 'lex_block', 'lex_string'], note='contents of strings and block strings proved to be read to the value of the specification, character by character; the regular expressions themselves are read by logos (assumed) and compared by the bounded harness'),
    'P04': dict(level='proof', units=['print_exec'], note='printers of executable documents proved to write exactly the tokens of the document, and the grammar proved to read them back; layout and lexing of the text bounded'),
    'P05': dict(level='proof', units=['print_sdl'], note='printers of schema documents proved to write exactly the tokens of the document, and the grammar proved to read them back (round_trip_sdl); layout and lexing of the text bounded'),
    'P06': dict(level='proof', units=['v_coerce', 'v_value', 'v_orch'],
                note='coerce_value proved to report exactly the offending parts of a value at their paths, and ValueIsValid to report a value exactly when some part is offending'),
    'P07': dict(level='proof', units=['v_usage', 'v_orch'],
                note='AllVariableUsesAllowed proved: variable uses collected by position, allowed exactly as the spec table says; rule composition bounded'),
    'P08': dict(level='proof', units=['v_vars', 'v_varuse', 'v_orch'],
                note='variable rules proved: uniqueness, input types, all uses defined (through fragments), all variables used'),
    'P09': dict(level='proof', units=['v_cycles'],
                note='detect_fragment_cycles proved to terminate and to report an error exactly when the spread graph has a cycle'),
    'P10': dict(level='proof', units=['v_fragments', 'v_orch'],
                note='fragment rules proved: type conditions exist, are composite, and spreads are possible'),
    'P11': dict(level='proof', units=['v_args', 'v_orch'],
                note='RequiredArguments, ArgumentNames and ArgumentUniqueness proved'),
    'P12': dict(level='proof', units=['v_fields', 'v_orch'],
                note='field existence and leaf-selection rules proved'),
    'P13': dict(level='exploration', units=[], note=''),
    'P14': dict(level='proof', units=['v_dirs', 'v_orch'],
                note='DirectivesAreDefined, DirectivesAreInValidLocations and DirectivesAreUniquePerLocation proved'),
    'P15': dict(level='proof', units=['v_ops', 'v_orch'],
                note='operation and fragment name, usage and root-type rules proved'),
    'P16': dict(level='proof', units=['op_depth', 'op_orch'],
                note='the driver sends the analyzers exactly the events of the executed operation (skip/include honoured, fragments expanded once per path), and QueryDepth over these events is the depth of the operation'),
    'P17': dict(level='exploration', units=[], note=''),
    'P18': dict(level='proof', units=['op_orch', 'op_values', 'op_size'],
                note='skip/include evaluation, variable value validity and input-size offenders proved'),
    'P19': dict(level='proof', units=['op_depr', 'op_orch'],
                note='Deprecation proved to report exactly the deprecated elements used by the events of the operation, with their reasons'),
    'P21': dict(level='proof', units=['cmp_criticality'],
                note='criticality of every kind of change proved; the changes it classifies come from compare (P22)'),
    'P22': dict(level='proof', units=['comparator'],
                note='compare reports a change of each kind exactly when the two schemas differ in that way: proved; differences no kind of change exists for are known findings'),
    'P23': dict(level='proof', units=['d_rules', 'd_schema'],
                note='schema rules (unique enum values, unique input fields, circular input objects; termination included), duplicate indexing, reference resolution, root operation types and the conversion itself (Ok if and only if well formed) proved; the insertion of built-in definitions bounded'),
    'P26': dict(level='proof', units=['parser_spans'],
                note='every from_tokens of the executable grammar and of type references proved to give a span from the first token of the node to its last, parts inside; Span::merge proved; token spans, lines and columns and error places bounded'),
    'P20': dict(level='exploration', units=[], note=''),
    'P24': dict(level='proof', units=['json', 'v_coerce'],
                note='as_ref of a JSON value proved to show its structure; any two values that show the same (enum members as strings) proved to be coerced alike, over the contract of coerce_value'),
}
NOT_APPLICABLE = {
    'P25': 'The property is about Rust code generated by proc macros (token streams) and compiled later; no contract on the macro crate expresses the semantics of the generated code, and Verus accepts neither proc_macro/syn nor the serde derives it emits.',
}
