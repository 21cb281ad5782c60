import json
V="bluejay-validator/src/executable/"
D=V+"document/"
R=D+"rules/"
A=V+"operation/analyzers/"
P="bluejay-parser/src/ast/"
E=P+"executable/"
S=P+"definition/"
def p(id,title,st,over,qt,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    return d
L=[]
L.append(p("P01","Executable documents parse exactly per the GraphQL grammar",
 "Parsing an executable document succeeds if and only if its lexical tokens form a non-empty sequence of operation and fragment definitions of the GraphQL October 2021 grammar. The resulting tree contains exactly the definitions, selections, aliases, arguments, directives, variables, types, default values and literals of the source, in source order, none added, dropped or swapped. Invalid documents yield at least one error and no document; no input makes the parser panic (nesting depth within the stack).",
 ["inputs"],"Every input text; every token sequence the lexer can deliver.",
 "The tests parse a couple of dozen hand-written documents; grammar conformance quantifies over all token sequences, and a wrong look-ahead or a loop that drops or swaps a node shows only on shapes nobody sampled.",
 [E+"executable_document.rs",E+"operation_definition.rs",E+"fragment_definition.rs",E+"selection_set.rs",E+"selection.rs",E+"field.rs",E+"fragment_spread.rs",E+"inline_fragment.rs",E+"type_condition.rs",E+"variable_definition.rs",E+"variable_definitions.rs",E+"variable_type.rs",P+"value.rs",P+"argument.rs",P+"arguments.rs",P+"directive.rs",P+"directives.rs",P+"operation_type.rs",P+"tokens.rs"],
 [("recursive descent from_tokens/is_match",E+"*.rs"),("token look-ahead buffer",P+"tokens.rs LexerTokens"),("error recovery loop",E+"executable_document.rs parse_from_tokens")]))
L.append(p("P02","Schema documents parse exactly per the SDL grammar",
 "Parsing a type-system document produces a definition for a construct if and only if its tokens match the October 2021 SDL grammar for schema, directive, scalar, object, interface, union, enum and input definitions. Every description, field, argument, default value, implemented interface, union member, enum value, directive location, `repeatable` flag and applied directive of the source is present in the tree, in order, and nothing else is. Invalid text yields errors and no schema, never a panic.",
 ["inputs"],"Every SDL text.",
 "Tests parse a few schemas; optional descriptions, leading separators, keyword-named types and optional directives combine in far more ways than the tests list.",
 [S+"definition_document.rs",S+"schema_definition.rs",S+"explicit_schema_definition.rs",S+"object_type_definition.rs",S+"interface_type_definition.rs",S+"interface_implementations.rs",S+"union_type_definition.rs",S+"union_member_types.rs",S+"enum_type_definition.rs",S+"enum_value_definition.rs",S+"input_object_type_definition.rs",S+"input_value_definition.rs",S+"arguments_definition.rs",S+"field_definition.rs",S+"fields_definition.rs",S+"directive_definition.rs",S+"custom_scalar_type_definition.rs",S+"input_type.rs",S+"output_type.rs"],
 [("recursive descent from_tokens",S+"*.rs"),("dispatch on keyword after optional description",S+"definition_document.rs")]))
L.append(p("P03","Literal tokens denote the values the GraphQL spec assigns",
 "Integer, float, string, block-string, name and variable tokens are recognised exactly where the GraphQL lexical grammar has them, ignoring whitespace, commas, comments and BOM. A string literal's value is its text with escapes decoded; a block string's value is the spec's BlockStringValue (common indentation and blank first/last lines removed, \\\"\"\" unescaped, line terminators normalised); integer literals outside 32 bits and malformed literals are reported as errors, not altered.",
 ["inputs"],"Every character sequence.",
 "The tests try about thirty literals; escape, surrogate, indentation and line-terminator combinations are unbounded.",
 ["bluejay-parser/src/lexer/logos_lexer.rs","bluejay-parser/src/lexer/logos_lexer/string_lexer.rs","bluejay-parser/src/lexer/logos_lexer/block_string_lexer.rs","bluejay-parser/src/lexical_token/int_value.rs"],
 [("token regexes and callbacks","bluejay-parser/src/lexer/logos_lexer.rs"),("escape decoding","string_lexer.rs"),("BlockStringValue","block_string_lexer.rs / logos_lexer.rs block_string_value")]))
L.append(p("P04","Printing an executable document and re-parsing it is the identity",
 "For every executable document that parses, printing it yields text that parses again, to a document equal to the first in every definition, name, alias, argument, value, variable, default, directive and selection, in the same order. Printing is therefore idempotent: printing the re-parsed document gives the same text.",
 ["inputs"],"Every executable document.",
 "Printer tests compare four sample files; a construct dropped or mis-separated in some context only shows on documents containing that construct there.",
 ["bluejay-printer/src/executable/operation_definition.rs","bluejay-printer/src/executable/fragment_definition.rs","bluejay-printer/src/executable/field.rs","bluejay-printer/src/executable/inline_fragment.rs","bluejay-printer/src/executable/fragment_spread.rs","bluejay-printer/src/executable/selection_set.rs","bluejay-printer/src/executable/variable_definition.rs","bluejay-printer/src/value.rs","bluejay-printer/src/argument.rs","bluejay-printer/src/directive.rs","bluejay-printer/src/string_value.rs"],
 [("per-node Display printers","bluejay-printer/src/executable/*.rs"),("string escaping","bluejay-printer/src/string_value.rs")]))
L.append(p("P05","Printing a schema and re-parsing it preserves the schema",
 "For every schema that parses, printing it yields SDL that parses again to an equivalent schema: same root operation types, types, fields, arguments, defaults, descriptions, directives, directive definitions, members and values. Nothing is lost, added, merged or attached to a different element.",
 ["inputs"],"Every valid schema.",
 "Printer tests compare a handful of sample schemas; separators, optional sections and description placement interact combinatorially.",
 ["bluejay-printer/src/definition/schema_definition.rs","bluejay-printer/src/definition/field_definition.rs","bluejay-printer/src/definition/directive_definition.rs","bluejay-printer/src/definition/input_value_definition.rs","bluejay-printer/src/definition/union_type_definition.rs","bluejay-printer/src/definition/interface_implementations.rs","bluejay-printer/src/definition/enum_type_definition.rs","bluejay-printer/src/string_value.rs"],
 [("per-definition printers","bluejay-printer/src/definition/*.rs"),("implicit schema detection","schema_definition.rs is_implicit")]))
L.append(p("P06","Input coercion accepts exactly the values of the input type",
 "Coercing a value to an input type succeeds if and only if the GraphQL input-coercion rules accept it: null only for nullable types, list wrapping of single values only at the outermost list position, Int within 32 bits, Int accepted as Float and ID, only declared enum names, and for input objects exactly the declared fields, each at most once, required ones present, with one non-null entry for oneOf objects. Every offending sub-value is reported at its own path, and valid sub-values are never reported.",
 ["inputs"],"Every schema, input type and (constant or variable-bearing) value.",
 "Tests cover some forty value/type pairs; nested wrappers, missing/default/null interplay and duplicates need induction over type and value depth.",
 ["bluejay-validator/src/value/input_coercion.rs","bluejay-validator/src/value/input_coercion/error.rs","bluejay-core/src/definition/input_type.rs","bluejay-validator/src/utils.rs","bluejay-validator/src/path.rs",R+"value_is_valid.rs"],
 [("recursive coercion over type x value","bluejay-validator/src/value/input_coercion.rs")]))
L.append(p("P07","Variable usages are accepted exactly when the types are compatible",
 "A variable used as an argument value, list item or input-object field is reported if and only if its declared type is not usable at that position: the GraphQL AreTypesCompatible relation, relaxed for a nullable variable in a non-null position when either the variable has a non-null default or the position has a default. This holds for usages reached directly or through any chain of fragment spreads, for every operation that reaches them.",
 ["inputs"],"All schemas and documents, all type pairs of any wrapping depth.",
 "Tests check a few type pairs; compatibility is an inductive relation over wrapper nesting and default-value cases.",
 [R+"all_variable_usages_allowed.rs","bluejay-core/src/executable/variable_type.rs","bluejay-core/src/definition/input_type.rs",D+"variable_definition_input_type.rs"],
 [("are_types_compatible / is_variable_usage_allowed",R+"all_variable_usages_allowed.rs"),("fragment reachability",R+"all_variable_usages_allowed.rs")]))
L.append(p("P08","Variables are unique, of input type, defined when used, used when defined",
 "A document is reported for its variables if and only if some operation defines a variable twice, declares one whose type is unknown or not an input type, uses an undefined variable in an argument (directly or through any chain of fragments), or defines a variable never used in that operation or the fragments it reaches. The report names the variable and operation concerned, whatever the order of definitions or cycles among fragments.",
 ["inputs"],"All documents, including cyclic and shared fragments.",
 "Reachability through arbitrary fragment graphs; tests have one- or two-fragment samples.",
 [R+"all_variable_uses_defined.rs",R+"all_variables_used.rs",R+"variable_uniqueness.rs",R+"variables_are_input_types.rs","bluejay-validator/src/utils.rs"],
 [("usage indexing by executable definition",R+"all_variables_used.rs"),("duplicates","bluejay-validator/src/utils.rs")]))
L.append(p("P09","Fragment cycles are reported exactly when they exist",
 "A document is reported for fragment cycles if and only if some fragment reaches itself through one or more spreads, however nested the spreads are and however many fragments the cycle has. Validation always terminates, on cyclic documents too.",
 ["inputs"],"Every fragment graph.",
 "Quantifies over all graphs; tests cover a self-loop and a short cycle.",
 [R+"fragment_spreads_must_not_form_cycles.rs"],[("graph search over spreads",R+"fragment_spreads_must_not_form_cycles.rs")]))
L.append(p("P10","Fragment spreads are accepted exactly when the types overlap",
 "A fragment spread or inline fragment is reported as impossible if and only if the set of object types possible for the enclosing type and for the fragment's type condition are disjoint. Fragments on unknown or non-composite types, and spreads of undefined fragments, are reported, and no others.",
 ["inputs"],"All schemas (interfaces, unions, objects) and all fragment placements.",
 "Depends on every combination of interface implementation and union membership; tests use one fixed schema.",
 [R+"fragment_spread_is_possible.rs",R+"fragment_spread_type_exists.rs",R+"fragments_on_composite_types.rs",R+"fragment_spread_target_defined.rs","bluejay-core/src/definition/schema_definition.rs"],
 [("possible type intersection",R+"fragment_spread_is_possible.rs"),("interface implementors index",S+"schema_definition.rs")]))
L.append(p("P11","Arguments are known, unique and complete at every field and directive",
 "A field or directive is reported for its arguments if and only if some argument is not defined for it, some argument name occurs twice, or an argument of non-null type without default is absent or is the literal null. Every such field and directive in the document is checked, at any depth, in operations and in fragments.",
 ["inputs"],"All schemas and documents.",
 "Any field/directive at any nesting; set comparisons over arbitrary argument lists.",
 [R+"argument_names.rs",R+"argument_uniqueness.rs",R+"required_arguments.rs"],
 [("name/required set difference",R+"required_arguments.rs"),("visitor dispatch",D+"orchestrator.rs")]))
L.append(p("P12","Selections name existing fields and fit their leaf or composite type",
 "A selection is reported if and only if it names a field that its parent type does not have (`__typename` and root introspection fields included where allowed), selects subfields on a leaf type, or omits them on a composite type. Every selection of every operation and fragment is checked against the type it is applied to.",
 ["inputs"],"All schemas and documents.",
 "Scope tracking through nested fields, inline fragments and fragment definitions of any shape.",
 [R+"field_selections.rs",R+"leaf_field_selections.rs",D+"orchestrator.rs","bluejay-core/src/definition/type_definition.rs"],
 [("scoped type propagation",D+"orchestrator.rs"),("unknown field scan",R+"field_selections.rs")]))
L.append(p("P13","Selections are reported as unmergeable only and whenever they conflict",
 "Two selections with the same response name that can apply to the same object are reported if their field names, arguments or response shapes differ, at any depth and through any fragments. Selections that agree, or that apply only to distinct object types with equal shapes, are never reported.",
 ["inputs"],"All documents.",
 "Pairwise recursive relation over arbitrarily nested, shared selections.",
 [R+"field_selection_merging.rs"],[("fields in set can merge",R+"field_selection_merging.rs")]))
L.append(p("P14","Directive applications are defined, well placed and not repeated",
 "A document is reported for a directive application if and only if the directive is not defined by the schema or built in, is applied at a location it does not declare, or is non-repeatable and occurs more than once in one place. Every place that can carry directives is checked: operations, variable definitions, fields, fragment spreads, inline fragments and fragment definitions.",
 ["inputs"],"All schemas and documents.",
 "Every (directive, location) pair in every nesting context; tests sample few.",
 [R+"directives_are_defined.rs",R+"directives_are_in_valid_locations.rs",R+"directives_are_unique_per_location.rs","bluejay-core/src/directive.rs",D+"orchestrator.rs"],
 [("location tagging in the traversal",D+"orchestrator.rs"),("repeat detection",R+"directives_are_unique_per_location.rs")]))
L.append(p("P15","Operations and fragments are uniquely named, supported and used",
 "A document is reported if and only if two operations share a name, an anonymous operation is not the only operation, two fragments share a name, a fragment is never spread, an operation's root type is not defined by the schema, or a subscription selects more than one response name at its root, directly or through fragments. The report is independent of definition order.",
 ["inputs"],"All documents.",
 "Global set properties over any number of definitions in any order.",
 [R+"named_operation_name_uniqueness.rs",R+"lone_anonymous_operation.rs",R+"fragment_name_uniqueness.rs",R+"fragments_must_be_used.rs",R+"operation_type_is_defined.rs",R+"subscription_operation_single_root_field.rs"],
 [("name indexes",R+"*.rs")]))
L.append(p("P16","Query depth is the maximum nesting of included fields",
 "The computed depth of an operation equals the largest number of nested fields on any path from the root, counting fragments and inline fragments as transparent and ignoring selections excluded by @skip or @include for the given variable values and defaults.",
 ["inputs","configurations"],"All operations, variable values and limits.",
 "Structural induction over selection trees with fragments.",
 [A+"query_depth.rs",V+"operation/orchestrator.rs"],[("depth counter on field enter/leave",A+"query_depth.rs")]))
L.append(p("P17","Complexity cost equals the cost of the largest possible response",
 "The complexity of an operation is the sum over included selections of each field's cost times the multipliers of its ancestors, with fields of the same response name merged (maximum, not sum) and, at abstract types, the most expensive alternative counted; it is never less than the largest cost a response to a valid operation can have, and a field counts for an object type whenever the innermost type its selection is scoped to covers that type. The result does not depend on selection order or on how selections are split into fragments, saturates instead of overflowing, and the default and Relay cost computers apply their documented rules (Relay: for documents without merging conflicts).",
 ["inputs","configurations"],"All operations, variable values and cost functions.",
 "Merging across fragments, scopes and type alternatives is a recursive maximum; tests have fixed examples.",
 [A+"complexity_cost.rs",A+"complexity_cost/relay_cost_computer.rs",A+"complexity_cost/cost_computer.rs",A+"complexity_cost/arena.rs"],
 [("scope arena and merged maximum",A+"complexity_cost.rs"),("Relay connection multipliers",A+"complexity_cost/relay_cost_computer.rs")]))
L.append(p("P18","Analyses honour variables, defaults, @skip and @include",
 "An operation analysis visits a selection if and only if no @skip evaluates to true and no @include evaluates to false under the supplied variable values and variable defaults. Supplied variable values are accepted if and only if each is valid for its declared type, required variables are present and no unknown variable is given; input-size analysis reports every argument (or nested list or input field) of an included selection whose list is longer than the limit, seeing through variables and their defaults, and reports nothing whose list is not; lists inside a reported list are not examined, and selections excluded by a directive may be reported too.",
 ["inputs","configurations"],"All operations and variable assignments.",
 "All combinations of directives, literals, variables, defaults and nesting.",
 [V+"operation/orchestrator.rs",V+"operation/variable_values.rs",A+"variable_values_are_valid.rs",A+"input_size.rs"],
 [("included evaluation",V+"operation/orchestrator.rs"),("variable coercion",A+"variable_values_are_valid.rs")]))
L.append(p("P19","Deprecation analysis lists exactly the deprecated elements used",
 "For every operation, the deprecation analysis reports a deprecated field, argument, input field or enum value, with its reason, if and only if a selection, argument or value of the operation uses it, including uses in fragments, nested lists and input objects and in variable values. Nothing not deprecated is reported (excluded selections' arguments and unused defaults may be).",
 ["inputs"],"All schemas and operations.",
 "Uses may be nested arbitrarily in values and fragments.",
 [A+"deprecation.rs"],[("visitor over fields and arguments",A+"deprecation.rs")]))
L.append(p("P20","A scoped schema exposes exactly the visible part of the schema",
 "Through a scoped schema, a definition, field, argument, input field, enum value, union member, interface implementation or directive is observable if and only if the visibility rule accepts it and every type it needs is itself visible. Lookups by name and reverse look-ups (possible types, implementors, referenced types) agree with each other whatever was asked before, iteration lists exactly the visible types and directives that can be reached from the roots, the directives applied to the schema and the directives a document may use, and no reference leads to a hidden type. (The rule leaves at most one of several same-named fields visible.)",
 ["inputs","configurations"],"All schemas and visibility rules.",
 "Quantifies over all subsets of visible elements; tests use one rule.",
 ["bluejay-visibility/src/warden.rs","bluejay-visibility/src/schema_definition.rs","bluejay-visibility/src/cache.rs","bluejay-visibility/src/fields_definition.rs","bluejay-visibility/src/input_fields_definition.rs","bluejay-visibility/src/enum_value_definitions.rs","bluejay-visibility/src/union_member_types.rs","bluejay-visibility/src/interface_implementations.rs","bluejay-visibility/src/output_type.rs","bluejay-visibility/src/input_type.rs"],
 [("warden predicates","bluejay-visibility/src/warden.rs"),("filtered definition wrappers","bluejay-visibility/src/*.rs")]))
L.append(p("P21","A schema change is called safe only if clients cannot break",
 "The comparator classifies a change of an output field's type as non-breaking if and only if every value of the new type is a value of the old one (GraphQL covariance), and of an input type if and only if every value of the old type is accepted by the new one. Removing something clients may use, or adding something they must supply, is always breaking; criticality depends only on the change, not on where or how often it occurs.",
 ["inputs"],"All pairs of schemas and all type wrappings.",
 "Inductive relation over wrapper nesting on pairs of types; tests have a few pairs.",
 ["bluejay-schema-comparator/src/diff/field.rs","bluejay-schema-comparator/src/diff/input_field.rs","bluejay-schema-comparator/src/diff/argument.rs","bluejay-schema-comparator/src/changes.rs"],
 [("is_change_safe_for_field / is_change_safe_for_input_value","bluejay-schema-comparator/src/changes.rs"),("criticality","bluejay-schema-comparator/src/changes.rs")]))
L.append(p("P22","The comparator reports every difference once and nothing else",
 "Comparing two schemas yields, for every added, removed or altered type, kind, field, argument, input field, enum value, union member, interface, default value, description, deprecation, directive definition, directive location and applied directive, exactly one corresponding change, and yields no changes for equal schemas, whatever the order of definitions. Swapping the two schemas turns additions into removals and vice versa.",
 ["inputs"],"All pairs of schemas.",
 "All combinations of presence/absence on each side at each level; tests compare one large pair.",
 ["bluejay-schema-comparator/src/diff/schema.rs","bluejay-schema-comparator/src/diff/object_type.rs","bluejay-schema-comparator/src/diff/interface_type.rs","bluejay-schema-comparator/src/diff/union_type.rs","bluejay-schema-comparator/src/diff/enum_type.rs","bluejay-schema-comparator/src/diff/enum_value.rs","bluejay-schema-comparator/src/diff/input_object_type.rs","bluejay-schema-comparator/src/diff/input_field.rs","bluejay-schema-comparator/src/diff/field.rs","bluejay-schema-comparator/src/diff/argument.rs","bluejay-schema-comparator/src/diff/directive.rs","bluejay-schema-comparator/src/diff/directive_definition.rs","bluejay-schema-comparator/src/diff/directive_definition_argument.rs"],
 [("set difference per definition kind","bluejay-schema-comparator/src/diff/*.rs")]))
L.append(p("P23","Only well-formed schemas become schema definitions",
 "Converting a parsed type-system document to a schema succeeds if and only if every referenced type and directive exists and is of a kind allowed at that place, type and directive names are unique, the query root exists, root and implemented types are of the right kind. Schema validation further reports exactly the enums with duplicate values, input objects with duplicate fields, and input objects that require themselves through non-null fields.",
 ["inputs"],"All SDL documents.",
 "Reference graphs of arbitrary size and shape; tests list single cases.",
 [S+"definition_document.rs",S+"definition_document/definition_document_error.rs","bluejay-validator/src/definition/rules/enum_value_definition_uniqueness.rs","bluejay-validator/src/definition/rules/input_field_definition_uniqueness.rs","bluejay-validator/src/definition/rules/input_object_circular_references.rs"],
 [("reference resolution",S+"definition_document.rs"),("circular reference search","bluejay-validator/src/definition/rules/input_object_circular_references.rs")]))
L.append(p("P24","JSON and GraphQL values are interpreted consistently",
 "A JSON value seen as a GraphQL value has the same structure: null, booleans, strings, 32-bit integers, other numbers as floats, arrays in order, objects with the same entries. Variable-typed input given as JSON is accepted or rejected exactly as the equivalent GraphQL literal is for types where both notations exist.",
 ["inputs"],"All JSON values.",
 "All numbers and nesting; tests use few.",
 ["bluejay-core/src/value/serde_json.rs","bluejay-core/src/value.rs","bluejay-validator/src/value/input_coercion.rs"],
 [("as_ref conversion","bluejay-core/src/value/serde_json.rs")]))
L.append(p("P25","Generated Rust types accept exactly the responses and inputs of the schema",
 "Types generated from a schema and queries deserialize every response the schema permits for the query and serialize input values the schema accepts.",
 ["programs","inputs"],"All schemas and queries given to the macro.",
 "The generated program depends on the schema; tests compile one schema.",
 ["bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs","bluejay-typegen-macro/src/lib.rs"],
 [("token generation","bluejay-typegen-macro/src/*")]))
L.append(p("P26","Reported source positions lie on the text they describe",
 "The span of every syntax-tree node is a valid byte range of the input on character boundaries that runs from the node's first token to its last, so it contains the spans of its parts; a name's, variable's or literal's span covers exactly its source text. Merging two spans gives the smallest span covering both. The first syntax error is placed at the first token that cannot continue the document (at the end of the text if none is left), and lines and columns count from 1, columns in characters (texts with line separators other than \\n, \\r\\n and \\r excluded). When a description is followed by nothing that can be described, the description itself may be the place.",
 ["inputs"],"All inputs, including non-ASCII and invalid ones.",
 "Needs every node kind in every context; tests compare spans of a few tokens.",
 ["bluejay-parser/src/span.rs",P+"tokens.rs","bluejay-parser/src/lexical_token/punctuator.rs","bluejay-parser/src/lexical_token/name.rs",E+"field.rs",E+"operation_definition.rs",S+"input_type.rs"],
 [("Span::merge","bluejay-parser/src/span.rs"),("span bookkeeping in from_tokens",P+"*.rs")]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in L))
for x in L:
    assert len(x["title"])<=80,x["id"]
print(len(L))
