#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are readable)."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
P = []
def p(id, title, statement, qtext, why, files, mech, over=("inputs",), observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": qtext}, "why_tests_cant": why, "anchors": a})
QP = ["src/parser.rs sparql_query_stmt / sparql_query (public)"]
UP = ["src/update.rs update (crate-private; reached through the guarded hook nom_sparql::verif_hooks)"]
UH = "wrapper for the crate-private update parser, under cfg(nom_sparql_verif)"

p("C01", "Every well-formed query parses completely to the query that was written",
  "Every SELECT, CONSTRUCT (both forms), DESCRIBE or ASK query that is well formed by the SPARQL 1.1 grammar, with any combination of its optional parts, is accepted with nothing but white space or comments left over. The returned query has that form, and its select list or template or described resources, DISTINCT/REDUCED, dataset clauses (default or NAMED), WHERE pattern, sub-queries, modifiers and trailing VALUES block are those written, complete and in the written order.",
  "All derivations of the SPARQL 1.1 query grammar (supported terminals), every combination of optional clauses and list lengths.",
  "The repository has no test at all of parser.rs or query/*: no complete query is ever parsed. The number of clause combinations is exponential.",
  ["src/parser.rs", "src/query/select.rs", "src/query/construct.rs", "src/query/describe.rs", "src/query/ask.rs", "src/query/mod.rs", "src/data.rs", "src/clauses.rs"],
  [("query form choice", "src/parser.rs sparql_query"), ("clause sequencing", "src/query/*.rs"), ("dataset clauses", "src/data.rs data_set_clause")], observe=QP)
p("C02", "Prologue declarations are all returned, in order and verbatim",
  "For queries and updates alike, any sequence of BASE and PREFIX declarations in front of the request, including none, repeated prefixes and the empty prefix, is returned as the same sequence of declarations. Each BASE carries its IRI and each PREFIX its prefix (or none) and IRI, character for character, and what follows the prologue parses the same as without it.",
  "All declaration sequences, in front of any query form, update operation or later operation of an update sequence.",
  "Unit tests parse three fixed prologues, never in front of a request.",
  ["src/prologue.rs", "src/terminals.rs", "src/parser.rs", "src/update.rs"],
  [("declaration list", "src/terminals.rs prologue, base_decl, prefix_decl")], observe=QP+UP, hook=UH)
p("C03", "Graph patterns nest exactly as written",
  "A well-formed group graph pattern of any nesting is accepted and the result has, in the written order, exactly the written members: triples blocks, groups and UNION branches, OPTIONAL, MINUS, GRAPH, SERVICE (with its SILENT flag), FILTER, BIND, inline VALUES and sub-selects. No member is lost, duplicated, merged, reordered or given another kind, and optional dots between members make no difference.",
  "All group graph patterns: every member kind at every position and nesting depth.",
  "No unit test parses a group graph pattern; nesting is unbounded.",
  ["src/graph.rs", "src/clauses.rs", "src/query/select.rs", "src/triple.rs", "src/data.rs", "src/expression/mod.rs"],
  [("group and members", "src/graph.rs group_graph_pattern, group_graph_pattern_sub, graph_pattern_not_triples"), ("sub-select", "src/query/select.rs sub_select")], observe=QP)
p("C04", "Triples keep subject, predicates and objects as written",
  "In patterns and in templates, a well-formed triples block yields one entry per written subject, each with its predicate-object lists (';') and object lists (',') complete and in order, collections and blank-node property lists nested as written at any depth, and 'a' recorded as the rdf:type shorthand. Redundant semicolons and a final dot change nothing.",
  "All triples blocks and templates: every subject/object kind, list length and nesting.",
  "The tests cover a dozen fixed strings with lists of length two and one level of nesting, and none in a WHERE pattern.",
  ["src/triple.rs", "src/path.rs", "src/node.rs", "src/var.rs", "src/graph.rs"],
  [("template triples", "src/triple.rs triples_template, triples_same_subject, property_list_not_empty, object_list, collection"), ("pattern triples", "src/path.rs triples_same_subject_path, property_list_path_not_empty, object_list_path")], observe=QP+UP, hook=UH)
p("C05", "Property paths keep their structure and precedence",
  "Every well-formed property path parses to its written structure: '|' separates alternatives, '/' binds tighter and separates sequence steps, '^' inverts one step, '?', '*' and '+' modify the step they follow, parentheses group, and '!' negates a single property or a parenthesised set whose members may be inverted. A modifier is never confused with a following variable or signed number.",
  "All path expressions over IRIs, prefixed names, 'a', negated sets and nested paths, in every predicate position of a pattern.",
  "Only the three modifiers are unit tested, each alone at end of input.",
  ["src/path.rs", "src/expression/iri.rs"],
  [("path grammar", "src/path.rs path_alternative, path_sequence, path_elt_or_inverse, path_elt, path_primary, path_mod, path_negated_property_set"), ("negated-set members", "src/expression/iri.rs iri_or_a_or_caret")], observe=QP)
p("C06", "Expressions keep operators, operands and precedence",
  "Every well-formed expression parses to the operator structure SPARQL prescribes: '||' over '&&' over one comparison or IN / NOT IN test, over '+' and '-', over '*' and '/', over the unary operators, over bracketed expressions, calls, literals and variables. Every operator is recorded as the one written, with all operands in the written order, wherever the expression stands (FILTER, BIND, HAVING, ORDER BY, GROUP BY, select list, arguments) and with or without spaces around operators.",
  "All expressions of the grammar, any length and depth, in every position that takes an expression.",
  "arithmetic.rs, expression/* and call.rs have no test that parses an operator expression.",
  ["src/arithmetic.rs", "src/expression/mod.rs", "src/expression/functions.rs", "src/call.rs"],
  [("operator levels", "src/arithmetic.rs, src/expression/mod.rs expression"), ("primary expressions and function calls", "src/expression/mod.rs primary_expression, src/call.rs function_call, arg_list")], observe=QP)
p("C07", "Each built-in call and aggregate yields its own node with its arguments",
  "Every built-in function and aggregate of SPARQL 1.1, written with any allowed arguments, parses to the node of that function and no other, with all its arguments in the written order; optional arguments, DISTINCT flags, the '*' of COUNT and the GROUP_CONCAT separator are recorded exactly when written. This holds wherever a call may stand.",
  "All built-in names with all allowed argument shapes, in every call position, and nested in each other.",
  "call.rs and aggregate.rs have no tests; some fifty functions are dispatched by ordered alternatives with shared name prefixes.",
  ["src/call.rs", "src/aggregate.rs", "src/expression/functions.rs", "src/expression/mod.rs"],
  [("built-in dispatch", "src/call.rs built_in_call, built_in_call_1, built_in_call_2"), ("aggregates", "src/aggregate.rs"), ("regex, substr, replace", "src/expression/functions.rs")], observe=QP)
p("C08", "Solution modifiers are recorded completely and in their own slots",
  "GROUP BY, HAVING, ORDER BY and LIMIT/OFFSET, in any allowed combination and on any query form or sub-query, are each recorded in their own slot with every condition in the written order. Each GROUP BY condition keeps its optional AS variable, each ORDER BY condition its direction and form, and LIMIT and OFFSET their exact unsigned 64-bit values in either order of writing.",
  "All combinations of modifiers, condition kinds and list lengths, all 64-bit limits and offsets.",
  "Tests parse four LIMIT/OFFSET strings; group.rs and order.rs have no tests.",
  ["src/clauses.rs", "src/group.rs", "src/order.rs"],
  [("modifier sequence", "src/clauses.rs solution_modifier, limit_offset_clause"), ("group conditions", "src/group.rs"), ("order conditions", "src/order.rs")], observe=QP)
p("C09", "VALUES blocks keep every variable, row and cell in place",
  "A VALUES block, inline in a pattern, at the end of a query or at the end of a sub-select, in the one-variable form or the row form, is accepted with its variables, rows and cells exactly as written and in order, including empty variable lists, empty blocks, empty rows and UNDEF cells. Every cell keeps its kind: IRI, literal, number, boolean or UNDEF.",
  "All data blocks: both forms, any number of variables, rows and cells, every cell kind at every position.",
  "Tests parse four fixed blocks of at most two rows, never within a query.",
  ["src/data.rs", "src/clauses.rs", "src/parser.rs"],
  [("data blocks", "src/data.rs datablock, inline_data_one_var, inline_data_full, datablock_value")], observe=QP)
p("C10", "Names: IRIs, prefixed names, variables and blank nodes keep their text",
  "An IRI reference, prefixed name, variable or blank-node label that is a valid SPARQL 1.1 token is accepted and reported with exactly its characters (prefix and local part apart, '?' and '$' variables apart, escapes undecoded), for all of Unicode, and neither swallows a following dot nor stops early. Text that is not one such token is never accepted as one.",
  "All strings over Unicode as candidate tokens, in every position where a term, verb, graph name or declaration may stand.",
  "Tests try about ten ASCII names; the character classes span a million code points and the dot, escape and colon rules depend on context.",
  ["src/terminals.rs", "src/var.rs", "src/graph.rs"],
  [("IRIREF", "src/terminals.rs iri_ref"), ("prefixed names", "src/terminals.rs pname_ns, pname_ln, pn_local, pn_prefix, plx, pn_chars_tail"), ("character classes", "src/terminals.rs is_pn_chars_base, is_unicode, is_pn_char"), ("variables", "src/var.rs var, var_name"), ("blank nodes", "src/graph.rs blank_node")], observe=QP)
p("C11", "Literals: strings, language tags, datatypes, numbers and booleans",
  "Every quoted string in single or double quotes, including the empty one, is reported with exactly the characters between its delimiters (escapes kept as written), with its language tag or datatype IRI exactly when one is written. Integers in the signed 64-bit range are reported as that integer, decimals and doubles as the written significand and exponent (a number ending in a dot, as the existing tests require, is a decimal), true and false as booleans, and malformed literals are not accepted.",
  "All strings as candidate literals over quotes, escapes, line breaks, Unicode, signs, digits, dots and exponents.",
  "Tests try some twenty literals; none is empty, and escapes are never tried.",
  ["src/terminals.rs", "src/literal.rs", "src/node.rs"],
  [("strings", "src/terminals.rs string_literal, rdf_literal, language_tag"), ("numbers", "src/literal.rs numeric_literal, sparql_int, sparql_double, exponent"), ("booleans", "src/literal.rs boolean")], observe=QP)
p("C12", "Graph management operations keep operation, SILENT flag and graphs",
  "LOAD, CLEAR, DROP, CREATE, ADD, MOVE and COPY are each accepted in every well-formed shape and reported as that operation, SILENT exactly when written, with the source and the target graph in their own places and DEFAULT, NAMED, ALL and explicit graphs told apart.",
  "All well-formed graph management operations over every target kind, flag and graph name.",
  "Tests parse two DROP and two CREATE statements and nothing of LOAD, CLEAR, ADD, MOVE or COPY.",
  ["src/operations.rs", "src/update.rs", "src/graph.rs", "src/literal.rs"],
  [("operations", "src/operations.rs load_stmt, clear_stmt, drop_stmt, create_stmt, add_stmt, move_stmt, copy_stmt"), ("targets", "src/graph.rs graph_ref, graph_ref_all, graph_or_default"), ("dispatch", "src/update.rs update_stmt")], observe=UP, hook=UH)
p("C13", "Data updates keep what is deleted apart from what is inserted",
  "INSERT DATA, DELETE DATA, DELETE WHERE and the DELETE/INSERT ... WHERE form are accepted in every well-formed shape and reported as that operation. The deleted and the inserted quads, the WITH graph, the USING and USING NAMED clauses and the WHERE pattern are each reported in their own place, and quads keep their default-graph triples and GRAPH blocks, with the graph names, complete and in the written order.",
  "All well-formed data and pattern updates, every combination of optional parts and any quads.",
  "Two quads strings are tested; no update operation that changes data is parsed by any test.",
  ["src/operations.rs", "src/quads.rs", "src/clauses.rs", "src/update.rs"],
  [("update operations", "src/operations.rs insert_data, delete_data, delete_where_data, modify_stmt, delete_insert; src/clauses.rs insert_clause, delete_clause, using_clause"), ("quads", "src/quads.rs")], observe=UP, hook=UH)
p("C14", "An update request is the sequence of its operations",
  "An update request of any number of operations separated by ';' (optionally ending in one), each with its own prologue, is accepted completely and reported as the same operations in the same order, each under the prologue written in front of it; the empty request and a bare prologue are accepted too.",
  "All sequences of update operations, of any length, mixing all kinds of operations.",
  "update.rs has no tests.",
  ["src/update.rs", "src/operations.rs", "src/terminals.rs"],
  [("sequencing", "src/update.rs update")], observe=UP, hook=UH, over=("inputs", "histories"))
p("C15", "Layout and keyword case do not change the result",
  "Writing any keyword in other upper or lower case, replacing white space between tokens by any other white space, line breaks or comments, adding white space or comments between any two tokens and around the request, or leaving out white space next to brackets and punctuation where the tokens stay separate, changes neither whether a query or update is accepted nor what is returned.",
  "All well-formed requests, every position between two tokens, every keyword.",
  "Unit tests fix one layout for each string; the combinations of position, separator and case are unbounded.",
  ["src/terminals.rs", "src/parser.rs", "src/update.rs", "src/query/select.rs", "src/clauses.rs", "src/graph.rs", "src/path.rs", "src/arithmetic.rs"],
  [("white space and comments", "src/terminals.rs sp, sp1, new_line and the sp_* / preceded_* combinators"), ("case-insensitive keywords", "tag_no_case throughout")], observe=QP+UP, hook=UH)
p("C16", "The parser consumes exactly the longest well-formed prefix",
  "For any sequence of SPARQL tokens, well formed or not, parsing succeeds exactly when some prefix of it is a complete request; the result is then the one of the longest such prefix, and the remainder is the rest of the input. In particular malformed requests (a missing, extra, misplaced or replaced token) are never accepted whole.",
  "All finite sequences of tokens separated by white space, in particular all small corruptions and truncations of well-formed requests.",
  "The tests contain one negative example (a malformed anonymous node).",
  ["src/parser.rs", "src/update.rs", "src/query/select.rs", "src/graph.rs", "src/triple.rs", "src/path.rs", "src/arithmetic.rs", "src/call.rs", "src/operations.rs", "src/quads.rs", "src/data.rs"],
  [("ordered choice, opt and repetition combinators", "all parser functions")], observe=QP+UP, hook=UH)
p("C17", "Parsing any text returns, and the remainder is a suffix of the input",
  "On every text, including truncated, corrupted, non-ASCII and deeply nested ones, the query and update parsers return (no panic, no endless loop, no run time exponential in the nesting depth), and give the same answer when called again. When they succeed, the remainder is a suffix of the input, and parsing just the consumed part gives the same result with nothing left over; when they refuse a text, the place they report lies in the text.",
  "All Unicode strings as input.",
  "Tests only call parsers on two hundred short, almost always well-formed strings.",
  ["src/parser.rs", "src/update.rs", "src/path.rs", "src/terminals.rs", "src/arithmetic.rs"],
  [("hand-written byte slicing", "src/path.rs path_mod"), ("repetition guards", "sp, separated lists throughout")], observe=QP+UP, hook=UH)
p("C18", "Helper predicates and conversions agree with their definition",
  "Two string arguments are compatible exactly when both are simple or xsd:string literals, or both carry identical language tags, or only the first carries one; an aggregate reports distinct exactly when its DISTINCT flag is set; a sign and a path modifier convert from their symbols, and a sign to its symbol, so that conversion there and back is the identity and other text is refused (the empty text stands for an omitted plus sign). Constructors store each argument in the field it names.",
  "All pairs of string literals of each kind, all aggregates, all short strings as symbols.",
  "None of these helpers has a test.",
  ["src/literal.rs", "src/aggregate.rs", "src/arithmetic.rs", "src/path.rs", "src/node.rs", "src/clauses.rs", "src/expression/mod.rs"],
  [("argument compatibility", "src/literal.rs StringLiteral::compatible_arg"), ("distinct", "src/aggregate.rs Aggregate::is_distinct"), ("symbols", "src/arithmetic.rs Sign, src/path.rs PathMod")],
  observe=["public methods of StringLiteral, Aggregate, Sign, PathMod, LimitOffsetClause, Iri, RdfLiteral"])
p("C19", "Each query-form parser accepts exactly the queries of its form",
  "The public parsers of parts of a request (sparql_query, ask_query, construct_query with its two tails sub_construct and sub_triples, describe_query) each accept a text exactly when some prefix of it is a complete query (or CONSTRUCT tail) of that form, without prologue and without the VALUES block that may follow a query. The result is the one of the longest such prefix, with the same tree as within a whole query, and the remainder is the rest of the input; queries of another form are refused.",
  "All queries of every form, whole, with prologue or VALUES around them, cut from them, or damaged at some tokens, offered to every one of these parsers.",
  "No test calls any of these parsers.",
  ["src/parser.rs", "src/query/ask.rs", "src/query/construct.rs", "src/query/describe.rs", "src/query/select.rs"],
  [("form choice", "src/parser.rs sparql_query"), ("forms", "src/query/ask.rs ask_query, src/query/construct.rs construct_query, sub_construct, sub_triples, src/query/describe.rs describe_query")],
  observe=["the public functions named"])
p("C20", "Results compare equal exactly when they are the same syntax tree",
  "The results of parsing two requests compare equal, with == and !=, in either order, exactly when the two requests have the same syntax tree, and so do their debug forms: layout, keyword case, and punctuation without meaning make no difference, while any difference in operation, operator, flag, name, literal, number, order or number of elements does. A result equals its clone, and the clone has the same debug form.",
  "All pairs of requests, in particular pairs that differ in one token anywhere.",
  "Tests compare results with constants of the same shape only; a comparison that overlooks a field would make them weaker, not fail.",
  ["src/query/mod.rs", "src/query/select.rs", "src/query/construct.rs", "src/query/describe.rs", "src/query/ask.rs", "src/update.rs", "src/operations.rs", "src/expression/mod.rs", "src/path.rs", "src/clauses.rs", "src/literal.rs", "src/node.rs", "src/graph.rs"],
  [("PartialEq, Clone and Debug of the tree types", "derives throughout src")], observe=QP+UP, hook=UH)
for x in P: assert len(x["title"]) <= 80, x["title"]
with open(R, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=True) + "\n")
