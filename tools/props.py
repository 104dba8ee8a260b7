import json
P=[]
def p(id,title,stmt,over,otext,why,files,mech,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":otext},"why_tests_cant":why,"anchors":a})

p("P01","Scanning, parsing and inspecting arbitrary input never crashes or hangs",
 "For every byte sequence, scanning or parsing it as native configuration, expression, template or traversal, as JSON configuration, or as input to the formatter and the writer terminates without crashing. The outcome is a usable non-nil result, at least one error diagnostic, or both, and never a missing result without an error. Reading content, evaluating, listing variables, navigating and printing the diagnostics of any result, including the partial result of a failed parse, never crashes either.",
 ["inputs"],"every byte sequence up to a few tens of kilobytes, in particular invalid UTF-8, truncated and spliced configuration, unbalanced brackets and deep nesting",
 "Tests use a few hundred hand-written inputs, nearly all valid or with one textbook error; nothing walks the results of broken parses.",
 ["hcl/hclsyntax/parser.go","hcl/hclsyntax/parser_template.go","hcl/hclsyntax/peeker.go","hcl/hclsyntax/scan_tokens.go","hcl/json/parser.go","hcl/json/scanner.go","hclwrite/parser.go","hclwrite/format.go"],
 [("error recovery and newline stack discipline","hcl/hclsyntax/parser.go, peeker.go"),("scanner emits a token for every byte","hcl/hclsyntax/scan_tokens.rl"),("JSON recovery","hcl/json/parser.go")],
 ["public parse and lex functions","methods of the returned files, bodies and expressions"])

p("P02","Native tokens tile the source exactly, with true positions",
 "Scanning native source as configuration, expression or template yields tokens in source order that never overlap, whose bytes are exactly the source bytes at their range, and which leave out nothing but insignificant spaces and a leading byte order mark; the last token is a zero-length end marker at the end of the source. The line and column at each end of each token are those obtained by counting newlines and grapheme clusters from the given starting position.",
 ["inputs"],"every byte sequence and every starting position",
 "Scanner tests list tokens for about a hundred short snippets; multi-line, multi-byte and malformed combinations are not enumerated.",
 ["hcl/hclsyntax/scan_tokens.go","hcl/hclsyntax/scan_tokens.rl","hcl/hclsyntax/token.go","hcl/hclsyntax/public.go"],
 [("token accumulator computing line/column per grapheme","hcl/hclsyntax/token.go emitToken"),("template and heredoc sub-machines","hcl/hclsyntax/scan_tokens.rl")],
 ["token lists returned by the public lexer functions"])

p("P03","Ranges in syntax trees and diagnostics address the real source",
 "For source that parses without errors, every reported source range lies inside the source with start not after end and line and column matching the byte offset, and lies inside the range of the attribute, block or body that contains the construct. Attributes, blocks, their names, labels, equals signs and braces, and literals, quoted templates, function calls, constructors, for expressions, variable references and their steps have ranges covering exactly their text (operations cover their operands without outer parentheses; index and splat operators cover the operator part only). For any source, every diagnostic produced by parsing has a subject range that lies inside the source with matching line and column, and a context range, if any, that contains the subject.",
 ["inputs"],"every source text, well-formed or not, in native syntax (and byte offsets and lines for JSON syntax)",
 "Tests compare ranges of a few dozen one-line examples; parenthesised, multi-line and multi-byte forms are hardly present, and ranges in error paths are almost never compared.",
 ["hcl/hclsyntax/parser.go","hcl/hclsyntax/parser_template.go","hcl/hclsyntax/parser_traversal.go","hcl/hclsyntax/structure.go","hcl/hclsyntax/expression.go","hcl/json/parser.go","hcl/json/structure.go"],
 [("range bookkeeping in the parser","hcl/hclsyntax/parser.go"),("range derivation from tokens","hcl/pos.go RangeBetween, RangeOver")],
 ["Range/StartRange methods, diagnostics Subject/Context"])

p("P04","Parsing native syntax recovers exactly the structure that was written",
 "A configuration written according to the native syntax grammar is accepted, and the attributes, blocks, labels, nesting, order and expression structure (operator precedence, associativity, grouping, bracketing) recovered from it are exactly those written, whatever comments, insignificant newlines and spaces, redundant parentheses or line ending style are used. A configuration that breaks the structural rules, such as a repeated attribute, a missing newline between items, an unclosed bracket or string, or a block where an attribute is required, is rejected with an error.",
 ["inputs","programs"],"every configuration of the grammar and every single structural corruption of one",
 "Parser tests pin about a hundred fixed trees; combinations of constructs with layout variation are unexplored.",
 ["hcl/hclsyntax/parser.go","hcl/hclsyntax/peeker.go","hcl/hclsyntax/expression_ops.go","hcl/hclsyntax/structure.go","hcl/hclsyntax/public.go"],
 [("recursive descent with precedence table","hcl/hclsyntax/parser.go parseBinaryOps"),("newline significance stack","hcl/hclsyntax/peeker.go")],
 ["syntax tree, body content and evaluation of the parsed expression"])

p("P05","Expressions evaluate as the language specification prescribes",
 "Evaluating any well-formed expression over known values gives the value (and type) prescribed by the specification for literals, operators, conditionals, tuple and object constructors, index and attribute access, splat operators, for expressions, function calls with argument expansion and scope lookup through nested contexts. An expression that the specification says is in error yields an error diagnostic, never a wrong value, and evaluation never crashes.",
 ["programs","inputs"],"every expression and every evaluation context of known values, including null",
 "Evaluation tests are a table of single-construct examples; compositions and ill-typed operands are mostly absent.",
 ["hcl/hclsyntax/expression.go","hcl/hclsyntax/expression_ops.go","hcl/ops.go","hcl/traversal.go","hcl/eval_context.go"],
 [("per-node Value methods","hcl/hclsyntax/expression.go"),("operator implementations and parameter conversion","hcl/hclsyntax/expression_ops.go"),("index and attribute primitives","hcl/ops.go, hcl/traversal.go")],
 ["Value result and diagnostics"])

p("P06","Strings, templates and heredocs produce exactly the specified text",
 "Evaluating a quoted template, a heredoc or a standalone template gives exactly the text prescribed by the specification: escape sequences decoded, escaped markers made literal, interpolations converted to strings (or passed through unchanged when they are the entire template), if and for directives expanded, strip markers removing exactly the adjacent literal whitespace, and flush heredocs losing exactly their common indentation. Invalid escapes, unclosed sequences and misplaced directives are rejected with an error.",
 ["inputs","programs"],"every template text, combination of directives, strip markers, line endings and indentation",
 "Template tests have a few dozen fixed strings; interactions of strip markers, directives, indentation and multi-byte text are not covered.",
 ["hcl/hclsyntax/parser_template.go","hcl/hclsyntax/expression_template.go","hcl/hclsyntax/scan_string_lit.go","hcl/hclsyntax/parser.go"],
 [("template part parser with whitespace trimming and flush","hcl/hclsyntax/parser_template.go"),("escape decoding","hcl/hclsyntax/parser.go decodeQuotedStrLit"),("template evaluation","hcl/hclsyntax/expression_template.go")],
 ["Value result and diagnostics"])

p("P07","Evaluation with unknown values never contradicts the eventual outcome",
 "If some inputs of an expression or template are replaced by unknown values, evaluation must not report an error when evaluation with the real values succeeds, and wherever the result is known it must equal the result obtained with the real values; where it is unknown, the type it promises must be the type of the real result or a placeholder for it. This also holds for every way of choosing which inputs, or which parts of inputs, are unknown, and for typed as well as untyped unknowns.",
 ["programs","inputs"],"every expression, every valuation and every replacement of parts of the valuation by unknowns",
 "Tests give a handful of expressions an unknown; none compare an unknown run with its known counterpart.",
 ["hcl/hclsyntax/expression.go","hcl/hclsyntax/expression_template.go","hcl/hclsyntax/expression_ops.go","hcl/ops.go","hcl/traversal.go"],
 [("explicit unknown handling in each node","hcl/hclsyntax/expression.go"),("unknown handling in index and attribute access","hcl/ops.go, hcl/traversal.go")],
 ["pairs of Value results"])

p("P08","Reported variables are exactly those evaluation can depend on",
 "The variables reported for an expression, a body decoded by a specification, or a body with dynamic blocks include every variable that evaluation or decoding consults: providing only the reported ones gives the same outcome as providing all. Names bound locally by for expressions, template loops or dynamic block iterators are not reported where they are bound, every reported reference occurs in the source at its reported range, and changing a variable that is not reported never changes the result. This holds for native, JSON and packed input.",
 ["programs","inputs","configurations"],"every expression, body, decoding specification and valuation",
 "Tests compare variable lists for small examples; nothing relates them to what evaluation reads.",
 ["hcl/hclsyntax/variables.go","hcl/hclsyntax/walk.go","hcl/json/structure.go","hcldec/variables.go","ext/dynblock/variables.go","ext/dynblock/variables_hcldec.go","hclpack/expression.go"],
 [("scope-tracking AST walk","hcl/hclsyntax/variables.go"),("spec-driven walk","hcldec/variables.go, ext/dynblock/variables_hcldec.go")],
 ["variable lists and results of evaluation under restricted contexts"])

p("P09","Decoding a body in parts delivers every item exactly once",
 "Splitting a schema over any sequence of partial extractions, each applied to the remainder of the previous one, delivers the same attributes and the same blocks (with labels, order within each type, and nested bodies) as one complete extraction with the whole schema, never delivers an item twice and never loses one. A final complete extraction or attribute listing of the remainder reports an error if and only if something was left that it does not allow, missing required attributes are reported exactly by the extraction that requires them, and extracting never changes what the original body delivers. This holds for native, JSON, merged, packed, expanded and transformed bodies.",
 ["histories","inputs","configurations"],"every body, schema, split of the schema and order of extraction",
 "Tests use single extraction steps on tiny bodies.",
 ["hcl/hclsyntax/structure.go","hcl/json/structure.go","hcl/merged.go","hclpack/structure.go","ext/dynblock/expand_body.go","ext/transform/transform.go","hcl/structure.go"],
 [("hidden name sets","hcl/hclsyntax/structure.go, hcl/json/structure.go, hclpack/structure.go, ext/dynblock/expand_body.go"),("merged remainders","hcl/merged.go")],
 ["Content, PartialContent, JustAttributes results over call histories"])

p("P10","Merged files behave as one body",
 "Merging several bodies delivers, for any schema, the union of their attributes and the concatenation of their blocks in argument order, whatever the syntax of each. An attribute defined in more than one body is always reported as an error and a required attribute is satisfied by any one of them; content that none of the schema allows is reported wherever it is. Merging merged bodies, merging with empty bodies and merging a single body change nothing.",
 ["inputs","configurations"],"every list of bodies (native, JSON, empty, merged, transformed) and every schema",
 "Tests use hand-made stub bodies in about a dozen combinations.",
 ["hcl/merged.go"],
 [("merged content with duplicate detection","hcl/merged.go mergedContent"),("required flags relaxed per body","hcl/merged.go")],
 ["Content, PartialContent, JustAttributes of the merged body"])

p("P11","JSON configuration is parsed as JSON, losing and inventing nothing",
 "Text accepted as JSON configuration or rejected by it is exactly the text that the JSON grammar (with an object or array of objects at the root) accepts or rejects, and an accepted document delivers every property value exactly: numbers with full precision, strings with all escapes decoded, arrays and objects with all their members in order, booleans and null. When the text is evaluated literally without a context, no value is interpreted; when evaluated with a context, strings are templates and object keys are too, as specified.",
 ["inputs"],"every JSON text, valid or not, and every evaluation mode",
 "Parser tests have about fifty fixed documents.",
 ["hcl/json/parser.go","hcl/json/scanner.go","hcl/json/structure.go","hcl/json/public.go"],
 [("JSON scanner and parser","hcl/json/scanner.go, hcl/json/parser.go"),("expression evaluation","hcl/json/structure.go")],
 ["parse diagnostics, attribute values"])

p("P12","Native and JSON forms of one configuration are equivalent",
 "A configuration expressed in native syntax and the same configuration expressed in any of the JSON forms that the specification allows for it (nested label objects, arrays of bodies, arrays at any label level, repeated properties) give equal results under every schema, decoding specification or decoding target: the same attribute values, the same blocks with the same labels in the same order, and errors in the same cases.",
 ["inputs","configurations"],"every abstract configuration, every JSON encoding of it and every schema",
 "The specification suite compares a few dozen hand-written pairs.",
 ["hcl/json/structure.go","hcl/hclsyntax/structure.go","hcldec/decode.go"],
 [("block unpacking from JSON","hcl/json/structure.go unpackBlock"),("native body content","hcl/hclsyntax/structure.go")],
 ["body content and decoded values from both syntaxes"])

p("P13","Loading a file for editing loses nothing",
 "Loading any valid native configuration for editing and writing it out without edits gives the same tokens and comments in the same order, differing from the source in spaces at most, and equal to the formatted source; the tokens loaded reproduce the layout space for space. The loaded structure exposes exactly the attributes and blocks of the source, and the text of each attribute, its expression and its variables consists exactly of the source tokens that belong to it.",
 ["inputs"],"every valid configuration, with comments anywhere and any layout",
 "Writer tests load about thirty snippets.",
 ["hclwrite/parser.go","hclwrite/ast.go","hclwrite/ast_body.go","hclwrite/ast_expression.go","hclwrite/node.go"],
 [("token partition by source range","hclwrite/parser.go"),("node tree","hclwrite/node.go")],
 ["bytes and tokens of the loaded file"])

p("P14","Edits change exactly what they name",
 "After any sequence of edits through the writer (setting attributes to values or references, appending blocks and line breaks, clearing bodies, renaming references), the output is valid configuration that means exactly the original configuration with those edits applied in order. Everything not named by an edit keeps its tokens, comments and order, and what can be read back from the edited structure agrees with the output.",
 ["histories","inputs"],"every starting file and every sequence of edits",
 "Tests apply one edit to a tiny file.",
 ["hclwrite/ast_body.go","hclwrite/ast_attribute.go","hclwrite/ast_block.go","hclwrite/ast_expression.go","hclwrite/node.go","hclwrite/generate.go"],
 [("linked node list with item index","hclwrite/node.go, hclwrite/ast_body.go"),("token generation","hclwrite/generate.go")],
 ["output bytes re-parsed; accessors"])

p("P15","Formatting changes spacing only and settles in one pass",
 "Formatting any input changes nothing but spaces between tokens: the sequence of tokens and their bytes is unchanged, so formatted configuration parses to the same structure and evaluates to the same values, and the contents of strings, heredocs and comments are untouched. Formatting an already formatted text changes nothing further for valid configuration, nested lines are indented and consecutive attribute equals signs and trailing comments aligned consistently, just behind the longest of their neighbours.",
 ["inputs"],"every byte sequence for token preservation, every valid configuration for idempotence",
 "Format tests compare a few dozen fixed texts.",
 ["hclwrite/format.go","hclwrite/tokens.go","hclwrite/public.go"],
 [("indent, space and cell alignment passes","hclwrite/format.go")],
 ["formatted bytes"])

p("P16","Generated source reproduces the value or reference it was generated from",
 "The source generated for any known value made of the types expressible in the language parses and evaluates to exactly that value, whatever characters its strings and keys contain and whatever the magnitude of its numbers. The source generated for any reference parses to the same reference.",
 ["inputs"],"every known or null value of primitive, list, set, map, tuple and object types, and every absolute reference",
 "Generation tests use about thirty values.",
 ["hclwrite/generate.go"],
 [("value and traversal token generation with escaping","hclwrite/generate.go")],
 ["generated tokens re-parsed"])

p("P17","Specification-driven decoding yields the promised type and value",
 "Decoding any body with any valid specification yields a value that conforms to the type implied by the specification in all cases, including bodies with errors and absent or repeated blocks, and that equals what the specification says for valid bodies: attributes converted to their types, blocks collected in order into lists, sets, tuples, maps or objects keyed by labels, defaults only where the primary value is absent, and transforms applied. An error is reported exactly when the body breaks the schema, the required or count constraints, or a conversion fails; partial decoding leaves exactly the rest.",
 ["inputs","configurations"],"every specification tree and every body, in both syntaxes",
 "Decoder tests have a few dozen spec/body pairs.",
 ["hcldec/spec.go","hcldec/decode.go","hcldec/schema.go","hcldec/public.go","hcldec/block_labels.go"],
 [("per-spec decode, implied type and schema","hcldec/spec.go")],
 ["decoded value, diagnostics, implied type, source ranges"])

p("P18","Struct decoding and encoding agree with the configuration",
 "Decoding a body into a tagged structure assigns to each field exactly the attribute value, block, label or remainder that its tag names, leaves absent optional fields empty, and reports an error exactly when something is missing, repeated, unexpected or not convertible. Encoding a structure produces configuration which decodes back to an equal structure, also when encoding into a body that already has content.",
 ["inputs","programs"],"every structure type of the supported vocabulary and every body",
 "Tests use about forty struct/body pairs and three encodings.",
 ["gohcl/decode.go","gohcl/encode.go","gohcl/schema.go"],
 [("tag-derived schema","gohcl/schema.go"),("reflective decode and encode","gohcl/decode.go, gohcl/encode.go")],
 ["decoded structures and encoded source"])

p("P19","Packed bodies are interchangeable with the originals",
 "Packing a native or JSON body, serialising it to JSON, and reading it back gives a body that delivers the same attributes, values, blocks, labels, variables, errors and source ranges as the original for every way of reading it. Reading any malformed serialised text yields an error or a usable body and never crashes.",
 ["inputs","histories"],"every body, every starting position and every corrupted serialisation",
 "Tests pack a handful of tiny bodies and never corrupt the data.",
 ["hclpack/structure.go","hclpack/expression.go","hclpack/json_marshal.go","hclpack/positions_packed.go","hclpack/pack_native.go","hclpack/vlq.go"],
 [("position packing","hclpack/positions_packed.go"),("source slice per expression","hclpack/pack_native.go"),("serialisation","hclpack/json_marshal.go")],
 ["content and values of the unpacked body"])

p("P20","Dynamic blocks expand to what would have been written by hand",
 "Expanding a body with dynamic blocks and then decoding it gives the same result as decoding the body with each dynamic block replaced by its literal repetitions, in order, with iterator values and custom labels substituted, at every nesting depth, with shadowing, and for every way of reading the body. If a collection to iterate is not yet known, decoding does not fail because of it and does not contradict the eventual result; invalid dynamic blocks are reported as errors.",
 ["inputs","programs","configurations"],"every body with dynamic blocks at any depth, every iterated collection, known or not",
 "Tests use two fixed bodies.",
 ["ext/dynblock/expand_body.go","ext/dynblock/expand_spec.go","ext/dynblock/expr_wrap.go","ext/dynblock/iteration.go","ext/dynblock/unknown_body.go"],
 [("schema extension and expansion","ext/dynblock/expand_body.go"),("iterator scope wrapping","ext/dynblock/expr_wrap.go, iteration.go")],
 ["decoded results of expanded and hand-expanded bodies"])

p("P21","Type expressions and types translate into each other faithfully",
 "A type expression is accepted exactly if it is well formed, and denotes exactly the type written: primitive keywords, nested list, set, map, object and tuple constructors, and the any placeholder only where a constraint is allowed. Rendering a type as source and reading it back gives the same type, in both syntaxes.",
 ["inputs","programs"],"every type and every expression, well-formed type or not",
 "Tests list a few dozen types.",
 ["ext/typeexpr/get_type.go","ext/typeexpr/public.go"],
 [("static analysis of the expression","ext/typeexpr/get_type.go"),("rendering","ext/typeexpr/public.go TypeString")],
 ["types and diagnostics"])

p("P22","User-defined functions compute their result expression over their arguments",
 "Calling a function declared in configuration gives the value of its result expression evaluated with the parameters bound to the arguments in order, the rest in the variadic parameter, in the declared base scope and nothing else; a wrong argument count, a null argument or an evaluation error is reported as an error of the call. Malformed declarations are reported, the others remain usable, and the rest of the body is left for other decoding.",
 ["programs","inputs"],"every set of declarations and every call",
 "Tests have about ten declarations with simple calls.",
 ["ext/userfunc/decode.go","ext/userfunc/public.go"],
 [("closure over result expression","ext/userfunc/decode.go")],
 ["function call results and diagnostics"])

p("P23","Shared objects can be used from many goroutines at once",
 "Parsing, formatting and generating independent inputs concurrently, and evaluating, decoding, listing variables of, navigating, packing, expanding or printing diagnostics for one shared parsed file, body, specification, structure type, function table or evaluation context from several goroutines at once, never races and gives each goroutine exactly the result that a sequential run gives.",
 ["schedules","histories"],"every interleaving of read-only uses of shared objects and of independent uses of the package-level functions",
 "Tests are sequential and run without the race detector.",
 ["hcl/hclsyntax/expression.go","hcl/hclsyntax/structure.go","hcl/json/structure.go","hcldec/spec.go","hclwrite/format.go","ext/userfunc/decode.go","ext/dynblock/expand_body.go","gohcl/decode.go","hclpack/structure.go"],
 [("immutability of syntax trees after parsing","hcl/hclsyntax"),("no package-level mutable state","hclwrite/format.go, hclpack/vlq.go, hcldec/spec.go")],
 ["race detector reports; per-goroutine results"])

p("P24","Reading, evaluating and decoding leave their inputs unchanged",
 "No operation that reads (parsing, lexing, formatting, content extraction, evaluation, decoding, variable listing, navigation, merging, expanding, packing, printing) modifies the source bytes, syntax tree, schema, specification, evaluation context, traversal or diagnostics handed to it; doing the same operation again, in any order relative to other operations, gives the same outcome.",
 ["histories","inputs"],"every history of read operations over shared inputs",
 "Tests use fresh inputs for a single operation.",
 ["hcl/hclsyntax/structure.go","hcl/hclsyntax/expression.go","hcl/json/structure.go","hcl/merged.go","hcl/traversal.go","hcldec/spec.go","hcldec/decode.go","hclwrite/format.go","hclpack/structure.go"],
 [("copy on partial extraction","hcl/hclsyntax/structure.go, hcl/json/structure.go"),("child contexts for iteration","hcl/eval_context.go")],
 ["deep snapshots before and after operations"])

p("P25","Static views of an expression agree with its evaluation",
 "Wherever an expression can be viewed statically as a reference, a keyword, a list, a map or a call, the static view agrees with the expression: following the reference, evaluating the listed elements or key/value pairs, or applying the call gives the value that evaluating the expression gives. Splitting, joining and applying references step by step agree with applying them whole, a reference parsed on its own equals the one parsed within an expression, and a static view is refused with an error exactly for expressions not of that form.",
 ["programs","inputs"],"every expression in native, JSON, packed and wrapped form, and every reference",
 "Tests show each view on one or two expressions.",
 ["hcl/traversal_for_expr.go","hcl/static_expr.go","hcl/expr_list.go","hcl/expr_map.go","hcl/expr_call.go","hcl/expr_unwrap.go","hcl/traversal.go","hcl/hclsyntax/parser_traversal.go","hcl/json/structure.go"],
 [("optional static interfaces on expressions","hcl/expr_*.go"),("traversal application","hcl/traversal.go")],
 ["static views compared with Value"])

p("P26","Position lookups find the construct at the position",
 "For every offset in a file, the blocks, innermost and outermost block, attribute and expression reported at that position are exactly those whose source text contains it, from outermost to innermost, and nothing is reported where there is none; the contextual description for editors names the same blocks with their labels.",
 ["inputs"],"every file and every offset in it, in native and JSON syntax",
 "Tests probe a few offsets of two files.",
 ["hcl/structure_at_pos.go","hcl/hclsyntax/structure_at_pos.go","hcl/hclsyntax/navigation.go","hcl/json/navigation.go","hcled/navigation.go"],
 [("range containment search","hcl/hclsyntax/structure_at_pos.go")],
 ["results of position lookups against brute-force containment"])

p("P27","Source range operations follow interval arithmetic",
 "Containment, overlap, intersection, union, splitting and slicing of source ranges agree with the corresponding operations on sets of byte offsets, with lines and columns carried along from the operands. Scanning a buffer into ranges visits every byte exactly once in order with positions that agree with counting from the start, for any start position and any splitting rule.",
 ["inputs"],"every pair of ranges and every buffer, starting position and split function",
 "Tests have small tables.",
 ["hcl/pos.go","hcl/pos_scanner.go"],
 [("range algebra","hcl/pos.go"),("range scanner","hcl/pos_scanner.go")],
 ["returned ranges"])

p("P28","Printed diagnostics show every problem with its true source text",
 "Writing diagnostics as text emits every diagnostic, in order, with its severity, summary, location, detail and, when the file is available, exactly the source lines that its subject or context covers with the subject highlighted at the right place, at any terminal width, with or without color. The underlying text of the source is reproduced unchanged, word wrapping loses no words, and values shown for variables are those in the evaluation context. Collections of diagnostics report the presence of errors if and only if they contain one.",
 ["inputs"],"every diagnostic, source text, range and width",
 "Tests print about ten fixed diagnostics.",
 ["hcl/diagnostic_text.go","hcl/diagnostic.go"],
 [("snippet rendering with range scanner and partitioning","hcl/diagnostic_text.go")],
 ["written text"])

p("P29","Body transforms and includes reach every block and keep every error",
 "A transform applied deeply is applied to every descendant block body exactly once however the body is read, including through remainders of partial extraction, and leaves everything else as it was. Included files contribute their content at the place of inclusion, and every problem found while including (missing files, invalid paths, errors in included files) is reported rather than lost or turned into a crash.",
 ["inputs","histories","fault_sequences"],"every body, nesting, transform, reading history and set of available or missing files",
 "Tests cover one level of nesting and successful includes.",
 ["ext/transform/transform.go","ext/transform/error.go","ext/include/transformer.go","ext/include/file_resolver.go","ext/include/map_resolver.go"],
 [("deep wrapper","ext/transform/transform.go"),("include resolution","ext/include/transformer.go")],
 ["content of transformed bodies, transform invocation log, diagnostics"])

p("P30","The file registry returns each file once and reports all failures",
 "Loading files through the shared parser gives for each name the result of the first load of that name, reports each problem on the load that discovers it, and never crashes for missing, unreadable or malformed files or for anything asked afterwards; the registered sources are exactly the bytes that were parsed.",
 ["histories","fault_sequences"],"every sequence of loads from memory and disk in either syntax, over present, missing, unreadable and malformed files",
 "There are no tests for the registry.",
 ["hclparse/parser.go"],
 [("file map","hclparse/parser.go")],
 ["files, sources and diagnostics after each step of a history"])

p("P31","Command-line tools do what the library does and touch only what they should",
 "The formatter command writes exactly the library's formatting of each input to standard output or, when asked to overwrite, to that file and no other; it leaves files with reported syntax errors alone when checking, and its exit status tells truthfully whether errors were found or files changed. The decoder command prints exactly the value, variable references or diagnostics that the library gives for the same specification, variables and inputs, and fails if and only if there is an error.",
 ["inputs","configurations","fault_sequences"],"every set of input files, options and specifications",
 "The tools are tested only through a few specification suite runs.",
 ["cmd/hclfmt/main.go","cmd/hcldec/main.go","cmd/hcldec/spec.go","cmd/hcldec/vars.go","cmd/hcldec/type_expr.go","cmd/hcldec/diags_json.go"],
 [("processing loop","cmd/hclfmt/main.go"),("spec file loader","cmd/hcldec/spec.go")],
 ["process output, exit status, file system before and after"])

p("P32","Walking a syntax tree visits every node exactly once, properly nested",
 "Walking a native syntax tree calls the visitor exactly once for each node in it, a node before the nodes below it, and with the nested form enters and leaves nodes in properly nested order with local scopes marked by the names they define. All diagnostics returned by the visitor are handed back. This holds for trees from damaged source as well.",
 ["inputs"],"all syntax trees of configurations, expressions and templates, valid or not",
 "Tests walk a handful of fixed trees; each kind of node has its own list of children to forget one of.",
 ["hcl/hclsyntax/walk.go","hcl/hclsyntax/expression.go","hcl/hclsyntax/structure.go","hcl/hclsyntax/variables.go"],
 [("walk functions","hcl/hclsyntax/walk.go"),("children of each node kind","hcl/hclsyntax/expression.go")],
 ["enter, leave and visit calls with the node identities","diagnostics handed back"])

p("P33","Mock bodies and expressions behave like parsed ones",
 "A mock body delivers its attributes and blocks under the same rules as a parsed body: each item exactly once over any chain of partial extractions, with errors for missing required, left-over and mislabelled items. Mock literals, variables, references and lists evaluate, report variables and convert to static references, lists and keywords as the equivalent native expressions do.",
 ["inputs","histories"],"all contents, schemas and chains of extractions; all mock expressions and nested scopes",
 "The mocks are used in a few tests of their own with tiny contents.",
 ["hcltest/mock.go"],
 [("mock body","hcltest/mock.go"),("mock expressions","hcltest/mock.go")],
 ["content, remainders and errors of each extraction","values, variables and static views of mocks"])

p("P34","The specification suite runner fails exactly when an expectation is not met",
 "The specification suite runner exits with success if and only if every test definition below the given directory is well formed and the decoder's answers for each of its inputs have exactly the expected result, result type, references (with their places) and diagnostics (with severities and places). It runs and names every test.",
 ["inputs","fault_sequences"],"all test definitions and decoder answers, including malformed ones and decoder failures",
 "The runner is itself only used as a test driver; that it would notice a wrong answer is never tested.",
 ["cmd/hclspecsuite/runner.go","cmd/hclspecsuite/test_file.go","cmd/hclspecsuite/traversals.go","cmd/hclspecsuite/diagnostics.go"],
 [("comparison","cmd/hclspecsuite/runner.go"),("definitions","cmd/hclspecsuite/test_file.go")],
 ["exit status and output of the runner with a recording decoder"])

p("P35","Decoding specifications survive sending, and source ranges name the item used",
 "A decoding specification sent through the gob encoding and received decodes every body exactly as the original: same implied type, schema, nested block types and variables, same values and errors. The source range given for a specification over a body without errors is that of the attribute expression, label or block from which the specification takes its value, or the place where a missing item would go.",
 ["inputs"],"all specifications that can be sent, and all bodies in native, JSON and packed form",
 "One test only registers the types; one test covers source ranges of a single attribute.",
 ["hcldec/gob.go","hcldec/public.go","hcldec/decode.go","hcldec/spec.go"],
 [("registration of specification types","hcldec/gob.go"),("source ranges","hcldec/spec.go")],
 ["implied types, values, errors and ranges from original and received specifications"])

p("P36","Problems found in evaluation and decoding are placed where they are",
 "When one part of an expression or body that evaluates and decodes without errors is made unsuitable, every error reported by evaluation, extraction, decoding or expansion has a subject within the text of that part (for a missing item, within the body that lacks it), with line and column that match its offset, and within its context; parts that only fail because the type of a result changed are excepted. The expression and evaluation context attached to a problem go together: the context is the one the caller gave or a scope inside of it, every name in the expression means there what it meant where the problem arose, and in loops and generated blocks it holds the element that caused the problem.",
 ["inputs"],"all expressions, bodies and decoding targets in native and JSON syntax, and all single faults",
 "Tests compare the number and the text of diagnostics; their places and scopes are hardly ever looked at.",
 ["hcl/hclsyntax/expression.go","hcl/hclsyntax/expression_ops.go","hcl/hclsyntax/expression_template.go","hcl/ops.go","hcl/traversal.go","hcl/hclsyntax/structure.go","hcl/json/structure.go","hcldec/spec.go","gohcl/decode.go","ext/dynblock/expand_spec.go","ext/typeexpr/get_type.go","ext/userfunc/decode.go"],
 [("subjects and contexts of problems","hcl/hclsyntax/expression.go"),("scopes of generated blocks","ext/dynblock/expand_spec.go")],
 ["subject, context, expression and evaluation context of every diagnostic"])

p("P37","A failed parse still delivers everything before the fault",
 "If a native configuration has a syntax error, the partial result has every attribute and every block that ends before the first fault exactly as written (names, labels, nested content and expression structure), inside the blocks that were open at the fault, and nothing else from that part of the source. There always is a partial result.",
 ["inputs"],"all configurations with a fault at any place of a body at any depth",
 "Tests of recovery look at a few fixed inputs, mostly at the diagnostics.",
 ["hcl/hclsyntax/parser.go","hcl/hclsyntax/public.go","hcl/hclsyntax/peeker.go"],
 [("recovery","hcl/hclsyntax/parser.go")],
 ["the body returned together with errors"])

p("P38","One problem doesn't hide another, independent one",
 "If each of several faults in parts of an expression, body, decoding target, dynamic block or function declaration that don't depend on each other is reported by itself, then all of them are reported, each at its own place, when they are there together. Parts depend on each other if one decides whether or with what the other is evaluated: operands of logical operators, conditions and branches, loops and their parts, expanded arguments, operand values that fail only in the operation itself, default values, and what is inside of a repeated block or a malformed header. Extraction reports every missing and every unexpected item of a body, in whatever form the body is.",
 ["inputs"],"all expressions, bodies and decoding targets in native and JSON syntax, and all sets of faults in independent parts",
 "Tests have one fault at a time, so that an early return or a lost list of diagnostics shows in none of them.",
 ["hcl/hclsyntax/expression.go","hcl/hclsyntax/expression_ops.go","hcl/hclsyntax/expression_template.go","hcl/hclsyntax/structure.go","hcl/json/structure.go","hcl/merged.go","hcldec/spec.go","hcldec/decode.go","gohcl/decode.go","ext/dynblock/expand_body.go","ext/userfunc/decode.go"],
 [("collection of diagnostics","hcl/hclsyntax/expression.go"),("decoding after errors","hcldec/spec.go")],
 ["all errors of one evaluation, extraction or decoding"])

# statements as they are judged
S={
"P07":"If some inputs of an expression or template that evaluates without error to a known value are replaced by unknown values, evaluation must not report an error, and wherever the result is known it must equal the result obtained with the real values; where it is unknown, the type it promises must be the type of the real result or a placeholder for it. This holds for every way of choosing which inputs, or which parts of inputs, are unknown, and for typed as well as untyped unknowns, while errors that do not depend on the unknown parts are still reported. Not covered are conditionals with an unselected branch in error or of unknown type, and splats over an unknown non-sequence that turns out to be null.",
"P09":"Splitting a schema into parts over any sequence of partial extractions, each applied to the remainder of the previous one, delivers the same attributes and the same blocks (with labels, order within each type, and nested bodies) as one complete extraction with the whole schema, never delivers an item twice and never loses one. A final complete extraction or attribute listing of the remainder reports an error if and only if something was left that it does not allow, missing required attributes are reported exactly by the extraction that requires them, and extracting never changes what the original body delivers. This holds for native, JSON, merged, packed, expanded and transformed bodies.",
"P10":"Merging several bodies delivers, for any schema, the union of their attributes and the concatenation of their blocks in argument order, whatever the syntax of each. An attribute defined in more than one body is always reported as an error (which of the definitions is delivered is unspecified) and a required attribute is satisfied by any one of them; content that none of the schema allows is reported wherever it is. Merging merged bodies, merging with empty bodies and merging a single body change nothing.",
"P11":"Text in valid UTF-8 accepted as JSON configuration or rejected by it is exactly the text that the JSON grammar accepts or rejects (with an object or an array of objects at the root, array members of other kinds being reported when content is asked for), and an accepted document delivers every property value exactly: numbers with full precision, strings with all escapes decoded, arrays and objects with all their members in order, booleans and null. When the text is evaluated literally without a context, no value is interpreted; when evaluated with a context, strings are templates and object keys are too, as specified.",
"P12":"A configuration in which blocks of one type have the same number of labels, expressed in native syntax, and the same configuration expressed in any of the JSON forms that the specification allows for it (nested label objects, arrays of bodies, arrays at any label level, repeated properties) give equal results under every schema, decoding specification or decoding target: the same attribute values, the same blocks with the same labels in the same order, and errors in the same cases.",
"P13":"Loading any valid native configuration for editing and writing it out without edits gives the same tokens and comments in the same order, differing from the source at most in spaces, tabs and a leading byte order mark, and equal to the formatted source; the tokens loaded reproduce the layout space for space. The loaded structure exposes exactly the attributes and blocks of the source, and the text of each attribute, its expression and its variables consists exactly of the source tokens that belong to it.",
"P14":"After any sequence of edits through the writer (setting attributes to values or references, appending blocks and line breaks, clearing bodies, renaming references), the output is valid configuration that means exactly the original configuration with those edits applied in order. Everything not named by an edit keeps its tokens, comments and order, apart from line breaks that what is added needs around it, and what can be read back from the edited structure agrees with the output.",
"P15":"Formatting any valid configuration changes nothing but spaces between tokens: the sequence of tokens and their bytes is unchanged, so formatted configuration parses to the same structure and evaluates to the same values, and the contents of strings, heredocs and comments are untouched; for other input no bytes but spaces and leading byte order marks are added, removed or reordered. Formatting an already formatted text changes nothing further for valid configuration, nested lines are indented and consecutive attribute equals signs and trailing comments aligned consistently, just behind the longest of their neighbours.",
"P16":"The source generated for any known value made of the types expressible in the language parses and evaluates to exactly that value, whatever characters its strings and keys contain and whatever the magnitude of its numbers (up to the precision the language carries). The source generated for any reference parses to the same reference.",
"P17":"Decoding any body with any valid specification yields a value that conforms to the type implied by the specification in all cases (unknown values and placeholder types standing for what could not be decoded), including bodies with errors and absent or repeated blocks, and that equals what the specification says for valid bodies: attributes converted to their types, blocks collected in order into lists, sets, tuples, maps or objects keyed by labels, defaults only where the primary value is absent, and transforms applied. An error is reported exactly when the body breaks the schema, the required or count constraints, or a conversion or transform fails; partial decoding leaves exactly the rest.",
"P18":"Decoding a body into a tagged structure without errors assigns to each field exactly the attribute value, block, label or remainder that its tag names and leaves absent optional fields empty; an error is reported exactly when something is missing, repeated, unexpected or not convertible. Encoding a structure produces configuration which decodes back to an equal structure, also when encoding into a body that already has content.",
"P19":"Packing a native body, serialising it to JSON, and reading it back gives a body that delivers the same attributes, values, blocks, labels, variables, errors and source ranges of attributes, blocks and problems as the original for every way of reading it. Reading any malformed serialised text yields an error or a usable body and never crashes.",
"P20":"Expanding a body with dynamic blocks and then decoding it gives the same result as decoding the body with each dynamic block replaced by its literal repetitions, in order, with iterator values and custom labels substituted, at every nesting depth, with shadowing, and for every way of reading the body. If a collection to iterate is not yet known, decoding does not fail because of it (unless labels depend on it) and does not contradict the eventual result; invalid dynamic blocks are reported as errors.",
"P21":"A type expression is accepted exactly if it is well formed, and denotes exactly the type written: primitive keywords, nested list, set, map, object (with distinct identifiers as attribute names) and tuple constructors, and the any placeholder only where a constraint is allowed. Rendering a type as source and reading it back gives the same type, in both syntaxes.",
"P22":"Calling a function declared in configuration gives the value of its result expression evaluated with the parameters bound to the arguments in order, the rest in the variadic parameter, in the declared base scope and nothing else; a wrong argument count, a null argument or an evaluation error is reported as an error of the call. Malformed declarations are reported, the others remain usable (unless a header lacks its one label), and the rest of the body is left for other decoding.",
"P23":"Parsing, formatting and generating independent inputs concurrently, and evaluating, decoding, listing variables of, navigating, packing, expanding or printing diagnostics for one shared parsed file, body, specification, structure type or function table from several goroutines at once, each with its own evaluation context over shared variables, never races and gives each goroutine exactly the result that a sequential run gives.",
"P24":"No operation that reads (parsing, lexing, formatting, content extraction, evaluation, decoding, variable listing, navigation, merging, expanding, packing, printing, writing out an edited file) visibly modifies the source bytes, syntax tree, schema, specification, evaluation context, traversal or diagnostics handed to it; doing the same operation again, in any order relative to other operations, gives the same outcome.",
"P25":"Wherever an expression can be viewed statically as a reference, a keyword, a list, a map or a call, the static view agrees with the expression: following the reference, evaluating the listed elements or key/value pairs, or applying the call gives the value that evaluating the expression gives. Splitting, joining and applying references step by step agree with applying them whole, a reference parsed on its own equals the one parsed within an expression, and a static view is refused with an error exactly for expressions not of that form.",
"P26":"For every offset in a native file, the blocks, innermost and outermost block, attribute and expression reported at that position are exactly those whose source range contains it, from outermost to innermost, and nothing is reported where there is none. The contextual description and definition range given to editors name the outermost block with its labels (in JSON, the path of the innermost object or array).",
"P27":"Containment, overlap, intersection, union, splitting and slicing of source ranges of one file agree with the corresponding operations on sets of byte offsets, with lines and columns carried along from the operands. Scanning a buffer into ranges visits every byte exactly once in order with positions that agree with counting from the start, for any start position and any splitting rule.",
"P28":"Writing diagnostics as text emits every diagnostic, in order, with its severity, summary, location, detail and, when the file is available, exactly the source lines that its subject or context covers with the (non-empty) subject highlighted at the right place, at any terminal width, with or without color. The underlying text of the source is reproduced unchanged, word wrapping loses no words, and simple values shown for variables are those in the evaluation context. Collections of diagnostics report the presence of errors if and only if they contain one.",
"P29":"A transform applied deeply is applied to every descendant block body exactly once however the body is read, including through remainders of partial extraction, and leaves everything else as it was. Included files contribute their content at the place of inclusion (include blocks at the top of an included file are not followed), and every problem found while including (missing files, invalid paths, errors in included files) is reported rather than lost or turned into a crash.",
"P30":"Loading files through the shared parser gives for each name the result of the first load of that name (or of a later explicit registration), reports each problem on the load that discovers it, and never crashes for missing, unreadable or malformed files or for anything asked afterwards; the registered sources are exactly the bytes that were parsed.",
"P31":"The formatter command writes exactly the library's formatting of each input to standard output or, when asked to overwrite, to that file and no other; it leaves files with reported syntax errors alone when checking, and its exit status tells truthfully whether errors were found or files changed. The decoder command prints exactly the value (without null object properties), variable references or error diagnostics that the library gives for the same specification, variables and inputs, and fails if and only if there is an error.",
}
for x in P:
    x['statement']=S.get(x['id'],x['statement'])

with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    import re,os
    n=len([s for s in re.split(r'(?<=[.])\s+',x['statement']) if s])
    if n>3: print(x['id'],n)
    for fn in x['anchors']['files']:
        if not os.path.exists('/repo/'+fn): print('missing',fn)
