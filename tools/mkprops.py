#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so statements stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

R="src/reader.rs"; J="src/model/json.rs"; S="src/model/schema.rs"; I="src/import.rs"; C="src/compiler.rs"; V="src/resolve.rs"; D="src/doc_comments.rs"; M="src/main.rs"; E_="src/error.rs"
api=["avdl::Idl::convert / convert_str / convert_str_named","avdl::Idl2Schemata::extract / extract_str"]

p("C01","Compiled JSON contains exactly what the IDL source declares",
 "For every valid IDL file, the compiled protocol or schema JSON contains every declared type, field, enum symbol, enum default, fixed size, order, alias and message with exactly the declared name, kind, type and position (declaration order is preserved), and contains nothing that was not declared. A declared thing is never lost, duplicated, reordered, merged with another or replaced, however many there are and however deeply they nest.",
 ["programs","inputs"],"all valid IDL programs: protocols, schema files, any mix, number and nesting of declarations",
 "Golden-file and snapshot tests compare a few dozen fixed inputs; nothing exercises combinations of features, sizes or nesting against an independently computed expectation.",
 [R,S,J,C],[("tree walk builds the domain model",R+": walk_idl_file, walk_protocol, walk_record, walk_enum, walk_fixed"),("JSON emission",J+": protocol_to_json, schema_to_json")],api)
p("C02","Every type name and reference denotes the type the source designates",
 "In every output, each type definition has the full name (namespace and simple name) that the source's namespace rules give it (dotted name, then @namespace, then the enclosing namespace, which inside a record body is the record's own), and each type reference, read by the Avro specification's name-resolution rules, denotes exactly the type that the source reference denotes; each alias of a type, read in the same way, is exactly the name written. Omitting or shortening a namespace in the output never changes which type a name denotes, even when several namespaces contain the same simple name or a type is named like an Avro keyword.",
 ["programs","inputs"],"all combinations of enclosing namespaces, explicit namespaces, dotted names, same simple names in several namespaces, keyword-like names, references from fields, containers, unions, messages and throws",
 "Tests contain a handful of two-namespace examples; ambiguity only appears for particular combinations of nesting, shadowing and shortening.",
 [R,J,V,I,S],[("namespace computation",R+": compute_namespace, walk_record, walk_nullable_type"),("name shortening on output",J+": schema_ref_name, named_type_preamble"),("registry keys",V)],api)
p("C03","Named types are defined once, at first use, in self-contained output",
 "In every output document, each named type reachable from it is defined in full exactly once, at the first place (in document order) where it is used or declared, and appears by name only after that; every name that appears is defined earlier in the same document. This holds for forward references, recursive and mutually recursive types, imported types, and for each schema extracted on its own.",
 ["programs","inputs"],"all reference graphs: forward, recursive, mutually recursive, diamond, cross-namespace, through arrays, maps, unions, messages and imports; protocol, schema and extracted outputs",
 "Tests check a few specific recursive examples; the invariant is about every reachable type in every document.",
 [J,C,V],[("known-names tracking and inlining at first use",J+": schema_to_json, protocol_to_json, build_lookup"),("per-schema fresh known set",C+": Idl2Schemata::extract_impl")],api)
p("C04","Literal values reach the output with exactly the value written",
 "Every literal in the source - field defaults, annotation values, sizes, precisions and scales; integers in decimal, hexadecimal and octal with L suffix; decimal and hexadecimal floating-point with suffixes; NaN and infinities; strings with every escape form; booleans, null, arrays and nested objects - appears in the output JSON with exactly the value it denotes under the IDL grammar's (Java) literal rules. No integer is rounded, truncated, wrapped or changed in radix, no float differs from the nearest double (up to the documented string form of NaN and infinities), and no character of a string is lost or altered (an escape for half a surrogate pair, standing alone, is kept as written).",
 ["inputs"],"all literal tokens the grammar accepts, in every position that takes a JSON value",
 "Unit tests pick individual literals; the boundary space (radix x sign x width x suffix; escape sequences x surrogate pairs x Unicode) is not sampled.",
 [R],[("integer literals",R+": parse_integer_literal, parse_integer_as_u32"),("float literals",R+": parse_floating_point_literal, parse_hex_float_mantissa_and_exponent"),("string escapes",R+": unescape_java")],api)
p("C05","Doc comments land on the declaration they precede, with their text intact",
 "A documentation comment immediately preceding a protocol, record, error, enum, fixed, field, variable, message or parameter becomes that item's doc (a variable's own comment wins over its declaration's; the nearest of several wins) and never another's; items without one have no doc. The doc text is the comment body with comment markers, leading-asterisk decoration or common indentation, and surrounding blank space removed, every other character unchanged, including Unicode text and with CRLF line ends.",
 ["programs","inputs"],"all placements of doc comments over all declaration kinds and all comment body shapes",
 "Tests fix a few comment layouts; attachment depends on token adjacency and the stripping on every line of the body.",
 [R,D],[("hidden-token scan for the nearest doc",D+": extract_doc_comment"),("body stripping",D+": strip_indents"),("variable doc overrides declaration doc",R+": walk_variable, walk_message")],api)
p("C06","Annotations reach exactly the schema element they annotate, or are rejected",
 "Every annotation on a protocol, named type, field variable, field type, nested type, message or parameter appears with its exact name and value on that element in the output and nowhere else; namespace, aliases and order act as names, aliases and sort order only where the element has them; an annotation on T? lands on the non-null branch; the last of duplicate annotations wins. An annotation that would overwrite a structural attribute of its element, or that annotates a type reference, is rejected, so annotations never change the structure of the schema they are put on, apart from recognised logical types.",
 ["programs","inputs"],"all annotation names (custom, reserved per context, intercepted, logical type attributes) x all annotatable positions x all JSON values",
 "Tests check single annotations in single positions; the context-dependent interception and reservation tables form a cross product.",
 [R,S,J],[("context-sensitive interception and reserved sets",R+": walk_schema_properties, PropertyContext"),("property merge",S+": with_merged_properties; "+R+": apply_properties")],api)
p("C07","Imports contribute each file's types and messages exactly once, in order",
 "Compiling a file whose imports form any graph (IDL, protocol and schema files; chains, diamonds, cycles, self-imports; relative paths in sub-directories, equivalent spellings and symbolic links of one file; import directories) yields the types of every reachable file exactly once, with imported types placed where the import statement stands, and the messages of imported protocols merged in. A path is looked up in the importing file's own directory first and then in the import directories in the order given; an import that cannot be found or parsed fails the compilation.",
 ["configurations","programs","inputs"],"all import graphs over all three kinds, path spellings and search-path configurations",
 "Tests contain two- and three-file graphs with fixed layouts.",
 [I,C],[("import resolution and canonical-path dedup",I+": ImportContext"),("source-order processing of imports and declarations",C+": process_decl_items, resolve_single_import")],api)
p("C08","Importing Avro JSON preserves it, and re-importing output defines the same types",
 "Importing a valid .avsc or .avpr file yields the same types and messages that the file defines under the Avro specification: same full names, fields, symbols, sizes, docs, defaults, aliases, orders, logical types and other attributes, messages with their signatures, with nested definitions available as named types. In particular, importing the compiler's own output defines the same types and messages again.",
 ["inputs","programs"],"all valid Avro schema and protocol JSON documents (nested definitions, namespaces, logical types, unions, // and /* */ comments) and all compiled outputs",
 "Tests import a few fixtures; no test feeds output back in or covers the JSON schema language systematically.",
 [I,S,J],[("JSON to domain model",I+": json_to_schema, parse_annotated_primitive, flatten_schema"),("JSON emission",J)],api)
p("C09","Every invalid program is rejected with an error and produces no output",
 "A program that breaks a rule of the IDL grammar or of the Avro specification - syntax errors, duplicate types, messages, fields, symbols, parameters or union branches, nested unions, null?, unknown enum default, reserved, malformed or misspelled names, undefined references anywhere, bad sizes, precisions, scales or literals, one-way messages that return a value, invalid annotation values, missing or malformed imports - is always rejected, wherever in the program or its imports the violation occurs, and yields an error rather than JSON. (A definition in an imported JSON file that repeats the name of an earlier type is not such a violation: by design the earlier one wins.)",
 ["programs","inputs"],"all single-violation mutations of valid programs at every applicable site",
 "Tests hold one example per rule in a minimal file; whether a rule is enforced at every site (messages, nested containers, imports, schema mode, later fields) is not sampled.",
 [R,V,C,I,S],[("checks during tree walk",R),("registration checks",V+": register"),("reference and default validation",C+": validate_all_references, process_decl_items"),("import errors",I)],api)
p("C10","Errors and warnings point at the offending place in the offending file",
 "Every error about source text names the file that contains the offending construct (also when that is an imported file) and labels a span that lies inside that file's text and covers the offending construct, for example the undefined name, the duplicate field, symbol or parameter, the bad default value or the bad annotation; a mistake about a whole declaration (such as a duplicate type or a bad type name) may be labelled at its first token, a syntax error at the first token that cannot continue the program or at the bracket left open, and a fault inside an imported JSON file at the import statement; text quoted in a message is the text that is really in the source. Source positions are exact also when the file contains non-ASCII text, CRLF line ends or earlier multi-line constructs.",
 ["programs","inputs"],"all violation kinds x sites x file layouts x encodings of the preceding text",
 "Snapshot tests pin positions in short ASCII files; offsets depend on everything that precedes the error.",
 [R,E_,C,V,"src/suggest.rs"],[("spans from tokens",R+": make_diagnostic, span_from_context, line_col_to_byte_offset"),("per-file source in diagnostics",E_+": SpanWithSource")],["miette::Diagnostic labels/source_code/related of the returned Report"])
p("C11","No input makes the compiler panic, hang or emit a malformed diagnostic",
 "For every input text and every set of imported files, well-formed or not (truncated, mutated, non-ASCII, control characters, odd nesting, arbitrary JSON as .avsc/.avpr), compilation and extraction end with a result or an error, never a panic, abort, hang or undefined behaviour; every error and warning returned can be rendered and its labels lie inside the source text they refer to on character boundaries.",
 ["inputs"],"all UTF-8 texts up to moderate size and nesting depth, as IDL and as imported JSON",
 "Tests feed a few dozen malformed files; the error-refinement code slices source text by offset and is driven by whatever the parser's recovery produces.",
 [R,E_,I,J,D,C],[("source-aware error refinement",R+": refine_errors_with_source, detect_*"),("span conversion",R+": line_col_to_byte_offset")],api+["process exit status and panic hook","ASan/UBSan-style reports"])
p("C12","Compilation is a pure function of its inputs: deterministic, history-free",
 "Compiling the same input gives the same JSON, the same errors and the same warnings (text, order and positions) every time: in another process with other hash seeds, after any sequence of earlier successful or failed compilations in the same process, and on a builder object that was used before. Reusing a builder leaks no types, messages, import records or warnings from one compilation into the next.",
 ["histories","programs","inputs"],"all sequences of compilations (valid, invalid, with imports, with warnings) on fresh and reused builders and in fresh processes",
 "Each test compiles once per builder in one process; hash-order and state leaks need repetition and comparison across processes and histories.",
 [C,R,V,S,J],[("fresh registry and import context per call",C+": compile path of Idl and Idl2Schemata"),("sorted emission of hash maps",J),("accumulated_warnings handling",C)],api+["drain_warnings","separate processes"])
p("C13","Concurrent compilations behave exactly like sequential ones, race-free",
 "Any number of threads compiling at once, each with its own builder, on the same or different inputs and from the first use of the library on, each obtain exactly the result, errors and warnings a lone compilation would give. No schedule produces a data race, memory error, deadlock or cross-talk between compilations.",
 ["schedules","inputs"],"all interleavings of concurrent compilations, including racing first use (lazy initialisation of parser tables)",
 "The test-suite threads run unrelated tests and compare nothing across schedules; no sanitizer is used.",
 [R,C,"src/generated/idlparser.rs","src/generated/idllexer.rs"],[("per-call parser and registry state",R+": parse_idl_named"),("shared lazily-initialised ATN/DFA tables","src/generated/idlparser.rs, idllexer.rs")],["results per thread","ThreadSanitizer reports"])
p("C14","Layout, comments, escapes and spelling of tokens never change the result",
 "Two sources that differ only in insignificant ways - whitespace, LF or CRLF line ends, non-documentation comments, commas versus repeated declarations of fields sharing a type, backtick-quoting of identifiers, equivalent spellings of a literal, a trailing SUB character and what follows it - compile to the same JSON; and a valid source stays valid under such changes.",
 ["programs","inputs"],"all pairs of equivalent spellings of all valid programs",
 "Tests hold a few formatting variants; equivalence is a relation between two runs over all programs.",
 [R,D,"src/generated/idllexer.rs"],[("hidden-channel tokens and SUB truncation",R+": parse_idl_named"),("backtick removal",R+": identifier_text")],api)
p("C15","The command line delivers exactly the library's result, or fails cleanly",
 "avdl idl and avdl idl2schemata produce, from file or standard input and to file, directory or standard output, exactly the JSON documents of the compilation (each a complete JSON text) and exit 0 if and only if compilation and every write succeeded; otherwise they exit non-zero, print the error to standard error and no document to standard output. A failed compilation leaves existing output files untouched and creates none, a failed write is never reported as success (a reader that closes the pipe early excepted), and warnings go to standard error in both cases. (idl2schemata writes one file per simple name; of several types with the same simple name the last one's schema remains.)",
 ["configurations","inputs","fault_sequences"],"all argument combinations, input and output kinds, valid and invalid programs, and write faults (full device, file size limit, missing or read-only directory, output path occupied)",
 "CLI tests run a dozen invocations without faults.",
 [M,C],[("argument parsing and output writing",M),("compile before write",M+": run_idl, run_idl2schemata")],["process stdout, stderr, exit status, file system state"])
p("C16","idl2schemata extracts every named type once, in order, self-contained",
 "Extraction yields exactly one schema per named type that the file defines or imports, in the order the types are defined, named by its simple name; each schema stands alone and denotes the same type (name, attributes and everything it refers to) as in the compiled protocol. Extracting a directory equals extracting each of its .avdl files (recursively, in sorted order, others ignored) on its own and concatenating the results.",
 ["programs","configurations"],"all programs and directory trees accepted by extraction",
 "Golden tests cover a few files; the agreement between extraction, compilation and directory mode is a relation over all programs and trees.",
 [C,M,J],[("per-type extraction with fresh known names",C+": Idl2Schemata"),("directory walk",C)],["avdl::Idl2Schemata::extract on files and directories","files written by the CLI"])
p("C17","Every warning condition is reported exactly once, attributed, and harmless",
 "Each out-of-place doc comment, unrecognised character, dropped union annotation and non-standard alias in the main file or any imported IDL file yields exactly one warning that names the file and place it is about, whether compilation succeeds or fails later; nothing else yields a warning. A warning never changes the compiled result, and warnings are delivered with the result, or through drain_warnings after a failure, only once, and in source order within each file and kind of warning.",
 ["programs","histories","inputs"],"all programs with any number of warning conditions in any file, followed or not by an error",
 "Tests check single warnings in single files.",
 [R,C,D],[("orphaned doc scan",R+": collect_orphaned_doc_comment_warnings"),("warning accumulation and import prefixing",C+": accumulated_warnings, drain_warnings")],["IdlOutput.warnings, SchemataOutput.warnings, drain_warnings"])
p("C18","A default value is accepted if and only if it is valid for the field's type",
 "For every field of a record declared in IDL and every default value, compilation accepts the program exactly when the value is a valid default for the type: right JSON kind, int and long range, a string for enum, fixed and bytes, array and map elements and record fields valid at every depth, all record fields without own default present, and for a union a value valid for one of its branches (T? with a non-null default puts T first). It makes no difference whether named types are referenced directly, through containers, unions or other records, from other namespaces, or come from imports, provided they are defined before use.",
 ["programs","inputs"],"all pairs of (type, JSON value), valid and near-miss, with named types resolved through any path",
 "Unit tests list individual type/value pairs; acceptance is a recursive relation.",
 [S,R,C],[("recursive default validation",S+": validate_default"),("deferred validation of references",C+": process_decl_items; "+S+": validate_record_field_defaults, resolve_for_validation")],api)
p("C19","RPC messages keep their full signature",
 "Each message in a protocol appears under its name with exactly its declared parameters (name, type, default, doc, order, in order), response type, declared errors and one-way flag, plus doc and annotations; imported protocols' messages are added unchanged and a protocol's own message wins over an imported one of the same name. Types used only in message signatures are resolved, and defined inline or by name, like any others.",
 ["programs","inputs"],"all message signatures and combinations of own and imported messages",
 "Golden tests contain a few messages with simple signatures.",
 [R,J,C,I],[("message walk",R+": walk_message"),("message emission",J+": message_to_json"),("message import and merge",I+"; "+C)],api)
p("C20","Compilation cost grows proportionately with input size",
 "For families of programs that grow by repeating or chaining ordinary constructs (more types, fields, symbols, messages, imports, deeper but moderate nesting, longer reference chains, longer comments and literals, many defaults, many errors), the memory allocated by a compilation and the processor time it takes grow about in proportion to the size of the program (also with thousands of repetitions), and at most quadratically in reports of many errors or unrecognised characters and in extraction, where each schema repeats the types it uses; no chain of declarations whose text grows linearly makes the work grow exponentially.",
 ["programs","inputs"],"all size-parametrised families of programs built from ordinary constructs",
 "No test measures cost; small inputs hide exponential behaviour.",
 [V,C,J,R,S],[("recursive resolution and emission",S+": resolve_for_validation; "+J+": schema_to_json"),("inlining at first use only",J)],["bytes allocated per compilation, counted by the allocator","processor time of the compiling thread"])
p("C21","Type expressions translate to the Avro schema they denote",
 "Every type expression - primitives, date/time/uuid/decimal keywords, arrays, maps, unions, T?, named references, any nesting of these, with @logicalType annotations - translates to exactly the Avro schema it denotes: union branch order is kept, T? is [null, T] or, for a non-null default, [T, null], logical type keywords carry the right base type and attributes, and an annotated logical type takes effect exactly when the Avro specification allows it on that base type and otherwise stays a plain attribute. The same expression means the same in a field, parameter, response, container, union or top-level schema declaration, and for each of several variables of one declaration independently.",
 ["programs","inputs"],"all type expressions in all positions",
 "Tests use shallow type expressions in fields.",
 [R,S,J],[("type walk",R+": walk_full_type, walk_nullable_type, walk_primitive_type, fix_optional_schema, try_promote_logical_type"),("emission",J)],api)
p("C22","The order of declarations does not change what is declared",
 "Permuting the declarations of types and messages in a file, or moving type declarations into imported files, leaves the program valid (as long as types that defaults depend on precede them) and changes only positions in the output: the set of types and messages, with all names, attributes and references resolved, stays the same.",
 ["programs"],"all permutations and splits of all valid programs",
 "A relation between pairs of runs; no test compares permuted programs.",
 [C,J,V],[("two-phase registration and resolution",C+": parse_and_resolve"),("inlining at first use",J)],api)
p("C23","Independent mistakes are all reported at once, in source order",
 "When a file contains several undefined type references (in fields, containers, unions, messages, throws clauses or the schema declaration) or one record has several defaults that are invalid for the named types they refer to, one compilation reports each distinct one exactly once, in source order, each with its own location; correcting one of them never changes whether another is reported. If a defined type or Avro primitive has a name within a typing error (edit distance 1 for short names) of an undefined one, the error suggests an existing name, with none nearer by edit distance (of the simple or the full name), and putting it in place of the undefined name removes the error.",
 ["programs","inputs"],"all programs with k independent undefined references or invalid defaults at any sites",
 "Tests have two or three errors in fixed files; completeness and order quantify over sites and counts.",
 [C,V,"src/suggest.rs"],[("collection of all unresolved references and invalid defaults",C+": validate_all_references, process_decl_items"),("suggestions","src/suggest.rs")],["primary error plus related() of the returned Report"])
p("C24","What a syntax error says is wrong is true of the source",
 "When a syntax error names a cause - a brace that is never closed (and what it opens), a trailing comma in an enum, an empty union or type parameter, a fixed type without an integer size, a missing name or import kind, an annotation without a value, an unterminated string, a word that needs quotes, a misspelled keyword - the source has that very thing at the place shown (comments and strings do not count), and correcting a misspelled keyword or adding the quotes as suggested removes the error or moves it further on. In an otherwise valid program with plain blanks between its tokens, these slips, made alone, are always named as such: a missing name before a brace; a trailing comma in an enum; an empty union, array or map; an unclosed string that has no other quote after it on its line; record, enum, error or protocol with one letter missing, added or wrong before a name and a brace; the closing brace of a record, error or protocol missing before a type declaration, another closing brace or the end of the file.",
 ["programs","inputs"],"all programs with syntax errors",
 "Tests check the wording for one small program per kind of mistake; whether the explanation fits depends on everything around the mistake.",
 [R],[("rewriting of parser messages",R+": enrich_antlr_error, simplify_large_expecting_set, separate_last_token"),("detection by source text",R+": refine_errors_with_source and the detect_ functions")],["message, label and help of the first error with a label"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
