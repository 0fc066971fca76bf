#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand after editing)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

RT="butte/src/"; BB="butte-build/src/"
BST=[("write buffer and head","bytes written so far, growing downwards from the end of an owned buffer",RT+"builder.rs"),
     ("pending fields, written vtables, nested/finished flags, minimum alignment","per-buffer construction state",RT+"builder.rs")]

prop("C01","Data written with the builder reads back unchanged",
 "For every sequence of builder calls that constructs and finishes an object graph (tables, every scalar type, strings, byte strings, vectors of scalars, strings, tables and vectors, shared children), reading the finished bytes through the library returns exactly the values that were written. Fields never written, or written with elision while equal to their default, read back as the default supplied by the reader.",
 ["programs","inputs"],"all builder programs up to the stated number of objects, fields and lengths, over every scalar type and boundary values",
 "The runtime crate has no tests of its own; the examples build a handful of fixed buffers. Layout depends on the interplay of every alignment, size and order.",
 [RT+f for f in("builder.rs","push.rs","endian_scalar.rs","primitives.rs","table.rs","vector.rs","vtable.rs","vtable_writer.rs","follow.rs")],
 [("back-to-front writing with pre-alignment",RT+"builder.rs"),("offset following",RT+"primitives.rs, table.rs, vector.rs")],BST,
 ["finished_data, Table::get, Vector, strings"])
prop("C02","Finished buffers conform to the FlatBuffers binary format",
 "Every finished buffer is a valid FlatBuffer for any other implementation: little-endian scalars at their natural alignment relative to the buffer start, forward in-bounds offsets, tables whose vtable describes exactly the stored fields and their inline size, length-prefixed vectors, zero-terminated strings, zeroed padding and no overlapping objects; decoding it by the format specification alone yields the values written. A table too large for the format's 16-bit fields, or data beyond its 2 GiB limit, is refused rather than written wrongly.",
 ["programs","inputs"],"all builder programs up to the stated bounds, judged by an independent decoder that accounts for every byte",
 "Existing tests only read buffers back with the same library, so a writer and reader that are wrong in the same way pass; no test looks at alignment, padding or vtable bytes.",
 [RT+f for f in("builder.rs","push.rs","endian_scalar.rs","vtable_writer.rs","primitives.rs")],
 [("align / minimum-alignment tracking / finish alignment",RT+"builder.rs"),("vtable serialisation",RT+"builder.rs, vtable_writer.rs")],BST,
 ["finished_data"])
prop("C03","Conforming buffers from any writer are read correctly",
 "For every buffer that conforms to the FlatBuffers format, whatever layout freedom its writer used (object order, vtables before or after their table, shared or private vtables, vtables shorter or longer than the reader's schema, stored defaults, shared strings, extra padding, buffer placed at any memory address), reading it returns the values the format assigns to it, and fields absent from it read as absent or default. Only viewing a vector as a native slice may instead report an error, namely when its elements lie unaligned in memory.",
 ["inputs"],"all layouts of all small value trees within the stated bounds, produced by an independent encoder",
 "All existing buffers come from the library's own writer, which uses one layout only.",
 [RT+f for f in("table.rs","vtable.rs","vector.rs","primitives.rs","endian_scalar.rs","follow.rs")],
 [("vtable lookup and offset following",RT+"table.rs, vtable.rs, primitives.rs")],None,["Table::get, Vector, strings, vtable queries"])
prop("C04","Reading arbitrary bytes never panics, aborts or leaves the buffer",
 "For any byte string at any memory alignment, opening a root (plain or size-prefixed) and following any chain of accessors (fields of every type, nested tables, strings, vectors, iterators, slices, vtable queries, identifier check) returns a value or an error and never panics, aborts or uses bytes outside the buffer. What is returned is what the bytes denote: an out-of-range access is reported as out of bounds, and a string is returned only if it is in bounds, zero-terminated and valid UTF-8, each failure reported as such.",
 ["inputs"],"all truncations, all one-byte edits and all boundary-value overwrites (two at a time in the thorough tier) of a set of seed buffers, all short buffers over a small alphabet, at every alignment",
 "No test feeds a malformed buffer to the reader.",
 [RT+f for f in("table.rs","vtable.rs","vector.rs","primitives.rs","endian_scalar.rs","error.rs","follow.rs")],
 [("bounds-checked slice access on every read",RT+"endian_scalar.rs, primitives.rs, vector.rs, vtable.rs")],None,["Table, VTable, Vector, str, slices, buffer_has_identifier"])
prop("C05","Output does not depend on capacity, growth, reuse or cloning",
 "The bytes a builder program produces are a function of that program alone: they are the same for every initial capacity and growth point, after any earlier use of the builder followed by a reset (wherever that earlier use stopped), and in every clone taken at any point. Taking the builder apart returns a buffer whose valid part is exactly those bytes.",
 ["histories","configurations"],"all pairs of an earlier history and a program up to the stated lengths, all capacities in a range, all clone points",
 "Tests always use a fresh default-capacity builder once.",
 [RT+"builder.rs"],[("reset, doubling growth, zeroing",RT+"builder.rs")],BST,["finished_data, unfinished_data, collapse"])
prop("C06","Vtables are shared exactly when identical",
 "Within one buffer two tables refer to the same vtable if and only if their field layouts and inline sizes are identical, however many tables and other objects lie between them, sharing never changes what any table reads as, and a table that shares a vtable takes no space for one. The reported number of written vtables is the number of distinct layouts, and no state carries over from an earlier buffer.",
 ["programs","histories"],"all sequences of tables over a set of layouts up to the stated length, and long sequences over many layouts",
 "No test builds two tables and inspects vtables.",
 [RT+"builder.rs",RT+"vtable.rs",RT+"vtable_writer.rs"],[("serialise, compare, erase duplicate",RT+"builder.rs write_vtable")],BST,["finished_data, num_written_vtables"])
prop("C07","Out-of-order builder use is rejected, correct use never is",
 "In builds with debug assertions, starting a table or vector, creating a string, byte string, direct vector or vector of strings, or finishing while a table or vector is under construction, adding a field or ending a table or vector when none is, finishing twice without a reset, taking finished data before finishing, and setting the same field twice in a table are all rejected by a panic. Every call sequence that breaks none of these rules is accepted, and a reset always returns the builder to its initial state.",
 ["histories"],"all call sequences up to the stated depth over the full construction alphabet",
 "No test exercises the protocol checks at all.",
 [RT+"builder.rs",RT+"vtable_writer.rs"],[("nested and finished assertions",RT+"builder.rs")],BST,["panics of builder methods"])
prop("C08","Vector access and iteration agree with the element sequence",
 "For every vector, length, emptiness, indexed access, slice access and iteration all describe the same element sequence, and the iterator behaves like a standard double-ended, exact-size, fused iterator under every interleaving of forward steps, backward steps, skips of any size from either end, length queries and clones.",
 ["histories","inputs"],"all iterator call sequences up to the stated depth over vectors of every element type and length up to a bound",
 "Tests iterate forward over two-element vectors only.",
 [RT+"vector.rs",RT+"follow.rs",RT+"primitives.rs"],[("VectorIter cursor arithmetic",RT+"vector.rs")],
 [("iterator cursor","position and remaining count",RT+"vector.rs")],["Vector::len/get/iter/safe_slice, VectorIter"])
prop("C09","File identifiers and size prefixes are written and recognised exactly",
 "For every finished buffer, with or without a file identifier and with or without a size prefix, the matching root accessor finds the same data, the size prefix equals the number of bytes following it, the identifier test answers true exactly for the identifier it was finished with, and the data stays naturally aligned relative to the start of the finished bytes.",
 ["inputs","configurations"],"all finishing modes, identifiers over an alphabet and contents of every size modulo the maximum alignment",
 "No test uses an identifier or a size prefix.",
 [RT+"builder.rs",RT+"table.rs",RT+"primitives.rs"],[("finish variants",RT+"builder.rs"),("identifier and prefix skipping",RT+"table.rs, primitives.rs")],None,["finish*, get_root, get_size_prefixed_root, buffer_has_identifier"])

prop("C10","Values written through generated code read back unchanged",
 "For every supported schema and every combination of field values (each optional field also absent), a table created with the generated builder reads back through the generated accessors as exactly those values, for fields of every scalar type, strings, enums, tables, unions, and vectors (also nested) of them. Fields do not influence each other.",
 ["programs","inputs"],"all tables with up to the stated number of fields over an alphabet of field kinds, all combinations of boundary values and absence",
 "The examples compile three schemas and read a few values.",
 [BB+"codegen.rs",BB+"ir/transform.rs",RT+"builder.rs",RT+"table.rs"],[("generated create / add / accessor code",BB+"codegen.rs")],None,["generated create() and accessors"])
prop("C11","Every schema the compiler accepts yields code that compiles",
 "Whenever the schema compiler reports success, the generated text is Rust that compiles against the runtime and offers the documented names: snake_case accessors and modules, with Rust keywords used as schema names replaced so that they remain usable, whatever namespaces the referring and referred-to types live in.",
 ["programs"],"all schemas in a family covering every declaration kind, every field type, every Rust keyword in every naming position, and every relation between the namespaces of two types",
 "Only three example schemas are ever compiled as Rust.",
 [BB+"codegen.rs",BB+"ir/types.rs",BB+"ir/keywords.rs",BB+"ir/transform.rs"],[("identifier fixing, relative paths, module nesting",BB+"ir/types.rs, codegen.rs")],None,["rustc on the generated text"])
prop("C12","Generated code uses the wire layout the schema prescribes",
 "A buffer written by generated code, decoded by the FlatBuffers specification alone, has each field in the slot given by its declaration order (a union taking two: type, then value), stored with the size and byte order of its declared type; and a buffer encoded independently that way is read correctly by the generated accessors.",
 ["programs","inputs"],"all tables with up to the stated number of fields over an alphabet of field kinds, checked against an independent encoder and decoder",
 "Reader and writer share the same generated constants, so any consistent permutation passes the tests.",
 [BB+"codegen.rs",BB+"ir/transform.rs",RT+"vtable.rs"],[("slot constants from field order; union companion field",BB+"codegen.rs, ir/transform.rs")],None,["bytes of generated create(); accessors on independently encoded bytes"])
prop("C13","Scalar defaults are honoured on both sides",
 "For every scalar or enum field with a default (explicit, or the implicit zero/false), creating a table from default arguments writes nothing for it and reading an absent field returns exactly that default, while any other value is stored and read back; a stored value equal to the default also reads back (0.0 and -0.0 count as equal, and a not-a-number default may be written out). An enum field without an explicit default reads as no value when absent, and required scalars are always written. This holds for every type over its full range, including negative, extreme, hexadecimal, fractional, infinite and not-a-number defaults.",
 ["programs","inputs"],"all scalar types and spellings with a set of boundary defaults, times a set of written values",
 "One example schema with defaults 0 and 1 compared only to each other.",
 [BB+"codegen.rs",BB+"ir/transform.rs",BB+"ast/types.rs",RT+"builder.rs"],[("default literal rendering, push_slot elision",BB+"codegen.rs")],None,["generated Args::default(), create(), accessors"])
prop("C14","Schema evolution: adding fields keeps old and new code compatible",
 "If a schema is extended by appending fields to tables, values to enums or alternatives to unions, code generated from the new schema reads buffers written by the old code (added fields absent or default), and code generated from the old schema reads the old fields of buffers written by new code unchanged. An enum value or union alternative unknown to the old code is reported as an error and never as another value.",
 ["programs","inputs"],"all pairs of a table and its extensions over an alphabet of field kinds, both directions, all value combinations",
 "No test reads a buffer with code generated from a different schema.",
 [BB+"codegen.rs",RT+"vtable.rs",RT+"table.rs"],[("vtable length check",RT+"vtable.rs"),("unknown-variant errors",BB+"codegen.rs")],None,["generated accessors across schema versions"])
prop("C15","Enum values, names and conversions follow the schema",
 "For every enum, each name has its explicit value or otherwise one more than the previous name's (zero for the first); conversion to the base integer type and back is the identity on declared values, every other integer is rejected as an unknown variant, the name function returns the declared name (or its replacement where it is a Rust keyword), and values are stored with the declared base type's size.",
 ["programs","inputs"],"all enums with up to the stated number of values over every base type, with every pattern of explicit and implicit values, and every value of the small base types",
 "Two example enums, both numbered from zero without gaps.",
 [BB+"codegen.rs",BB+"ir/transform.rs",BB+"ir/types.rs"],[("variant numbering and TryFrom/From generation",BB+"codegen.rs")],None,["generated enum, TryFrom, From, Follow, enum_name_*"])
prop("C16","Unions read back the alternative that was written",
 "For every union of any number of tables of its namespace, a union field written as one alternative reads back as that alternative with the same content; type tag zero or an absent field reads as no value, an unknown tag is an error, and each alternative's tag is its declared or next value counting from one. Several unions and other fields in the same table do not interfere.",
 ["programs","inputs"],"all unions up to the stated size, all alternatives, required and optional, combined with neighbouring fields, and all 256 tag values",
 "One two-alternative union is read in the example program.",
 [BB+"codegen.rs",BB+"ir/transform.rs"],[("companion type enum and field; dispatching accessor",BB+"codegen.rs, ir/transform.rs")],None,["generated union accessors and type accessors"])
prop("C17","Required fields cannot be missing",
 "A table with a required field can only be finished with that field set (the generated builder panics otherwise) and can always be finished when it is set, whatever its value; reading a buffer in which a required field without a default is absent gives an error naming that field (for a union possibly its type companion), while all other fields stay readable; a required scalar with a default reads as that default.",
 ["programs","inputs"],"all tables up to the stated number of fields with every subset of required fields over all field kinds, and buffers with every subset of fields present",
 "Tests only count how often the word appears in generated code.",
 [BB+"codegen.rs",RT+"builder.rs"],[("required check at table end; RequiredFieldMissing on read",BB+"codegen.rs, "+RT+"builder.rs")],None,["generated builder finish(), accessors"])

prop("C18","Schema text is parsed faithfully whatever its layout",
 "Parsing a schema yields exactly the declarations written in it, in order, with their names, types, defaults, values, attributes and documentation lines, and inserting or removing spaces, tabs, line breaks (either convention) and ordinary comments between any two tokens never changes the result (the words include and attribute need a gap before the string that follows).",
 ["inputs"],"all declarations of every kind built from small component alphabets, and every separator in every token gap (all pairs of gaps in the thorough tier)",
 "Each parser function is tested on a few hand-written strings with whitespace in a few places.",
 [BB+"ast/parser.rs",BB+"ast/types.rs"],[("nom grammar",BB+"ast/parser.rs")],None,["parsed schema, generated code"])
prop("C19","Numeric and boolean literals have their exact value",
 "Every integer literal (decimal or hexadecimal, signed or not), decimal or hexadecimal floating literal, and the words true, false, nan, inf and infinity in a schema denotes exactly the value of that notation, independent of the text around it; malformed literals are rejected.",
 ["inputs"],"all strings up to the stated length over a literal alphabet, plus boundary literals, in several surrounding contexts",
 "A few literals per form are tested in isolation, at the end of input.",
 [BB+"ast/parser.rs"],[("literal parsers",BB+"ast/parser.rs")],None,["default value in the parsed schema and in generated code"])
prop("C20","The compiler answers every input text with code or an error",
 "For every input text the schema compiler terminates with either generated code or an error and never panics; it reports success only if the whole text is a schema of the supported language, so nothing is silently dropped or ignored, except that includes add no code and attributes other than required and streaming have no effect. (Nesting of vector types is considered up to depth 64.)",
 ["inputs"],"all token sequences up to the stated length, all truncations, and all one-token and one-character edits of a set of seed schemas, judged by an independent recogniser",
 "compile functions are only run on three valid schemas.",
 [BB+"compile.rs",BB+"ast/parser.rs",BB+"ir/transform.rs",BB+"codegen.rs"],[("complete-parse check, error returns",BB+"compile.rs")],None,["compile_fbs_generic result"])
prop("C21","Type references resolve by namespace, independent of declaration order",
 "Every declaration is placed in the namespace in force where it is written and every type reference denotes the type of that name in the referring namespace (or the fully qualified one), no matter in which order types are declared or how often namespaces are reopened, including mutually recursive tables and unions. Reordering declarations changes neither acceptance nor meaning.",
 ["programs"],"all permutations of all small schemas with up to the stated number of declarations and namespaces",
 "Tests cover a few fixed orders, none with a forward reference across a namespace change.",
 [BB+"ir/transform.rs",BB+"ir/types.rs"],[("deferred resolution loop, namespace stacking",BB+"ir/transform.rs")],
 [("types defined so far / current namespace","resolution state",BB+"ir/transform.rs")],["generated modules and accessor types"])
prop("C22","Invalid schemas are rejected",
 "A schema that redefines a name, refers to an undefined type, gives an enum a non-integer base, duplicates a field or enum value, gives a field a default its type cannot hold, makes a non-table a root, request or response type, puts a non-scalar into a struct, or names an unknown streaming mode is refused with an error, wherever in the schema the fault lies.",
 ["programs"],"all single faults of every kind injected at every position of a family of valid schemas",
 "A few rejection cases are tested one at a time in minimal schemas.",
 [BB+"ir/transform.rs",BB+"compile.rs"],[("semantic checks",BB+"ir/transform.rs")],None,["compile_fbs_generic result"])
prop("C23","Services reach the service generator as declared",
 "For every schema with services, the user-supplied service generator is called once per service, and receives the service's name and namespace and its methods in order with their names (and snake_case names), fully qualified request and response types, streaming mode and documentation exactly as declared; what it emits becomes part of the generated code, in the module of the service's namespace.",
 ["programs"],"all services up to the stated number of methods over all streaming modes, name shapes and request/response placements",
 "Tests check two fixed services.",
 [BB+"ir/transform.rs",BB+"codegen.rs"],[("service lowering",BB+"ir/transform.rs")],None,["RpcGenerator::generate"])
prop("C24","Reported success means complete input was read and complete code written",
 "Under every pattern of short reads, short writes, interruptions and I/O errors, and whatever failure the external formatter reports, compilation reports success only if all input was read and the complete generated code was written; every unrecoverable failure is returned as an error, and the written text does not depend on how the input or output was chunked.",
 ["fault_sequences","inputs"],"all read/write fault sequences up to the stated number of deviations, at every point, and all formatter outcomes",
 "No test injects an I/O fault.",
 [BB+"compile.rs",BB+"main.rs"],[("read_to_string / write_all / formatter pipe",BB+"compile.rs")],None,["compile_fbs_generic, compile_fbs, butte CLI exit status and output"])
prop("C25","Code generation is deterministic",
 "Compiling the same schema text always produces byte-identical output, in any process and after any other compilations.",
 ["inputs","configurations"],"all schemas of a family with several namespaces, unions and attributes, under many hash seeds, repeated within and across processes",
 "No test compiles a schema twice; hash iteration order differs only between runs.",
 [BB+"ir/transform.rs",BB+"codegen.rs"],[("ordered collections for emission",BB+"ir/transform.rs")],None,["compile_fbs_generic output"])
prop("C26","Documentation comments reach the generated items",
 "Every documentation comment written directly before a table, enum, union, enum value, union alternative or field appears, complete and in line order, as documentation of exactly the corresponding generated item, and ordinary comments never do.",
 ["programs"],"all placements of up to the stated number of documentation and ordinary comment lines in a family of schemas",
 "Tests check doc lines in parsed values of a few schemas, never in generated code.",
 [BB+"codegen.rs",BB+"ast/parser.rs",BB+"ir/transform.rs"],[("doc attribute generation",BB+"codegen.rs")],None,["doc attributes in generated code"])
prop("C27","The command-line compiler and the build-script function do what the library does",
 "For every schema text, however it is passed to the command-line compiler (file or standard input) and wherever the result goes (file or standard output), formatted or with the ugly option, it writes exactly the code the library generates and nothing else, replacing an older output file completely; it ends with success exactly when the schema is accepted and everything was read, formatted where asked and written, and otherwise with failure and a message. The build-script function writes the same formatted code into the build's output directory under the schema's file name with extension rs, and nothing else, where the include macro finds it.",
 ["inputs","configurations","fault_sequences"],"all combinations of ten schemas, five inputs, eight outputs, flags and formatters; all schemas under ten file names",
 "No test runs the program or the build-script function.",
 [BB+"main.rs",BB+"compile.rs","butte/src/macros.rs"],[("argument handling, input and output selection",BB+"main.rs"),("output path",BB+"compile.rs"),("include macro","butte/src/macros.rs")],None,["exit status, standard output and error, files"])

prop("C28","No safe use has undefined behaviour",
 "Whatever sequence of calls safe code makes on the builder, in any order, interrupted, rejected, reset or cloned, and whatever bytes the reader, iterators, slices or generated accessors are given, at any address, no operation reads or writes outside of the memory it was given, makes a misaligned or invalid value or reference, reads uninitialised memory or breaks the aliasing rules: each call returns, or panics.",
 ["inputs","histories"],"all executions of seventeen scenarios (builder programs, misuse, hostile buffers, iterators, scalar access, generated code) up to their bounds, in an interpreter that detects undefined behaviour",
 "Undefined behaviour usually goes unnoticed in a test that passes; no test runs under an interpreter or sanitizer, and the runtime crate has no tests.",
 ["butte/src/builder.rs","butte/src/vector.rs","butte/src/endian_scalar.rs","butte/src/vtable_writer.rs"],[("unsafe blocks","butte/src")],None,["executions of safe code using the public API"])
prop("C29","Every kind of host writes and reads the same bytes",
 "The bytes the builder and generated code write, the values and error classes read from any given bytes, and whether the two succeed, do not depend on the byte order, word size or native alignments of the host: each program gives on 32-bit and on big-endian hosts what it gives on a 64-bit little-endian host, which C01 to C17 judge.",
 ["inputs","configurations"],"all executions of thirteen (thorough: seventeen) scenarios up to their bounds on emulated 64-bit big-endian and 32-bit little-endian (thorough: and 32-bit big-endian) hosts",
 "The tests run on one host; conversions do nothing there.",
 ["butte/src/endian_scalar.rs","butte/src/push.rs","butte/src/vector.rs","butte/src/primitives.rs","butte-build/src/codegen.rs"],[("byte order conversion","butte/src/endian_scalar.rs"),("alignment of scalars","butte/src/push.rs"),("arithmetic on locations","butte/src/vector.rs")],None,["bytes written, values and errors read"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
