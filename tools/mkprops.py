#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so the wording is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
        "mechanism": [dict(name=a, where=b) for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

API = "public API: parse_class / parse_class_with_options and the returned ClassFile"

p("C01", "No input can crash, abort or hang the parser",
  "For every byte string, with bytecode parsing on or off, parsing returns either a class or an error within time bounded by the input: it never panics, never overflows integer arithmetic or the stack of an ordinary 2 MiB thread, never aborts the process and never loops forever. The same holds for everything a caller can do with what was returned: formatting it, iterating its constant pool, looking up instruction offsets, displaying an error, dropping it.",
  ["inputs"], "all byte strings (valid, corrupted, truncated, adversarially nested, cyclic or boundary-sized) and both option values",
  "The unit tests parse one good class file and feed about 30 hand-made strings and pool entries; no test passes a malformed class file, so no hostile input ever reaches the readers.",
  ["src/lib.rs", "src/constant_pool.rs", "src/attributes.rs", "src/bytecode.rs", "src/descriptors.rs"],
  [("every read checks the remaining length and returns an error", "src/lib.rs read_u1..read_u8"),
   ("pool references are type-checked before any accessor that panics on a wrong type is used", "src/constant_pool.rs validate"),
   ("checked conversion of switch ranges and jump targets", "src/bytecode.rs"),
   ("nesting limits on annotations and attributes", "src/attributes.rs")],
  [("index", "read position in the input, must never pass its end", "all readers")], [API, "process exit status, panic hook, CPU time per input"])

p("C02", "Memory is proportionate to the input and fully released",
  "Once a parse result, class or error, has been dropped, every byte of heap the parse took has been given back, whatever the input was. While parsing, a count or length that the input declares but its bytes do not back never costs memory: no allocation request, and no total in use, exceeds a fixed allowance plus a fixed multiple of the size of the input and of the text and descriptors it refers to.",
  ["inputs"], "all byte strings, especially ones with cyclic constant-pool references, huge declared counts and nested declared counts",
  "No test measures allocation, and none parses an input whose declared counts disagree with its size or whose pool is cyclic.",
  ["src/constant_pool.rs", "src/attributes.rs", "src/bytecode.rs", "src/lib.rs"],
  [("pool references are unlinked when the pool is rejected, so no reference cycle survives", "src/constant_pool.rs read_constant_pool"),
   ("declared sizes are compared with the remaining bytes before reserving", "src/bytecode.rs, src/attributes.rs")],
  [("live heap bytes", "bytes allocated and not yet freed by the parse", "global allocator")], [API, "counting global allocator"])

p("C03", "An accepted class reports exactly the members its bytes encode",
  "For every well-formed class file, parsing succeeds and reports exactly the version numbers, access flags, class, superclass, interfaces, fields and methods that the bytes encode: none missing, added, reordered, merged or altered. Every name and descriptor reported for them is the one its constant-pool reference denotes.",
  ["inputs"], "all well-formed class files of every version up to Java 21, with any number and order of members and any constant-pool layout",
  "The only class file a running test parses is one Object.class, of which it checks three constant-pool items; no test looks at fields, methods, interfaces, flags or versions.",
  ["src/lib.rs", "src/constant_pool.rs", "src/descriptors.rs"],
  [("header, interface, field and method readers", "src/lib.rs parse_class_with_options, read_interfaces, read_fields, read_methods"),
   ("big-endian primitive readers", "src/lib.rs read_u1..read_u8")], (), [API])

p("C04", "Every attribute is reported with exactly the data its bytes encode",
  "Wherever an attribute appears (class, field, method, code, record component), each predefined kind is decoded to exactly the values, entries and order its bytes encode, with every constant-pool reference replaced by what it denotes and optional references reported as absent exactly when they are zero. An attribute of any other name is reported verbatim with its name and its exact bytes, and all attributes keep their order.",
  ["inputs"], "all well-formed attributes of all predefined kinds and of unknown kinds, at every place an attribute can occur",
  "No running test inspects any attribute; the test that only checked that many real classes parse cannot run without its archives, and it compared no values.",
  ["src/attributes.rs", "src/constant_pool.rs"],
  [("dispatch on the attribute name and one reader per kind", "src/attributes.rs read_attributes"),
   ("stack map frame decoding", "src/attributes.rs read_stackmaptable_data"),
   ("module, record, local variable, inner class, bootstrap readers", "src/attributes.rs")], (), [API + ": attributes of classes, fields, methods, code, record components"])

p("C05", "Annotations decode exactly, at every depth and target",
  "Every annotation, parameter annotation, type annotation and annotation default is reported with exactly the type, element names, element values, nesting, target and type path its bytes encode, in order. A value, target or path code that the class file format does not define makes the parse fail instead of being misread.",
  ["inputs"], "all annotation structures: every element-value tag, every type-annotation target and path kind, any reasonable nesting depth and parameter count",
  "No running test contains a checked annotation; the element-value and target codes (13 and 22 of them) and their nesting are never sampled.",
  ["src/attributes.rs"],
  [("element value, annotation, parameter and type annotation readers", "src/attributes.rs read_annotation_element_value, read_annotation, read_parameter_annotation_data, read_type_annotation_data")], (), [API + ": annotation attributes"])

p("C06", "Bytecode decodes to exactly the instructions in the code array",
  "With bytecode parsing on, every method's code is reported as exactly the sequence of instructions its bytes encode: each with its offset, its operation and its operands (indexes, sign-extended immediates, branch offsets, resolved constants, switch tables with correct padding, wide forms), covering every byte of the code array once. Code that contains an undefined operation, an instruction cut short, or an ill-formed operand makes the parse fail, and the raw code bytes and stack and local limits are reported unchanged.",
  ["inputs"], "all code arrays: every opcode and wide form, every operand value, switches at every alignment",
  "The only bytecode test checks offset lookup on hand-built lists of nops; decoding of the 205 operations is never checked.",
  ["src/bytecode.rs", "src/attributes.rs"],
  [("opcode table and operand readers", "src/bytecode.rs read_opcodes"), ("code attribute reader", "src/attributes.rs read_code_data")], (), [API + ": CodeData and its bytecode"])

p("C07", "Branches land on instructions, and offset lookup is exact",
  "In every accepted class every branch and every switch arm, applied to its instruction's offset, lands on the first byte of an instruction of the same code array; code with a branch that lands elsewhere, before the start, past the end or beyond the integer range is refused. For every decoded code array, instruction offsets start at zero and strictly increase, and looking up an offset gives the position of the instruction starting there, and nothing for every other offset.",
  ["inputs"], "all code arrays and all branch offsets (narrow and wide, positive and negative, extreme), and all offsets given to the lookup",
  "Offset lookup is tested on lists of at most three entries, and no test contains a branch.",
  ["src/bytecode.rs"],
  [("jump validation after decoding", "src/bytecode.rs validate_jumps, validate_jump"), ("binary search by offset", "src/bytecode.rs get_opcode_index")],
  [("opcodes", "offset-sorted instruction list", "src/bytecode.rs ByteCode")], [API + ": bytecode opcodes and get_opcode_index"])

p("C08", "Constant-pool iteration lists every entry once, in order, resolved",
  "Iterating the constant pool of an accepted class yields exactly one item for each entry that is not plain text, in constant-pool order, skipping the unusable second slot of wide constants. Each item has the kind of its entry and carries the fully resolved names, descriptors, values, reference kinds and bootstrap indexes that the entry denotes, and iterating again yields the same items.",
  ["inputs"], "all accepted class files, whatever the order, sharing, duplication and forward referencing of their constant-pool entries",
  "The one iteration test checks 3 of the 32 items of a single file, whose pool has no long, double, string, dynamic, method handle, module or package entry.",
  ["src/constant_pool.rs", "src/lib.rs"],
  [("resolution of references after the pool is read", "src/constant_pool.rs resolve_constant_pool"), ("iterator", "src/constant_pool.rs ConstantPoolIter")],
  [("constant pool", "entries by index, wide constants followed by an unusable slot", "src/constant_pool.rs")], [API + ": constantpool_iter"])

p("C09", "Every constant-pool reference is range- and kind-checked",
  "A class file is accepted only if every index into the constant pool, whether inside the pool, in a class structure or attribute, or in an instruction, is in range and designates an entry of a kind allowed there; index zero is accepted exactly where the format lets the item be absent, and the unusable slot of a wide constant never is. Any single reference redirected to an entry of another kind or out of range makes the parse fail, and every reference of an allowed kind is accepted.",
  ["inputs"], "all reference sites in all class files, each redirected to every kind of entry, to zero, to unusable slots and out of range",
  "Tests call the entry validator directly on a few hand-built entries with a zero entry as the only wrong kind; references from structures, attributes and instructions are never tested.",
  ["src/constant_pool.rs", "src/attributes.rs", "src/bytecode.rs", "src/lib.rs"],
  [("kind check per pool entry", "src/constant_pool.rs validate, ensure_type"), ("typed readers for references", "src/constant_pool.rs read_cp_*, get_cp_loadable")],
  (), [API])

p("C10", "Constant-pool entries with illegal content are refused",
  "A class file is accepted only if each constant-pool entry has a tag defined for the file's version, a legal reference kind, and legal content: class names are binary names or array descriptors, names of fields and methods are unqualified names (method names free of angle brackets apart from the special names), field, method and dynamic references carry a descriptor of the right sort, method handles name a legal member for their kind and version, module and package names are legal and occur only in modules, and a wide constant fits in the declared pool. Every pool satisfying these rules is accepted.",
  ["inputs"], "all constant pools of all versions",
  "Unit tests check a dozen strings per rule on isolated entries; version gating, tag codes, reference-kind codes, pool layout and most combinations are untested.",
  ["src/constant_pool.rs", "src/names.rs", "src/descriptors.rs"],
  [("tag dispatch with version guards", "src/constant_pool.rs read_constant_pool"), ("content validation", "src/constant_pool.rs validate*"), ("name grammars", "src/names.rs")], (), [API])

p("C11", "Dynamic constants always have their bootstrap method",
  "A class file with any dynamic or invoke-dynamic constant is accepted only if it has exactly one class-level table of bootstrap methods and every such constant's bootstrap index lies inside that table. A class file that satisfies this, or has no such constant, is never refused on that account, and the table's entries are reported exactly with all their loadable arguments.",
  ["inputs"], "all class files, over the number of dynamic constants, their indexes relative to the table size, and the number and placement of tables",
  "No running test parses a class with a dynamic constant or a bootstrap table.",
  ["src/lib.rs", "src/attributes.rs", "src/constant_pool.rs"],
  [("cross-check of pool and class attributes", "src/lib.rs validate_bootstrap_methods"), ("bootstrap table reader", "src/attributes.rs read_bootstrapmethods_data")], (), [API])

p("C12", "Truncated, extended or mis-sized class files are refused",
  "No class file remains acceptable after losing any number of its last bytes or after gaining any extra byte at its end. An attribute whose declared length differs from the length its content takes, and any declared count or length that runs past the enclosing structure or the input, makes the parse fail, at every nesting level; so does a wrong magic number.",
  ["inputs", "fault_sequences"], "every proper prefix and every extension of every accepted class file, and every perturbation of every length or count field",
  "No test parses a truncated, extended or length-corrupted file.",
  ["src/lib.rs", "src/attributes.rs", "src/constant_pool.rs"],
  [("bounds checks in primitive readers", "src/lib.rs read_u*"), ("attribute end check", "src/attributes.rs read_attributes, ensure_length"), ("end-of-input check", "src/lib.rs parse_class_with_options")], (), [API])

p("C13", "Inconsistent classes are refused: duplicates, bad members, modules",
  "A class file is refused if two of its fields, or two of its methods, have the same name and descriptor, if a member has an illegal name or descriptor, if an instance or class initializer has an illegal return type or parameters for the file's version or sits in an interface where it may not, or if a module declares any other class flag, an old version, a superclass, interfaces, fields or methods. A class file free of these faults is never refused on their account: members that share only a name, or only a descriptor, are all kept.",
  ["inputs"], "all member lists (any positions of a duplicate pair, overloads), all names, descriptors and versions, all module and non-module headers",
  "No test parses a class with any of these faults.",
  ["src/lib.rs", "src/names.rs", "src/descriptors.rs"],
  [("uniqueness sets", "src/lib.rs read_fields, read_methods"), ("initializer rules", "src/lib.rs read_methods"), ("module rules", "src/lib.rs parse_class_with_options")], (), [API])

p("C14", "Descriptors and class names follow their grammar exactly",
  "Wherever a field or method descriptor or class name is parsed, it is accepted exactly when the whole text matches the class file grammar (base types, class types with nonempty slash-separated segments, at most 255 array dimensions, void only as a return type, nothing left over). The parsed form has exactly the parameters, dimensions, element types and class names written, and displaying it gives back the original text; class names built directly from text obey the same grammar.",
  ["inputs"], "all strings, ASCII and non-ASCII, borrowed or re-encoded, at every place a descriptor or class name is parsed",
  "Unit tests check about 25 fixed ASCII strings; trailing text, empty and trailing segments, legal unusual characters, multi-byte text and limits in context are not covered.",
  ["src/descriptors.rs", "src/names.rs", "src/lib.rs", "src/attributes.rs"],
  [("recursive descent parsers over the text", "src/descriptors.rs parse_field_descriptor, parse_method_descriptor, parse_unqualified_segment"), ("whole-string predicates", "src/descriptors.rs is_*")], (), [API + ": descriptors, ClassName::try_from, Display"])

p("C15", "Text is decoded exactly, and without copying whenever possible",
  "Every string a parsed class exposes is exactly the text its constant encodes in Java's modified UTF-8, including encoded nulls and supplementary characters; a string literal whose bytes are not text is exposed as exactly those bytes, and anywhere else such bytes are refused. Unless a constant had to be re-encoded because it is not plain UTF-8, the string, like code and unknown attribute bytes, is a borrow from inside the caller's input buffer.",
  ["inputs"], "all byte contents of text constants and debug-extension attributes: ASCII, multi-byte, encoded null, surrogate pairs, lone surrogates, malformed",
  "The file that exercises unpaired surrogates is used by no test that runs; nothing checks decoded text or borrowing.",
  ["src/constant_pool.rs", "src/attributes.rs", "src/descriptors.rs"],
  [("decode or keep raw bytes", "src/constant_pool.rs read_constant_utf8"), ("literal access", "src/constant_pool.rs string_literal, utf8"), ("substring borrowing", "src/descriptors.rs parse_class_descriptor")], (), [API + ": every string, its address and whether it is borrowed"])

p("C16", "The bytecode option changes nothing but the decoded bytecode",
  "For every input, parsing with bytecode decoding off succeeds whenever parsing with it on does, and the two results are identical in every other respect; decoded bytecode is present for every code attribute when on (the default) and absent when off. When decoding off succeeds and decoding on fails, the code itself is at fault; errors outside code arrays are reported either way.",
  ["inputs", "configurations"], "all inputs, parsed under both option values and under the default",
  "No test sets the option.",
  ["src/lib.rs", "src/attributes.rs"],
  [("option threaded to the code reader", "src/lib.rs ParseOptions, src/attributes.rs read_code_data")], (), [API])

p("C17", "The thread-safe build is equivalent and safe to share",
  "With the thread-safe feature, parsing gives the same verdict and the same contents as the default build for every input, and a parsed class can be moved to, shared with and dropped on other threads. Any number of threads iterating and reading one shared class, or parsing at once, each observe exactly what a single thread would: no data race, deadlock, panic or torn result under any schedule.",
  ["schedules", "inputs", "configurations"], "all inputs in both builds, and all interleavings of threads that parse, iterate, read and drop",
  "The test suite is never run with the feature by the project's test command, and no test uses more than one thread on a class.",
  ["src/constant_pool.rs", "src/lib.rs"],
  [("mutex cells and atomic reference counts selected by feature", "src/constant_pool.rs CafeCell, peel!; src/lib.rs CafeRc")],
  [("reference cells", "resolved links between pool entries, guarded by a lock per cell", "src/constant_pool.rs")], [API + " built with --features threadsafe", "thread states, ThreadSanitizer and Miri reports"])

p("C18", "Parsing is a pure function of the bytes",
  "The outcome of a parse, including the error text on failure, depends only on the bytes given and the option: it is the same when repeated, at any address or alignment, embedded in a larger buffer, on any thread, after or during any other parses, failed ones included. Parsing never modifies its input and never reads outside it.",
  ["histories", "schedules", "inputs"], "all histories of earlier and concurrent parses, all buffer placements, all inputs",
  "Each test parses at most one input once.",
  ["src/lib.rs", "src/constant_pool.rs", "src/attributes.rs", "src/bytecode.rs"],
  [("no global or thread-local state; all state is created per call", "src/lib.rs parse_class_with_options"), ("unsafe code forbidden", "src/lib.rs")], (), [API, "AddressSanitizer / Miri on placed buffers"])

p("C19", "Access flags keep exactly the defined bits",
  "For every 16-bit flag word, the flags reported for a class, field, method or inner class are exactly the bits the format defines for that item, with undefined bits dropped and no bit changed. For modules, their requires, exports and opens entries and for method parameters, a word with only defined bits is reported exactly, and any undefined bit makes the parse fail.",
  ["inputs"], "all 65536 flag words at each of the nine places flags occur",
  "No test looks at a flag word.",
  ["src/lib.rs", "src/attributes.rs"],
  [("flag sets and truncating or strict conversion", "src/lib.rs ClassAccessFlags, FieldAccessFlags, MethodAccessFlags; src/attributes.rs InnerClassAccessFlags, Module*Flags, MethodParameterAccessFlags")], (), [API])

p("C20", "Literal constants are bit-exact wherever they surface",
  "Every integer, long, float, double and string constant is reported with exactly its encoded bits, including negative values, extremes, signed zeros, infinities and not-a-number payloads. The value is the same in every place that refers to it: constant-pool iteration, constant-value attributes, load-constant instructions, bootstrap arguments and annotation values.",
  ["inputs"], "all 32- and 64-bit patterns and all string constants, at all five kinds of place",
  "No running test contains a checked numeric constant.",
  ["src/constant_pool.rs", "src/lib.rs", "src/attributes.rs", "src/bytecode.rs"],
  [("big-endian readers and bit casts", "src/lib.rs read_u4, read_u8; src/constant_pool.rs read_constant_*"), ("literal accessors", "src/constant_pool.rs read_cp_literalconstant, get_cp_loadable, read_cp_bootstrap_argument")], (), [API])

p("C21", "Errors name the faulty element",
  "When an otherwise well-formed class file has one faulty field, method, attribute, constant-pool entry, instruction or table entry, the displayed error is a nonempty message that locates it: the index of the faulty element and of each element enclosing it all appear, innermost first. Equal inputs give equal errors, and errors of different elements are distinguishable by those indexes.",
  ["inputs", "fault_sequences"], "every single fault at every position of every member, attribute, entry or instruction",
  "Unit tests compare a few fixed messages of isolated entries; no test looks at where an error says it is.",
  ["src/error.rs", "src/lib.rs", "src/attributes.rs", "src/constant_pool.rs", "src/bytecode.rs"],
  [("context chain added at each level", "src/error.rs ParseError::with_context, Display; err!/fail! uses")], (), [API + ": Display of ParseError"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
