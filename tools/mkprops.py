#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Compiling a set of types gives one library, however it is assembled",
  "For a given library name, set of type definitions and set of dependencies, building the library always produces the same result: the same symbolic library, the same compiled library with the same identifiers, and the same serialized bytes, or the same kind of refusal. The order in which types are added, adding a type again, the order in which dependencies are given and the run (process, hash seed) never matter, and the compiled definition of every type is the one its declaration states (same fields, variants, tags, sizes and referenced types, in declaration order).",
  ["programs", "histories"],
  "all sets of (possibly mutually referring) type declarations, all orders and repetitions of adding them, all orders of dependencies, all hash seeds",
  "The tests pin the ids of three fixed libraries, each assembled in one fixed order with one fixed dependency list; hash-map iteration order is sampled once per run.",
  ["src/typelib/transpile.rs", "src/typelib/symbolic.rs", "src/typelib/compile.rs"],
  [("type registration while encoding the dummy value", "src/typelib/transpile.rs: report_compiled, compile_type, register_*"),
   ("symbol collection and dependency selection", "src/typelib/symbolic.rs: LibBuilder::compile_symbols"),
   ("fixpoint that replaces names by ids", "src/typelib/symbolic.rs: SymbolicLib::compile")],
  [("types", "types registered so far, by name"), ("extern types", "foreign types met so far, by library and id")])

p("C02", "Identifiers commit to the whole definition and to nothing else",
  "The identifier of a type is a function of its name and its full definition (class, primitive kind, field and variant names, tags, order, lengths, size bounds and the identifiers of referenced named types), computed with the published tagged-hash scheme, so every run and every library gives the same identifier for the same definition. Changing any one component of a definition changes the identifier, and two different definitions never share one. Likewise a library identifier commits to its name, its dependencies and its types, and a type-system identifier to exactly the set of its type identifiers.",
  ["inputs", "programs"],
  "all type definitions (named and inlined), libraries and type systems, and all pairs of them",
  "Three pinned library ids are checked as a whole; no test compares two different definitions, and most type classes, tags and bounds never occur in a pinned definition whose change would be seen.",
  ["src/ast/id.rs", "src/typelib/id.rs", "src/typesys/id.rs"],
  [("type commitment", "src/ast/id.rs: SemCommit impls, sem_id_inner"),
   ("library commitment", "src/typelib/id.rs: SemCommit for TypeLib, TypeLib::id"),
   ("type-system commitment", "src/typesys/id.rs: SemCommit for TypeSystem")])

p("C03", "A compiled library never contains a dangling reference",
  "Whenever building a library succeeds, every reference in it resolves: a local reference is the identifier of a type of that same library, and a foreign reference names a library listed among its dependencies and a type which that dependency provides and which is recorded, with its name, in the library's table of foreign types. If a declaration refers to a foreign type which the given dependency does not provide, or to a library which is not a dependency, or nests inlined types deeper than the format allows, the build is refused.",
  ["programs", "configurations"],
  "all sets of declarations over several libraries and all choices of dependencies, complete, incomplete or outdated",
  "Two tests cover one fixed missing type and one fixed outdated dependency; every other combination of foreign, local, inlined and nested references is unsampled.",
  ["src/typelib/symbolic.rs", "src/typelib/compile.rs", "src/typelib/transpile.rs"],
  [("dependency and foreign-type checks", "src/typelib/symbolic.rs: compile_symbols, SymbolicLib::compile"),
   ("depth limit of inlined types", "src/typelib/compile.rs: Translate impls for InlineRef*")])

p("C04", "A compiled library converts to symbolic form and back unchanged",
  "Converting any library that was successfully compiled into its symbolic (human-readable, name-based) form succeeds and yields the symbolic library it was compiled from; compiling that again gives a library equal to the original with the same identifier. Converting a library whose references do not resolve reports an error instead of inventing a name.",
  ["programs", "inputs"],
  "all compiled libraries, including ones with foreign types of several dependencies and inlined types at every depth, and hand-assembled libraries with broken references",
  "No test performs the conversion and compares the outcome; the command-line tools only print it.",
  ["src/typelib/translate.rs", "src/typelib/symbolic.rs"],
  [("reverse lookup of names", "src/typelib/translate.rs: SymbolContext"), ("conversion", "src/typelib/symbolic.rs: TypeLib::to_symbolic")])

p("C05", "A type system is complete, and independent of import order",
  "Importing a set of libraries in any order, also repeatedly, and finalizing gives the same type system: it holds exactly the types of those libraries and their inlined subtypes, each under its own identifier with the definition it commits to. Finalizing succeeds exactly if every library that an imported library depends on was imported and every type referenced from a contained type is itself contained; otherwise the missing library or type is reported and no type system is produced.",
  ["histories", "configurations"],
  "all sets of libraries, with any subset missing, and all import orders and repetitions",
  "Tests import one or two fixed complete libraries in one order, so neither reordering nor a missing library or type is ever exercised.",
  ["src/typesys/translate.rs", "src/typesys/symbols.rs", "src/typesys/type_sys.rs"],
  [("import", "src/typesys/translate.rs: SystemBuilder::import, translate_inline"),
   ("completeness check", "src/typesys/translate.rs: SystemBuilder::finalize")],
  [("pending and imported dependencies", "libraries needed and seen"), ("types", "types collected so far, by id")])

p("C06", "Extracting types yields the smallest self-contained subsystem",
  "Extracting a set of types from a type system yields exactly the requested types and everything reachable from them through references, with unchanged definitions, so the result is itself complete and works identically for those types. If a requested or reachable type is absent, extraction fails with that type's identifier and returns nothing. Merging a type system into another gives the union of both.",
  ["inputs", "configurations"],
  "all type systems, complete or not, and all sets of requested types; all pairs of systems to merge",
  "No test calls extraction or merging.",
  ["src/typesys/type_sys.rs"],
  [("closure", "src/typesys/type_sys.rs: extract, extract_internal"), ("merge", "src/typesys/type_sys.rs: extend")])

p("C07", "Type names and identifiers resolve consistently",
  "In a finalized type system every named type of every imported library is found under its qualified name, the name leads to exactly that type's identifier and definition, and the identifier leads back to a qualified name under which the type was imported; unnamed types have no name. Unknown names and identifiers are reported as absent, and looking a type up by name or by identifier always gives the same definition.",
  ["inputs", "configurations"],
  "all sets of imported libraries (also with equal type names in different libraries), all names and identifiers, known or not",
  "Tests look up a handful of fixed names in one fixed system.",
  ["src/typesys/symbols.rs", "src/typesys/translate.rs", "src/typesys/type_sys.rs"],
  [("symbol table", "src/typesys/symbols.rs: update_unchecked, get, lookup, to_sem_id")],
  [("symbols", "pairs of type id and optional qualified name")])

p("C08", "Only values that fit the type are accepted as typed values",
  "Giving an untyped value a type succeeds exactly if the value is a representation of an inhabitant of that type: numbers within range, declared enum and union variants, every field present once and no other, exact array and tuple lengths, collection sizes and character repertoire within bounds, recursively. The typed value then denotes the same data in the type's canonical shape, and everything else is refused with an error, never by a crash.",
  ["inputs"],
  "all types of all complete type systems and all untyped values",
  "One fixed example value is typed against one library; no refusal is tested.",
  ["src/value/typify.rs"],
  [("checker", "src/value/typify.rs: typify_inner, typify_primitive, check_map, check_fields")])

p("C09", "Typed values encode to the canonical bytes and decode back",
  "Encoding a typed value produces exactly the strict encoding of that data for that type, the same bytes the native encoder of the corresponding Rust type writes (little-endian numbers, variant tag bytes, length prefixes sized by the upper bound, no padding, collections in canonical order). Decoding those bytes with the same type gives back an equal typed value and consumes all of them.",
  ["inputs"],
  "all types and all their inhabitants, including boundary numbers, boundary lengths and custom tags",
  "One test decodes and re-encodes one value; most primitive widths, tags, size classes and nestings are never encoded.",
  ["src/value/encode.rs", "src/value/decode.rs"],
  [("encoder", "src/value/encode.rs: strict_write_type"), ("decoder", "src/value/decode.rs: strict_read_type")])

p("C10", "Decoding untrusted bytes yields a valid value or an error",
  "Decoding arbitrary bytes with any type of a complete type system always ends with either an error or a typed value; it never crashes, hangs or reserves memory out of proportion to the input. If it yields a value, that value fits the type (known tags, sizes within bounds, allowed characters, unique collection entries) and encodes back to the very same bytes; input that is truncated or has left-over bytes is refused when a whole value is requested.",
  ["inputs", "fault_sequences"],
  "all types and all byte strings, in particular every truncation, extension and mutation of valid encodings",
  "The single decode test feeds valid bytes only.",
  ["src/value/decode.rs"],
  [("decoder", "src/value/decode.rs: strict_read_type, strict_read_list, strict_deserialize_type")])

p("C11", "Values survive a trip through their text forms",
  "Writing a typed value as JSON, YAML or TOML and reading that text back, by deserialization or by conversion of the parsed document, gives an untyped value which, typed again with the same type, equals the original, whenever the format can express the value (the text form does not tell byte strings from text and numbers wider than 64 bits from hexadecimal text: known findings). Units are written as null, structures as objects, lists, sets and tuples as arrays, maps as arrays of pairs, enum values as variant names, union values as pairs of name and content. Reading a foreign document either preserves it or refuses; converting a parsed foreign document never fails and preserves all its data (fractional numbers and dates as their text, booleans as 0 and 1; tags of YAML nodes are not data). The native notation prints equal values equally and different values of one type differently.",
  ["inputs"],
  "all types and all their inhabitants expressible in the text format, including strings with quotes, control characters and text that looks like other data, and all foreign documents",
  "Two tests load one fixed document; one default value is written and read back.",
  ["src/value/val.rs", "src/value/convert.rs", "src/value/ston.rs", "src/value/typify.rs"],
  [("serialization of values", "src/value/val.rs: StrictVal"), ("conversions", "src/value/convert.rs"), ("notation", "src/value/ston.rs: Display for StrictVal"), ("shapes", "src/value/typify.rs: reshape")])

p("C12", "A value path selects exactly the addressed subvalue",
  "Following a path through a value applies every step in order (field by name, position, map key) and returns the subvalue that the whole path addresses. If some step does not apply to the value reached so far, the outcome is an error which reports that step; no step is skipped and no other subvalue is ever returned.",
  ["inputs"],
  "all values and all paths, valid and invalid, of any length",
  "No test follows any path.",
  ["src/value/path.rs"],
  [("navigation", "src/value/path.rs: StrictVal::at_path")])

p("C13", "A type path selects exactly the addressed component type",
  "Following a path through a type definition applies every step in order from the first (named field, positional field, union variant by name or tag, array or list item, map key or value) and returns the component type that the whole path addresses. If some step does not apply to the type reached so far, the outcome is an error which reports that step.",
  ["inputs"],
  "all type definitions with nested components and all paths over them",
  "No test follows any path.",
  ["src/ast/path.rs", "src/ast/ty.rs"],
  [("navigation", "src/ast/path.rs: Ty::at_path")])

p("C14", "The memory layout lists every component once, in order",
  "The type tree and the memory layout of a type list the type and each of its components exactly once, depth first in declaration order, each with the right nesting depth, field or variant label (including its tag), qualified name and definition; wrappers, options and strings are folded into annotations of the entry they decorate (up to 255 of them). Producing and printing the layout succeeds for every type of a complete type system, and the printed layout shows the same entries with the same labels and nesting.",
  ["inputs", "programs"],
  "all types of all complete type systems, including options, newtypes and strings at every position",
  "One test prints the layout of one fixed type.",
  ["src/typesys/iter.rs", "src/layout/translate.rs", "src/layout/vesper.rs", "src/ast/ty.rs"],
  [("depth-first stack machine", "src/typesys/iter.rs: TypeTreeIter::next"),
   ("item labels", "src/ast/ty.rs: case_at"), ("vesper tree", "src/layout/vesper.rs")],
  [("iterator stack", "open types with their depth and next component")])

p("C15", "Stored artifacts load back equal and damaged ones are refused",
  "Serializing any library, symbolic library, type system or symbolic type system to binary, to ASCII armor (where it has one) or to JSON, and loading it back gives an equal object with the same identifier, and equal objects always serialize to the same bytes; so does YAML wherever it can hold the object, and writing to files. Binary data that is truncated or extended is refused; altered binary data is refused unless it is exactly the stored form of the object it loads as. Armored text is refused if its content no longer has the declared identifier or if the declaration, headers or checksum were altered. Definitions nested deeper than the format allows are refused, and no input makes loading crash.",
  ["inputs", "fault_sequences"],
  "all artifacts and all single-fault corruptions (truncation, extension, altered bytes, altered armor headers or body)",
  "One test writes files and never reads them back.",
  ["src/typelib/serialize.rs", "src/typesys/type_sys.rs", "src/typesys/symbols.rs", "src/ast/encoding.rs"],
  [("binary form", "derived strict encoding plus src/ast/encoding.rs"), ("armor", "src/typelib/serialize.rs: StrictArmor impls")])

p("C16", "Extending a library never overwrites or duplicates",
  "Adding a dependency or a type to a library either adds exactly that entry and nothing else, or is refused with an error that leaves the library exactly as it was. A dependency which is already present and a type name which is already taken are always refused, and the library identifier changes with every successful addition.",
  ["histories"],
  "all sequences of additions, including repeated and conflicting ones",
  "No test extends a library.",
  ["src/typelib/type_lib.rs"],
  [("additions", "src/typelib/type_lib.rs: TypeLib::import, TypeLib::populate")],
  [("dependencies and types", "content of the library")])

p("C17", "Identifiers survive their text form",
  "Every identifier of a type, library or type system, printed in any of its supported text forms, parses back to the same identifier of the same kind. Text of another identifier kind, text with altered checksum words, characters or length, is refused or denotes the different identifier it spells, never silently the original.",
  ["inputs"],
  "all identifiers of the three kinds, all formatting flags, all single-character alterations",
  "No test parses an identifier.",
  ["src/ast/id.rs", "src/typelib/id.rs", "src/typesys/id.rs"],
  [("text forms", "DisplayBaid64 and FromStr impls of SemId, TypeLibId, TypeSysId")])

p("C18", "Source listings show the whole library faithfully",
  "The textual listing of a library, symbolic library or type system (also as written to a source file) names it, lists every dependency, and defines every type exactly once under its own name with a body that shows all its fields, variants, tags, bounds and references (by name in a symbolic library, by identifier otherwise), so that two different definitions never have the same listing body, except that a one-element tuple is listed as its element. Identifiers and mnemonics shown next to a type are those of that very type. The amount of white space carries no meaning.",
  ["inputs", "programs"],
  "all compiled libraries, symbolic libraries and type systems",
  "The tests print fixed libraries without looking at the text.",
  ["src/typelib/serialize.rs", "src/ast/ty.rs", "src/typesys/symbols.rs"],
  [("listing", "src/typelib/serialize.rs: Display impls"), ("bodies", "src/ast/ty.rs: Display for Ty and fields")])

p("C19", "Compiling a symbolic library always ends with a library or an error",
  "Compiling a symbolic library, however it was obtained (built, loaded from storage or converted), terminates and either returns a compiled library or an error naming what is wrong. References to undefined types and definitions that refer to each other in a cycle are refused with an error; they never hang, crash or yield a library.",
  ["inputs", "programs"],
  "all loadable symbolic libraries, including ones with undefined or circular references at any nesting depth",
  "Tests only compile well-formed libraries that the builder produced.",
  ["src/typelib/symbolic.rs", "src/typelib/compile.rs"],
  [("fixpoint", "src/typelib/symbolic.rs: SymbolicLib::compile")],
  [("remaining types", "types whose references are not all compiled yet")])

p("C20", "Questions about a type are answered by its definition",
  "What the interface says about a definition - its class, whether it is a byte, a character, an option, a wrapper or a list of characters, what an option or a wrapper contains, how many components it has, which type, name and tag sits at a position, which variant carries a given tag or name, which field has a given name, and which types it refers to, in which order - is exactly what the definition states, for every class of type and for definitions held in references of every form. A position, tag or name which the definition does not have is answered as absent.",
  ["inputs"],
  "all definitions (every class, any number of components, any tags and names) and all positions, tags and names asked for",
  "No test asks a definition anything; the generated libraries only meet the definitions they happen to contain, and only through whole-library snapshots.",
  ["src/ast/ty.rs", "src/typelib/compile.rs", "src/typelib/transpile.rs", "src/typesys/type_sys.rs"],
  [("predicates and projections", "src/ast/ty.rs: impl Ty, TypeRef"),
   ("lookups by name, tag and position", "src/ast/ty.rs: EnumVariants, UnionVariants, NamedFields, UnnamedFields, ItemCase"),
   ("iteration over components", "src/ast/iter.rs")])

p("C21", "Reading a part of a value gives that part or stops",
  "Values built with the constructors and macros hold what was given to them. Taking a value apart - skipping wrappers, unwrapping options, numbers, strings, bytes, enumeration tags and unions, taking a field by name, an item by position, an entry by key - returns exactly the part which the value has there, looking through single-item wrappers only where documented; where the value has no such part, the call reports absence or stops, and never returns another part. Two values are equal exactly when they have the same form and the same content.",
  ["inputs"],
  "all values (nested to any depth, of every form) and all names, positions and keys asked for",
  "The tests never take a value apart beyond a handful of fixed decoded objects, all of the expected shape.",
  ["src/value/val.rs"],
  [("constructors", "src/value/val.rs: StrictVal constructors and macros"),
   ("accessors", "src/value/val.rs: unwrap_*, skip_wrapper"),
   ("numbers", "src/value/val.rs: StrictNum")])

p("C22", "The published StrictTypes library describes the crate's own stored data",
  "The crate publishes strict types for its own data (libraries, type systems, symbolic systems, memory layouts) as the StrictTypes library. The stored bytes of every such object decode under the type published for it, to a value which states exactly the content of the object - its names, identifiers, definitions, tags, sizes and order - and encoding that value gives the same bytes again. Damaged bytes are refused, or read as the value which is encoded as these very bytes; whatever the crate itself loads is data of the published type.",
  ["inputs"],
  "all libraries, type systems, symbolic systems and memory layouts, and all single damages of their stored bytes",
  "The tests pin the identifier of the published library, but never decode anything under the types it defines.",
  ["src/stl.rs", "src/ast/encoding.rs", "src/ast/ty.rs", "src/typelib/type_lib.rs", "src/typesys/type_sys.rs", "src/typesys/symbols.rs", "src/layout/memory.rs", "src/value/decode.rs"],
  [("published types", "src/stl.rs: strict_types_stl"),
   ("hand-written encodings", "src/ast/encoding.rs"),
   ("dynamic decoding", "src/value/decode.rs")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
