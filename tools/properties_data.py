W = "facet-reflect/src/wip/mod.rs"
prop("R01", "A value built by reflection equals exactly what was put into it",
     "Building a value step by step through the reflection builder (putting whole values or defaults, entering and leaving fields, selecting enum variants, "
     "pushing list elements, map entries and option contents, in any order) yields exactly the value those steps describe. "
     "A history of accepted steps that sets everything always builds, the result reads back the same through reflection and as a native value, "
     "and no step disturbs parts set earlier, except that replacing a part replaces just that part.",
     ["histories", "inputs"],
     "every sequence of builder operations on nested structs, enums, options, lists and maps, with arbitrary leaf values",
     "Tests drive a few straight-line histories per type; the builder is a state machine over frames, initialised-field sets and an instance table whose interactions (re-entry, replacement, nested pops, partial elements) form an unbounded set of histories.",
     [W, "facet-reflect/src/wip/enum_.rs", "facet-reflect/src/wip/heap_value.rs", "facet-reflect/src/wip/iset.rs", "facet-reflect/src/wip/flat_map.rs"],
     [("put / put_shape / put_default", W), ("pop and track_frame: moving a finished child into its parent", W), ("build", W)],
     state=[("frames", "stack of values under construction", W), ("istates", "initialised-field bookkeeping of values that were left", W)],
     observe=["HeapValue::materialize", "Peek of the built value"])
prop("R02", "Builder histories are memory safe and every value is dropped exactly once",
     "Whatever sequence of builder operations is performed, and wherever the history stops (finished, refused, or abandoned half way), no memory is accessed out of bounds, "
     "uninitialised, or after being freed. Every value handed to the builder is dropped exactly once or ends up in the result, and every allocation made for it is released.",
     ["histories", "inputs"],
     "every sequence of builder operations, including refused operations and abandonment at any point",
     "Ownership errors show only under sanitizers and only on the histories driven; the tests run mostly complete, accepted histories.",
     [W, "facet-reflect/src/wip/heap_value.rs", "facet-core/src/types/value.rs", "facet-core/src/ptr.rs"],
     [("Drop for Wip", W), ("Frame::deinit / evict / dealloc", W), ("HeapValue::drop and materialize", "facet-reflect/src/wip/heap_value.rs")],
     state=[("frame mode and flags", "who owns the memory of each value under construction", W)])
prop("R03", "Incomplete or mistyped construction is refused",
     "A builder accepts an operation only when the current value's type allows it: a value of another type, a field or variant that does not exist, or an operation for another kind of type is an error that leaves nothing half written. "
     "Building succeeds only when every field of every struct and selected variant is set, and a built value is handed out only as its own type.",
     ["histories", "inputs"],
     "every sequence of builder operations, at every prefix",
     "Tests assert a handful of refused histories; completeness depends on bookkeeping across leaving and re-entering nested parts.",
     [W, "facet-reflect/src/wip/iset.rs", "facet-reflect/src/wip/heap_value.rs", "facet-reflect/src/wip/enum_.rs"],
     [("build: initialisation check of every frame", W), ("put: shape check", W), ("materialize: shape check", "facet-reflect/src/wip/heap_value.rs"), ("ISet::are_all_set", "facet-reflect/src/wip/iset.rs")])
J = "facet-json/src/deserialize.rs"
JS = "facet-json/src/serialize.rs"
prop("J01", "JSON deserialization is total",
     "Whatever bytes are given as JSON text, for whatever target type, deserializing returns a value or an error: it never panics, overflows the stack on nesting in parts that are skipped, "
     "reads outside the text, or leaks or corrupts memory. An error carries a message, and can be shown (Display and Debug) whatever the text is and wherever in it the error lies.",
     ["inputs"], "arbitrary bytes (not only valid UTF-8) as input, for scalars, strings, structs, lists and options",
     "Tests feed a few malformed texts; a parser over bytes has unboundedly many ways to be cut short or malformed.",
     [J, "facet-json/src/deserialize/error.rs", W],
     [("from_slice_wip: parser state machine", J), ("parse of strings, numbers and skipped values", J), ("error messages", "facet-json/src/deserialize/error.rs")],
     observe=["facet_json::from_slice / from_str"])
prop("J02", "JSON serialization round-trips",
     "Serializing a value of a type that JSON deserialization supports and deserializing the text as the same type yields an equal value: integers keep every digit, floats keep their value, strings every character, options and lists their structure.",
     ["inputs"], "all values of scalar, string, struct, list and option types and their nestings",
     "Tests round-trip a few hand-picked values; digits, escapes and nesting interact with the values.",
     [J, JS], [("serialize of scalars, strings and containers", JS), ("from_slice_wip", J)],
     observe=["facet_json::to_string", "facet_json::to_writer", "facet_json::from_str"])
prop("J03", "JSON serialization writes well-formed JSON that denotes the value",
     "The text produced for a value is exactly one well-formed JSON text and denotes the value: every field under its (renamed) name, in order; lists in order; maps with their keys as strings; enum variants by name with their contents; "
     "strings and keys escaped wherever JSON requires it; numbers in full; floats that have no JSON representation as null. Writing to a writer and to a string produce the same.",
     ["inputs"], "all values of the supported types, including strings with any character and map keys of string and integer types",
     "Escaping and number formatting depend on the value; tests serialize a handful.",
     [JS], [("serialize_value", JS), ("write_json_string", JS)],
     observe=["facet_json::to_string", "facet_json::to_writer"])
prop("J04", "JSON deserialization accepts exactly the texts that denote a value",
     "A text is accepted exactly if it is one well-formed JSON text that denotes a value of the target type, and then the result is that value: strings with all escapes decoded, numbers exactly (an integer that doesn't fit, or isn't one, is an error), "
     "objects by field name in any order with unknown fields skipped whatever they contain, null as an absent option, scalars also from a string they parse from. "
     "Anything else is an error: syntax errors, trailing data, duplicate or missing fields, values of another type.",
     ["inputs"], "arbitrary texts against an independent typed JSON reader",
     "Conformance depends on all inputs; tests sample a few valid and invalid texts.",
     [J], [("from_slice_wip", J), ("parse_string, parse_number, skip_value", J)],
     observe=["facet_json::from_slice"])
prop("J05", "Field attributes govern JSON fields",
     "rename: a field is serialized under its renamed name and found under it when deserializing, whatever the name contains. default: a missing field is taken from its default (of the type, of the given function, or of the container), and a present one never is. "
     "deny_unknown_fields: unknown fields are an error exactly where it is set. A field without a default that is missing is an error.",
     ["inputs"], "arbitrary subsets, orders and names of fields in the text, and arbitrary values",
     "The combinations of present, missing, renamed and unknown fields are many; tests sample one each.",
     [J, JS, "facet-derive-emit/src/lib.rs"], [("missing fields and defaults at the end of an object", J), ("field lookup by name", "facet-reflect/src/wip/mod.rs"), ("gen_struct_field: attributes", "facet-derive-emit/src/lib.rs")],
     observe=["facet_json::from_slice", "facet_json::to_string"])
MP = "facet-msgpack/src/from_msgpack.rs"
MS = "facet-msgpack/src/to_msgpack.rs"
prop("M01", "MessagePack deserialization is total",
     "Whatever bytes are given as MessagePack, for whatever target type, deserializing returns a value or an error: it never panics, overflows the stack on nesting in parts that are skipped, reads beyond the input, or leaks or corrupts memory. "
     "Truncated input, unsupported target types and repeated or missing fields are errors.",
     ["inputs"], "arbitrary bytes as input, for integers, bool, strings and nested structs",
     "A binary decoder with length prefixes has unboundedly many ways to be cut short, overlong or mistyped; the tests feed well-formed data.",
     [MP, W], [("Decoder::decode_*: bounds of every read", MP), ("Decoder::skip_value", MP), ("deserialize_value: struct fields", MP)],
     observe=["facet_msgpack::from_slice"])
prop("M02", "MessagePack serialization round-trips",
     "Serializing a value of a supported type (integers of 8 to 64 bits, bool, String, structs of them) to MessagePack and deserializing the bytes as the same type yields an equal value, for every value, string length and number of fields.",
     ["inputs"], "all values of scalar, string and nested struct types, around every length limit",
     "Every integer, string and map size class has its own format; the tests hit a handful.",
     [MP, MS], [("write_* functions", MS), ("deserialize_value", MP)],
     observe=["facet_msgpack::to_vec", "facet_msgpack::from_slice"])
prop("M03", "MessagePack encoding and decoding follow the specification",
     "The bytes written for a value are the MessagePack encoding of that value in the shortest format of its family, structs as maps from field name to value. "
     "Bytes are accepted exactly if they start with a MessagePack encoding, in whichever format of its family (not only the shortest), of a value of the target type, and the result is that value: integers in range, strings in UTF-8, maps with fields in any order, where unknown fields are skipped whatever well-formed value they hold.",
     ["inputs"], "arbitrary bytes against an independent MessagePack reader; all values against an independent writer",
     "The specification has 37 formats with their own lengths and signs; the tests cover a few of them.",
     [MP, MS], [("decode_int, decode_string, decode_map_len", MP), ("skip_value", MP), ("write_u64, write_i64, write_str, write_map_len", MS)],
     observe=["facet_msgpack::to_vec", "facet_msgpack::from_slice"])
V = "facet-core/src/types/value.rs"
prop("C01", "Value vtables agree with the traits of the type",
     "For every type facet-core or the derive macro describes, the functions of its vtable do what the type's own trait implementations do: comparing, ordering, hashing, formatting, parsing, cloning, defaulting and dropping give the same results. "
     "A trait or marker the vtable claims is one the type has; equal values hash equally; layout, id and name are the type's own. A derived type, a scalar, a list, a slice or an array lacks none of its traits.",
     ["inputs"], "all values (pairs of values) of 95 types: integers, NonZero, strings, IP addresses, paths, options, arrays, slices, lists, tuples, maps, smart pointers and derived structs, enums and unions",
     "The functions are written per type in macros or by hand, over raw pointers; tests check a few values of some types for some functions.",
     [V, "facet-core/src/macros.rs", "facet-core/src/spez.rs", "facet-core/src/impls_core", "facet-core/src/impls_alloc", "facet-core/src/impls_std", "facet-derive-emit/src"],
     [("value_vtable!: which traits a type has", "facet-core/src/macros.rs"), ("Spez*: calling the trait through autoref specialization", "facet-core/src/spez.rs"),
      ("hand-written vtables of arrays, slices and tuples", "facet-core/src/impls_core"), ("of Vec and BTreeMap", "facet-core/src/impls_alloc"), ("of HashMap", "facet-core/src/impls_std")],
     observe=["Shape::vtable", "MarkerTraits", "Shape::layout"])
prop("C03", "Container vtables behave like the containers they describe",
     "The functions in the shapes of lists, maps, options, arrays, slices and smart pointers do exactly what the native operations do, for any sequence of them: pushing, inserting (replacing the value of an equal key), looking up, iterating, length, "
     "taking, replacing and reading an option, cloning, upgrading, downgrading and borrowing pointers. "
     "Contents are moved in without copies or leaks, and every one is dropped exactly once; items that don't exist are refused.",
     ["inputs", "histories"], "all sequences of up to 5 operations on containers of scalars, strings, wide structs and unit",
     "The functions work on untyped pointers; what they leak, copy or overwrite only shows for particular sequences and element types.",
     ["facet-core/src/types/def.rs", "facet-core/src/impls_alloc/vec.rs", "facet-core/src/impls_alloc/btreemap.rs", "facet-core/src/impls_std/hashmap.rs", "facet-core/src/impls_core/option.rs",
      "facet-core/src/impls_core/array.rs", "facet-core/src/impls_core/slice.rs", "facet-core/src/impls_alloc/arc.rs", "facet-core/src/impls_core/pointer.rs"],
     [("ListVTable of Vec", "facet-core/src/impls_alloc/vec.rs"), ("MapVTable of BTreeMap", "facet-core/src/impls_alloc/btreemap.rs"), ("MapVTable of HashMap", "facet-core/src/impls_std/hashmap.rs"),
      ("OptionVTable", "facet-core/src/impls_core/option.rs"), ("SmartPointerVTable of Arc and Weak", "facet-core/src/impls_alloc/arc.rs")],
     observe=["ListVTable", "MapVTable", "OptionVTable", "ArrayVTable", "SliceVTable", "SmartPointerVTable"])
PK = "facet-reflect/src/peek"
prop("R04", "Peek shows exactly the value it looks at",
     "Reading a value through Peek shows what is there: the right shape and address, each field under its name and index at its place, the active variant with its discriminant and fields, each list item in order, each map entry, an option's presence and payload. "
     "What does not exist (index, name, key, another type) is refused. Comparing, hashing and printing through Peek are those of the value, and values of different types never compare.",
     ["inputs"], "all values of 78 types: scalars, structs, tuples, enums of every representation, lists, options, maps and nestings",
     "Peek reads through offsets, discriminants and vtables; tests look at a few values of a few shapes.",
     [PK + "/value.rs", PK + "/struct_.rs", PK + "/enum_.rs", PK + "/list.rs", PK + "/map.rs", PK + "/option.rs", "facet-reflect/src/scalar.rs"],
     [("PeekEnum::variant_index: reading the discriminant", PK + "/enum_.rs"), ("Peek::eq, partial_cmp and hash", PK + "/value.rs"), ("PeekStruct::field", PK + "/struct_.rs"), ("PeekListIter, PeekMap::get", PK), ("ScalarType::try_from_shape", "facet-reflect/src/scalar.rs")],
     observe=["Peek", "PeekStruct", "PeekEnum", "PeekList", "PeekMap", "PeekOption"])
PP = "facet-pretty/src/printer.rs"
prop("P01", "Pretty-printing never reveals sensitive fields",
     "A field marked #[facet(sensitive)] is redacted wherever it is pretty-printed: in structs, tuple structs and enum variants, behind options, lists, tuples and smart pointers, nested at any depth, with or without colours, through every way of printing. "
     "What is printed is the same whatever the sensitive field holds, says that it is redacted, and the fields that aren't sensitive are still shown.",
     ["inputs"], "two values that differ in sensitive fields only, for 17 types and five ways of printing",
     "That two different secrets give the same text is a statement about pairs of values, and each kind of container is a separate code path; tests look at one struct.",
     [PP, "facet-derive-emit/src/lib.rs"], [("format_peek_internal: FieldFlags::SENSITIVE", PP), ("write_redacted", PP), ("gen_struct_field: sensitive", "facet-derive-emit/src/lib.rs")],
     observe=["PrettyPrinter::format", "FacetPretty::pretty"])
prop("P02", "Pretty-printing shows the value, all of it, once",
     "The text pretty-printing writes for a value is the one its structure calls for: type names, every field with its name in order, the active variant, list items in order, option contents, scalars as by Display, doc comments if any, each level indented by the configured amount, "
     "cut off exactly below the configured depth. Colours change nothing but the escape sequences, and each is switched off again. Values whose kind has no rendering (arrays, slices, smart pointers, maps' contents) are outside.",
     ["inputs"], "all values of 42 types, all indentations and depths configured",
     "Layout depends on nesting, emptiness and position; tests snapshot a few values.",
     [PP], [("format_peek_internal", PP), ("format_scalar", PP), ("visited: cycle detection", PP)],
     observe=["PrettyPrinter::format", "PrettyPrinter::with_indent_size", "PrettyPrinter::with_max_depth"])
U = "facet-urlencoded/src/lib.rs"
prop("U01", "Form data deserializes to exactly what it denotes, or is refused",
     "Reading form data never panics or overflows the stack, whatever the text. It succeeds exactly if every field of the struct, at any depth, is given: the result then holds the percent- and plus-decoded text, or the number, that was last given under the field's name, "
     "with name[part][part] for fields of nested structs. Unknown names, and names whose brackets aren't in order, are ignored. A missing field, text that is no u64, a value for a struct, parts for a scalar and types other than String, u64 and structs of them are errors.",
     ["inputs"], "arbitrary text, and arbitrary bytes in names, brackets and values of well-formed form data, against an independent reader",
     "The text is untrusted input; decoding, nesting and duplicates interact, and tests sample a handful.",
     [U], [("NestedValues::insert, split_key", U), ("deserialize_value, deserialize_nested_field", U)],
     observe=["facet_urlencoded::from_str"])
AR = "facet-args/src/lib.rs"
prop("A01", "Command line arguments yield exactly what they say, or are refused",
     "Parsing a list of arguments yields a value in which every field holds what the arguments say: --name sets a bool field, --name value parses the value into that field, and other arguments go to the positional fields in order. "
     "It yields no value (the parser panics with a message) for unknown names, missing or unparsable values, a field given twice, more positional arguments than positional fields, and a field that no argument gives. No value is ever partially set or taken from the wrong argument.",
     ["inputs", "histories"], "all sequences of up to 5 arguments from per-type pools with arbitrary characters in them, against an independent reading",
     "Sequences of arguments are a language of their own; the tests parse one.",
     [AR, W], [("from_slice", AR), ("parse_field", AR)], observe=["facet_args::from_slice"])
Y = "facet-yaml/src/lib.rs"
prop("Y01", "YAML deserializes to exactly what the document denotes, or is refused",
     "Given any text, reading YAML returns a value or an error and never panics. It returns a value exactly if the text is one YAML document that denotes one: mappings from all of a struct's field names, in any order, to their values; strings; unsigned integers in range (also from a string or a boolean). "
     "The value is then the one denoted. Unknown and missing fields, keys that aren't strings, numbers that don't fit, values of another kind and target types that aren't supported are errors.",
     ["inputs"], "arbitrary short texts and documents with arbitrary characters, against an independent reading of the parsed document",
     "The text is untrusted input; the tests read a few well-formed documents.",
     [Y], [("deserialize_value", Y), ("yaml_to_u64", Y)], observe=["facet_yaml::from_str"])
T = "facet-toml/src/lib.rs"
prop("T01", "TOML deserializes to exactly what the document denotes, or is refused",
     "Given any text, reading TOML returns a value or an error and never panics. It returns a value exactly if the text is a TOML document that denotes one, and then that value: tables by field name, in any order and notation, with unknown keys ignored and absent optional fields None; a single value for a struct or variant of one field; "
     "integers in range (also from a float without a fraction), floats, booleans, strings, IP and socket addresses from strings; arrays; maps with string keys; enum variants by name (as a string for those without fields, as a table with one key otherwise). Whatever comes after an option, a variant, a list or a map is read too. "
     "Missing fields, values out of range or of another kind, unknown variants, and target types that aren't supported are errors.",
     ["inputs"], "arbitrary short texts and documents with arbitrary characters in 100 contexts and 24 target types, against an independent reading of the parsed document",
     "The text is untrusted input, and the target types nest freely; tests use one kind of field at a time.",
     [T, "facet-toml/src/to_scalar.rs", W], [("deserialize_as_struct, build_enum_from_variant_name, deserialize_as_list, deserialize_as_map, deserialize_as_option", T), ("number, integer", "facet-toml/src/to_scalar.rs")],
     observe=["facet_toml::from_str"])
D = "facet-derive-emit/src"
prop("C02", "Derived shapes describe the types they are derived for",
     "The shape #[derive(Facet)] generates for a struct or an enum is that of the type as the compiler lays it out: name (without type parameters), id, size, alignment and kind; each field under its name, at its offset, with its type; each variant under its name with its kind, its fields where they are in a value of it, and its discriminant, "
     "in the integer type the enum uses. Any discriminant denotes the variant it denotes natively. Doc comments, type parameters and #[facet(..)] attributes of types and fields (sensitive, default, rename, deny_unknown_fields, arbitrary ones), however they are grouped, are all there and no others.",
     ["inputs"], "25 structs, 165 enums of 15 representations with all contents, and all discriminants of 16 fieldless enums",
     "The layout of enums is recomputed by the macro with shadow types, separately for each representation and kind of variant; a wrong offset or discriminant is memory unsafety. Tests compare the generated text.",
     [D + "/lib.rs", D + "/process_struct.rs", D + "/process_enum.rs", "facet-derive-parse/src/lib.rs", "facet-core/src/macros.rs"],
     [("gen_struct_field", D + "/lib.rs"), ("process_c_style_enum, process_primitive_enum: shadow types and discriminants", D + "/process_enum.rs"), ("grammar of attributes", "facet-derive-parse/src/lib.rs")],
     observe=["Facet::SHAPE"])
prop("C04", "No value that violates its type's invariants is built",
     "A type with #[facet(invariants = ..)], struct or enum, with any number of invariants, is only ever built, through Wip or by reading a document in any format, as a value for which all of them hold; any other is refused with an error, and what it owns is dropped exactly once. "
     "A value that upholds them is built as it is, and no invariant is asked of a value that isn't complete.",
     ["inputs", "histories"], "all contents of types with one to three invariants, built in any order, or read from four formats",
     "Invariants are arbitrary functions of the contents; tests try one type with two values.",
     [D + "/lib.rs", "facet-reflect/src/wip/mod.rs"], [("build_maybe_invariants", D + "/lib.rs"), ("Wip::build: invariants", "facet-reflect/src/wip/mod.rs")],
     observe=["Wip::build", "facet_json::from_str"])
prop("W01", "Writing to any writer delivers the text, or its beginning and the writer's error",
     "JSON written to any io::Write arrives complete and unchanged, however few bytes the writer takes at a time and however often it is interrupted. If the writer fails, at whatever byte, exactly what came before has arrived, its error is reported, and it isn't written to again. "
     "A value JSON writing doesn't support is an error, not some other text. Pretty printing into any fmt::Write likewise delivers the whole text, or its beginning and an error.",
     ["inputs", "fault_sequences"], "every number of bytes after which the writer fails, for values of 16 types as JSON and 12 types pretty printed",
     "Tests write into memory only, where nothing is ever refused or cut short.",
     ["facet-json/src/serialize.rs", "facet-pretty/src/printer.rs"], [("to_writer, peek_to_writer", "facet-json/src/serialize.rs"), ("serialize_*, write_json_string", "facet-json/src/serialize.rs"), ("PrettyPrinter::format_to", "facet-pretty/src/printer.rs")],
     observe=["facet_json::to_writer", "facet_json::peek_to_writer", "PrettyPrinter::format_to", "FacetPretty::pretty"])
prop("N01", "Numbers are stored exactly, or refused",
     "Putting a number given as f64 into an integer, whatever its width and sign, zero or not, stores exactly that integer if the type has it, and is refused otherwise: fractions, NaN, infinities and numbers out of range never become another number. A f32 gets the nearest one, within its range, a f64 the number itself; nothing else takes a number, and no other field changes. "
     "A struct or variant with up to 64 fields is complete exactly if each one was set.",
     ["inputs"], "all f64 for every numeric type; every subset of set fields that misses at most one, up to 64 fields",
     "Float to integer casts saturate and round silently at limits that no test hits.",
     ["facet-reflect/src/wip/put_f64.rs", "facet-reflect/src/wip/iset.rs", W], [("try_put_f64, exact_int", "facet-reflect/src/wip/put_f64.rs"), ("ISet", "facet-reflect/src/wip/iset.rs")],
     observe=["Wip::try_put_f64", "Wip::can_put_f64", "Wip::is_field_set", "Wip::build"])
