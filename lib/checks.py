"""What each property's check explores: harness entries, parameter tuples per tier, required
witnesses, and the bounds, assumptions and blind spots reported as evidence."""

ASSUMPTIONS = [
    "The encoding is the LLVM IR rustc 1.86 emits for the whole program at opt-level of the harness profile (pre-LTO); "
    "rustc's front end and the executor's IR semantics are trusted, cross-checked by replaying sampled paths natively.",
    "Pointers have concrete (object, offset) identity; symbolic offsets are forked over their feasible values. "
    "Allocation never fails below the stated cap; a larger request is reported.",
    "BuildHasher::hash_one returns 0 (every hash map behaves as if all keys collide); RandomState keys are fixed.",
    "One thread; no signals; a panic ends the path (no unwinding into drop glue is explored, except where stated).",
]


def E(area, name, quick, thorough=None, witness=0, **kw):
    d = {"area": area, "name": name, "quick": [list(p) for p in quick],
         "thorough": [list(p) for p in (thorough if thorough is not None else quick)], "witness": witness}
    d.update(kw)
    return d


MEMK = r"(?!check-failed).*"
CHECKS = {}

_WIP_Q = [(t, {1: 5, 6: 5, 2: 6, 5: 6, 7: 6, 9: 6, 10: 6, 11: 6, 12: 6, 14: 6, 16: 6, 17: 6, 18: 6}.get(t, 7), 0) for t in range(19)] + [(t, {0: 7, 2: 6, 8: 6, 13: 6, 17: 6}.get(t, 5), 7) for t in range(19)]
_WIP_T = [(t, {1: 7, 6: 7, 2: 8, 0: 9, 5: 8, 7: 8, 12: 7, 16: 7, 17: 7, 18: 7}.get(t, 8), 0) for t in range(19)] + [(t, {1: 6, 18: 6}.get(t, 7), 7) for t in range(19)]
_WIP_BOUNDS = {
    "quick": "all histories of up to 7 builder operations (6, 5 for enums, for the types with the most operations) on 19 root types; again of up to 5 (7 for nested structs, 6 for four others) with fields and variants by name, put_peek, parse and put_unset_fields_from_default",
    "thorough": "all histories of up to 8 builder operations (9 for nested structs, 7 for enums and nested maps) on 19 root types; again of up to 7 (6 for enums) with fields and variants by name, put_peek, parse and put_unset_fields_from_default",
}
_WIP_OUT = ("longer histories; types other than the 19 roots (nested structs, tuples, enums with unit/tuple/struct variants and negative discriminants, options, lists, lists of lists, "
            "BTreeMap/HashMap, maps of lists, a map with structs as keys, newtypes); string map keys take two values; string contents are one symbolic character")
CHECKS["R01"] = {
    "entries": [E("wip", "wip_ops", _WIP_Q, _WIP_T, witness=14)],
    "how": "every history of builder operations is executed against the real Wip and a tree model of what the value should hold; after every operation the builder's own answers are compared with the model, at the end the built value is read by Peek and natively",
    "errors": r"check-failed: (?!.*(accepted exactly|accepts an incomplete)).*|panic: .*",
    "bounds": _WIP_BOUNDS, "outside": _WIP_OUT,
}
CHECKS["R02"] = {
    "entries": [E("wip", "wip_ops", _WIP_Q, _WIP_T, witness=14)],
    "how": "same exploration as R01; every allocation, access, free and drop is checked by the executor on every history, including histories that end in an error or are abandoned",
    "errors": MEMK, "bounds": _WIP_BOUNDS, "outside": _WIP_OUT,
}
CHECKS["R03"] = {
    "entries": [E("wip", "wip_ops", _WIP_Q, _WIP_T, witness=14)],
    "how": "same exploration as R01; acceptance of every operation, of build and of materialize (as its own and as another type of the same layout) must match the model",
    "errors": r"check-failed: .*(accepted exactly|accepts an incomplete|another type|which fields are set|not exist is).*|panic: .*|uninitialised-use: .*|invalid-value: .*",
    "bounds": _WIP_BOUNDS, "outside": _WIP_OUT,
}

# ---- facet-json
_ALL = range(40)
_TPLQ = [(i,) for i in range(110) if i not in (5, 6, 10, 20, 46, 49)]
_TPLT = [(i,) for i in range(110)]
_DEQ = [(t, 5) for t in _ALL] + [(t, n) for t in (2, 5, 11, 12, 13, 14, 15, 16, 25) for n in range(4)] + [(t, 6) for t in (5, 11, 25)]
_DET = [(t, n) for t in _ALL for n in range(6)] + [(t, 6) for t in _ALL if t != 27] + [(t, 7) for t in (4, 5, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 24, 25, 26, 29)]
_JB = {
    "quick": "all byte strings of length 5 against 40 target types (length up to 6 for strings, a struct and a list of strings), texts with up to 8 arbitrary bytes in 104 JSON contexts (escapes, surrogates, number limits, skipped values, duplicate/missing/renamed fields), unknown fields nested 1000 deep",
    "thorough": "all byte strings of lengths 0 to 6 (7 for 17 types) against 40 target types, texts with up to 8 arbitrary bytes in 110 JSON contexts, unknown fields nested 20000 deep",
}
_JOUT = "longer texts beyond the templates; enums, maps, sets and smart pointers as targets (facet-json doesn't deserialize them); std's float parser is trusted (evaluated, not encoded)"
_JERR = [(0, 2), (1, 2), (2, 3), (3, 3)]
CHECKS["J01"] = {
    "entries": [E("json", "json_de", _DEQ, _DET, witness=0), E("json", "json_tpl", _TPLQ, _TPLT), E("json", "json_deep", [(1000,)], [(1000,), (20000,)], witness=1),
                E("json", "json_err", _JERR, _JERR + [(1, 5), (2, 5), (3, 5)], witness=1),
                E("json", "json_show", [(i, i % 2) for i in range(30)], [(i, k) for i in range(30) for k in (0, 1)], witness=1)],
    "how": "the deserializer runs on symbolic bytes, and its errors are shown, also next to every character of a symbolic UTF-8 text; every panic, memory error and leak on any path is an error",
    "errors": r"(?!check-failed).*|check-failed: an error without a message|check-failed: .*deep.*", "bounds": _JB, "outside": _JOUT,
}
CHECKS["J04"] = {
    "entries": [E("json", "json_de", _DEQ, _DET), E("json", "json_tpl", _TPLQ, _TPLT), E("json", "json_deep", [(200,)], [(2000,)], witness=1)],
    "how": "an independent typed JSON reader in the harness runs on the same symbolic text; acceptance and value must agree on every path",
    "bounds": _JB, "outside": _JOUT,
}
_SERQ = [(i,) for i in range(42) if i not in (2, 8, 17, 24, 38)]
_SERT = [(i,) for i in range(42)]
_SB = {"quick": "all values of 8- and 16-bit integers, bool, char, strings of up to 2 characters; wider integers around every power of ten and limit; 20 floats including extremes; structs, nested options, lists of up to 2 elements; 37 types",
       "thorough": "as quick, with lists of strings, structs of wide integers and 42 types"}
_SOUT = "longer strings and lists; arbitrary f32/f64 bit patterns (std's float formatting and parsing are trusted); u128/i128, char and unit, which facet-json doesn't serialize"
CHECKS["J02"] = {
    "entries": [E("json", "json_ser", _SERQ, _SERT, witness=1)],
    "how": "a symbolic value is serialized and deserialized again", "bounds": _SB, "outside": _SOUT,
}
CHECKS["J03"] = {
    "entries": [E("json", "json_ser", _SERQ, _SERT, witness=1), E("json", "json_ser_only", [(i,) for i in range(7)], [(i,) for i in range(8)], witness=1)],
    "how": "the text for a symbolic value is compared with an independent writer's and read by an independent well-formedness checker", "bounds": _SB, "outside": _SOUT,
}
_ATQ = [(t, n) for t in (12, 13, 14, 15, 17) for n in (2, 6)] + [(t, n) for t in (37, 38, 39) for n in (2, 5)]
CHECKS["J05"] = {
    "entries": [E("json", "json_de", _ATQ, _ATQ + [(t, 7) for t in (12, 13, 14, 15)]), E("json", "json_tpl", [(i,) for i in list(range(35, 48)) + [4, 8, 32, 52, 56] + list(range(58, 69)) + list(range(99, 110)) if i != 46], [(i,) for i in list(range(30, 48)) + [4, 5, 6, 8, 52, 53, 56] + list(range(58, 69)) + list(range(99, 110))]),
                E("json", "json_ser", [(i,) for i in (18, 19, 20, 21, 22, 23, 25, 39, 40, 41)], witness=1),
                E("json", "json_ser_only", [(0,)], witness=1)],
    "how": "structs with rename, default, default = function, container default and deny_unknown_fields are read from texts with symbolic names and values, against an independent reader, and written and read back",
    "bounds": {"quick": "all byte strings of 6, and 34 object contexts with up to 8 arbitrary bytes, for 10 attributed types; all values of 10 types for serialization", "thorough": "also all byte strings of 7 and 43 contexts"}, "outside": _JOUT,
}

CHECKS["W01"] = {
    "entries": [E("json", "json_writer", [(t, m) for t in range(16) for m in range(6)], witness=2), E("json", "json_refused", [(i,) for i in range(5)], witness=1),
                E("pretty", "pretty_writer", [(t, m) for t in range(12) for m in range(4)], witness=2)],
    "errors": r".*",
    "how": "the number of bytes a writer takes before it fails is symbolic; what arrived, and what is reported, is compared with the text written into memory",
    "bounds": {"quick": "JSON: 16 types, every number of bytes, 1, 3 or any number of bytes per call, with and without interruptions, 3 ways to fail, through to_writer and peek_to_writer; pretty: 12 types, every number of bytes, with and without colours, through format_to and Display; texts of up to some 200 bytes", "thorough": "as quick"},
    "outside": "writers that panic; larger values; to_string and format, which write to memory, are compared with independent writers by J01, J03 and P02",
}

# ---- facet-msgpack
_MPQ = [(0, 1), (0, 3), (1, 3), (2, 5), (3, 9), (4, 2), (5, 3), (6, 5), (7, 9), (8, 1), (8, 3), (9, 1), (9, 3), (9, 5), (10, 0), (10, 1), (10, 2), (10, 3), (10, 4), (11, 4), (12, 1), (12, 2), (12, 4), (13, 4), (14, 4), (15, 3), (16, 3), (17, 3)]
_MPT = [(t, n) for t in range(18) for n in range(5)] + [(t, 5) for t in range(18)] + [(3, 9), (7, 9), (9, 6), (9, 7)]
_MPTPLT = [(i,) for i in range(81)]
_MPTPLQ = [(i,) for i in range(81) if i not in (5, 7, 8, 12, 13, 14, 16, 30, 31, 32, 49)]
_MPSER = [(i,) for i in range(16)]
_MPLONG = [(n, k) for n in (31, 32, 255, 256, 65535, 65536) for k in (0, 1)]
_MPB = {"quick": "all byte strings of up to 4 bytes for structs (5 for strings, 9 for integers) against 18 target types, encodings with up to 17 arbitrary bytes in 70 contexts (every format as an unknown field, keys in every string format), unknown fields nested 1000 deep; all values of integers, bool and structs of up to 16 fields (three arbitrary bools each), strings of up to 2 characters and around the lengths 32, 256 and 65536",
        "thorough": "all byte strings of up to 5 bytes (7 for strings, 9 for integers) against 18 target types, 81 contexts, unknown fields nested 20000 deep; values as in quick and of a struct nested three levels"}
_MPOUT = "longer inputs beyond the contexts; maps of more than 65535 fields; types facet-msgpack does not support (floats, lists, options, enums), which are only checked to be refused"
CHECKS["M01"] = {
    "entries": [E("msgpack", "mp_de", _MPQ, _MPT), E("msgpack", "mp_tpl", _MPTPLQ, _MPTPLT), E("msgpack", "mp_deep", [(1000,)], [(1000,), (20000,)], witness=1)],
    "how": "the deserializer runs on symbolic bytes; every panic, memory error and leak on any path is an error",
    "errors": r"(?!check-failed).*|check-failed: (bytes that denote no such|an unsupported|a deeply).*", "bounds": _MPB, "outside": _MPOUT,
}
CHECKS["M02"] = {
    "entries": [E("msgpack", "mp_ser", _MPSER, _MPSER + [(16,)], witness=1), E("msgpack", "mp_ser_long", _MPLONG, _MPLONG, witness=1)],
    "how": "a symbolic value is serialized and deserialized again",
    "errors": r"(?!check-failed).*|check-failed: (a value changes|an encoded value).*", "bounds": _MPB, "outside": _MPOUT,
}
CHECKS["M03"] = {
    "entries": [E("msgpack", "mp_de", _MPQ, _MPT), E("msgpack", "mp_tpl", _MPTPLQ, _MPTPLT), E("msgpack", "mp_deep", [(200,)], [(2000,)], witness=1),
                E("msgpack", "mp_ser", _MPSER, _MPSER + [(16,)], witness=1), E("msgpack", "mp_ser_long", _MPLONG, _MPLONG, witness=1)],
    "how": "an independent reader and writer of the MessagePack specification run on the same symbolic bytes and values; acceptance, value and bytes must agree on every path",
    "bounds": _MPB, "outside": _MPOUT,
}

# ---- facet-core vtables and Peek
_NT = range(95)
CHECKS["C01"] = {
    "entries": [E("core", "vt_cmp", [(i,) for i in _NT], witness=1), E("core", "vt_fmt", [(i,) for i in _NT], witness=1), E("core", "vt_own", [(i,) for i in _NT], witness=1),
                E("core", "vt_parse", [(i, n) for i in range(41) for n in (0, 1, 3)] + [(i, n) for i in range(78, 88) for n in (0, 1)], [(i, n) for i in range(41) for n in range(5)] + [(i, n) for i in range(78, 88) for n in range(4)])],
    "how": "for each type the vtable's functions and the native traits run on the same symbolic values; results, bytes fed to the hasher and texts must agree on every path",
    "bounds": {"quick": "95 types; all pairs of values (strings and lists of up to 2 elements, maps of up to 2 entries); wide integers formatted at their limits and for 256 values; parsing of all texts of 0, 1 and 3 bytes",
               "thorough": "as quick, parsing of all texts of up to 4 bytes"},
    "outside": "Display of u128/i128 (256-bit arithmetic in std); native markers a generic container's vtable does not claim (allowed); types outside the list",
}
_CQ = [(i, 6) for i in (0, 1, 2, 3, 16, 17)] + [(i, 4) for i in (4, 5, 6, 7, 8, 23)] + [(i, 0) for i in (9, 10, 11, 12, 14, 15, 18, 19, 20, 21, 22)]
_CT = [(i, 9) for i in (0, 1, 2, 3, 16, 17)] + [(i, 5) for i in (4, 5, 23)] + [(6, 4), (7, 6), (8, 6)] + [(i, 0) for i in (9, 10, 11, 12, 14, 15, 18, 19, 20, 21, 22)]
CHECKS["C03"] = {
    "entries": [E("core", "coll", _CQ, _CT, witness=1)],
    "how": "sequences of operations through the vtables, on symbolic values, are compared with the same operations on the native container; the executor checks every access, drop and free",
    "bounds": {"quick": "sequences of up to 4 insertions (maps) or 6 pushes (lists), 11 element and key types", "thorough": "up to 5 insertions (6 for HashMap) or 9 pushes"},
    "outside": "longer sequences; Rc, Mutex and other pointers facet-core does not describe",
}
_PK = [(i, f) for i in range(78) for f in (0, 1)]
CHECKS["R04"] = {
    "entries": [E("core", "peek", _PK, witness=1), E("core", "peek_print", [(i,) for i in range(6)], witness=1)],
    "how": "every part Peek shows of a symbolic value is compared, by address and content, with the native value; comparing, hashing and printing Peeks with the value's own traits",
    "bounds": {"quick": "all values of 78 types (strings of one character, lists and maps of up to 2 elements)", "thorough": "as quick"},
    "outside": "longer lists and maps; printing is checked for 6 types",
}

# ---- facet-pretty
_RED = [(t, h) for t in range(18) for h in range(5)]
_REDQ = [(t, h) for t in range(18) for h in (0, 1 + t % 4)]
CHECKS["P01"] = {
    "entries": [E("pretty", "redact", _REDQ, _RED, witness=1), E("pretty", "redact_array", [(t, 0) for t in range(3)], [(t, h) for t in range(3) for h in range(5)]),
                E("pretty", "redact_swallowed", [(0, 0)], [(0, 0), (0, 1)])],
    "how": "two values that agree except in sensitive fields are printed; the texts must be equal on every path, and mention each redaction",
    "bounds": {"quick": "18 types with sensitive fields, 2 of 5 ways of printing each; all pairs of sensitive contents (strings of up to 2 characters, integers)", "thorough": "all 5 ways of printing"},
    "outside": "longer secrets; arrays and slices, and sensitive after an attribute the derive macro doesn't know, which are known findings",
}
CHECKS["P02"] = {
    "entries": [E("pretty", "pretty", [(t,) for t in range(42)], witness=1), E("pretty", "pretty_depth", [(t, d) for t in (11, 12, 15, 21, 23, 29, 41) for d in range(3)], witness=1)],
    "how": "an independent renderer in the harness writes the text for the same symbolic value; the texts must agree on every path",
    "bounds": {"quick": "all values of 42 types (strings of one character, lists of up to 2 elements, bytes from 4 values), depths 0 to 2", "thorough": "as quick"},
    "outside": "longer strings and lists; arrays, slices, smart pointers and maps; which colours are used",
}

# ---- facet-urlencoded
_UR = [(t, n) for t in (0, 4, 5, 6, 10, 13) for n in (0, 1, 3)]
CHECKS["U01"] = {
    "entries": [E("urlenc", "ue_tpl", [(i,) for i in range(68)]), E("urlenc", "ue_raw", _UR, [(t, n) for t in range(15) for n in range(5)]),
                E("urlenc", "ue_gen", [(0, 4, 1, 0), (1, 4, 1, 0), (2, 4, 1, 0), (4, 4, 1, 0), (0, 3, 1, 1), (1, 3, 1, 1), (2, 2, 1, 1), (0, 2, 2, 0)],
                  [(t, 4, 1, 0) for t in range(5)] + [(t, 3, 1, 1) for t in range(5)] + [(0, 2, 2, 0), (1, 2, 2, 0), (4, 2, 2, 0), (1, 5, 1, 0)]),
                E("urlenc", "ue_deep", [(1, 0), (1, 1), (200, 0), (200, 1), (20000, 0), (20000, 1)], [(n, k) for n in (1, 40, 126, 127, 128, 129, 200, 20000) for k in (0, 1)])],
    "how": "an independent reader of form data and of bracketed names runs on the same symbolic text; acceptance and value must agree on every path",
    "bounds": {"quick": "all texts of 0, 1 and 3 bytes for 6 target types; 68 contexts with up to 3 arbitrary characters (names, brackets, escapes, numbers at their limit) for 11 types; complete texts of 4 types with one or two further pairs under any name of up to 4 parts; names nested 20000 deep",
               "thorough": "all texts of up to 4 bytes for 15 target types"},
    "outside": "longer texts beyond the contexts; std's lossy UTF-8 decoding is used on both sides",
}

# ---- facet-args
CHECKS["A01"] = {
    "entries": [E("args", "args_tpl", [(i,) for i in range(49)]), E("args", "args_seq", [(t, k) for t in range(14) for k in (0, 1, 2, 3, 4)] + [(2, 5), (7, 5)], [(t, k) for t in range(14) for k in range(6)] + [(7, 6)])],
    "how": "an independent reading of the arguments decides whether they denote a value; if so the parser must return that value, if not it must not return",
    "errors": r".*",
    "bounds": {"quick": "all sequences of up to 4 arguments (5 for two types) from pools of 3 to 9, with arbitrary characters, for 14 types; 49 contexts with up to 4 arbitrary characters",
               "thorough": "all sequences of up to 5 arguments (6 for the type with three positional fields)"},
    "outside": "short options, which facet-args doesn't read; longer lists; drop glue that runs while a panic unwinds",
}

# ---- facet-yaml, facet-toml
CHECKS["Y01"] = {
    "entries": [E("yaml", "yaml_tpl", [(i,) for i in range(56)]), E("yaml", "yaml_raw", [(13, 0), (13, 1), (13, 2), (14, 2), (0, 2), (4, 2), (13, 3, 1), (14, 3, 1)],
                                                                     [(t, n, 1) for t in (0, 4, 13, 14, 15) for n in range(4)] + [(13, 3), (14, 3), (13, 4, 1)])],
    "how": "the document as parsed by yaml-rust2 is read independently; acceptance and value must agree on every path",
    "bounds": {"quick": "all texts of up to 2 bytes, ASCII texts of 3, for up to 4 target types; 56 documents with up to 2 arbitrary characters for 20 target types", "thorough": "all ASCII texts of up to 3 bytes (4 for numbers) for 5 types"},
    "outside": "whether yaml-rust2 parses YAML right (trusted, executed on both sides; its node hashes are taken to be equal); longer documents beyond the contexts",
}
CHECKS["T01"] = {
    "entries": [E("toml", "toml_tpl", [(i,) for i in range(103)]), E("toml", "toml_gen", [(i,) for i in range(50) if i not in (1, 3, 4, 6, 7, 9, 10, 13, 14, 16, 18, 20, 21, 25, 26, 27, 28, 30, 32, 33, 42)], [(i,) for i in range(50)]), E("toml", "toml_raw", [(9, 0), (9, 1), (9, 2, 1), (20, 3, 1), (17, 3, 1)], [(t, 3, 1) for t in range(24)] + [(9, 4, 1), (20, 4, 1), (9, 2)])],
    "how": "the document as parsed by toml_edit is read independently; acceptance and value must agree on every path",
    "bounds": {"quick": "all ASCII texts of up to 3 bytes for 3 target types; 103 documents with up to 6 arbitrary characters for 25 target types, 29 documents with one or two values of any of 21 kinds (up to 2 arbitrary characters in them) and any of 21 keys (structs, options, lists, maps, enums of every kind, tuples, addresses, nestings)", "thorough": "all ASCII texts of 3 bytes for 24 target types, of 4 for two; 50 documents with values of any kind"},
    "outside": "whether toml_edit parses TOML right (trusted, executed on both sides); renamed fields (facet-toml uses the declared name); longer documents beyond the contexts",
}

NOT_APPLICABLE = {}

# ---- derive macro
CHECKS["C02"] = {
    "entries": [E("shape", "shape_struct", [(i,) for i in range(25)], witness=1), E("shape", "shape_enum", [(i,) for i in range(165)], witness=1),
                E("shape", "shape_disc", [(i,) for i in range(16)]), E("shape", "shape_swallowed", [(0,)])],
    "errors": r".*",
    "how": "every part of the shape the derive macro generated is compared with what the compiler says of the same type: offset_of!, size, type id, the address of each field within a value of each variant, the discriminant in memory, and the native conversion of any discriminant",
    "bounds": {"quick": "25 structs, 165 enums (15 representations, 11 forms each, of 2 to 11 variants) with arbitrary contents, 16 fieldless enums over all discriminants of their width", "thorough": "as quick"},
    "outside": "types the macro refuses to compile: negative discriminants and those beyond i64, raw identifiers as variants, pub(in ..), repr(C) enums with type parameters, unions; doc attributes that aren't literals; the set of types is fixed, their contents are symbolic",
}
CHECKS["C04"] = {
    "entries": [E("shape", "inv_build", [(i,) for i in range(18)]), E("shape", "inv_drop", [(0,), (1,)], witness=1),
                E("shape", "inv_json", [(0, 3), (1, 6), (2, 2), (3, 2), (4, 3), (5, 0), (6, 2)], [(0, 4), (1, 6), (2, 4), (3, 4), (4, 5), (5, 0), (6, 3)]),
                E("shape", "inv_nested", [(i,) for i in range(5)])],
    "errors": r".*",
    "how": "a value of a type with invariants is built field by field, by put, or read from JSON, form data, MessagePack or TOML, with symbolic contents; build succeeds exactly if the invariant functions, called natively, hold",
    "bounds": {"quick": "6 types with 1 to 3 invariants, all contents; documents with numbers of up to 3 digits; every subset of fields given", "thorough": "numbers of up to 5 digits"},
    "outside": "the invariants of values within the one that is built, which are a known finding",
}

# ---- numbers and wide structs
CHECKS["N01"] = {
    "entries": [E("shape", "put_num", [(t, 0, 2047) for t in range(38)]), E("shape", "wide", [(i,) for i in range(6)])],
    "errors": r".*",
    "how": "an independent reading of the bits of any f64 decides which integer it is, if any; putting it must store that integer or be refused. Structs and variants of 33, 63 and 64 fields are filled but for any one field, in either order",
    "bounds": {"quick": "all 2^64 numbers for 24 integer types, f32 and f64, and 11 other types; every field missing, or none", "thorough": "as quick"},
    "outside": "structs of more than 64 fields, which Wip doesn't support (it panics)",
}
