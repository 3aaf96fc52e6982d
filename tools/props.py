"""What each check runs.  Per property: the harnesses with, per tier, their parameters
(passed to sym_param), the number of worker processes and the situations (sym_cover ids)
that have to be reached for the result to mean anything."""

def H(name, quick=(), thorough=None, covers=(), jobs=1, tjobs=None, variant="release", steps=20_000_000):
    return dict(name=name, quick=list(quick), thorough=list(quick if thorough is None else thorough),
                covers=list(covers), jobs=jobs, tjobs=tjobs or jobs, variant=variant, steps=steps)

PROPS = {}
NOT_APPLICABLE = {
    "C27": "the crate's concurrency is two global locks and lock-free structures inside dependencies (crossbeam's sharded lock, folklore's hash map); a symbolic thread scheduler over the LLVM IR with Rust's memory model is out of reach of the engine, and the sequential part is decided by C21",
}

PROPS["C01"] = dict(
    title="Integers survive encoding",
    bounds="all values of all ten integer types at full width; as array element (with and without a neighbour before, always one after) and as dict value",
    harnesses=[H(f"h_c01_{t}", covers=[1, 2], jobs=2 if "64" in t or "size" in t else 1) for t in "i64 isize u64 usize i8 i16 i32 u8 u16 u32".split()],
)

CTX = [100, 101, 102, 103, 104, 105, 106]
PROPS["C02"] = dict(
    title="Floats, booleans, null and undefined survive encoding",
    bounds="all bit patterns of f32 and f64, both booleans, null, undefined, and optional i16/f64/bool/data/undefined/nested options; as array element (first, after a neighbour, in a wide array) and dict value (narrow and wide dict)",
    harnesses=[H(f"h_c02_{t}", covers=CTX) for t in "f32 f64 bool null undefined option".split()],
)
PROPS["C03"] = dict(
    title="Strings and binary data survive encoding",
    bounds=dict(quick="every UTF-8 string of 0-3 bytes; every ASCII string and byte string of 0-18 and 126-130 bytes (the longer ones symbolic in the first and last four bytes); lengths 4096 to 16385 at varint boundaries with symbolic ends; in five contexts",
                thorough="every UTF-8 string of 0-5 bytes; every ASCII string and byte string of 0-40 and 120-135 bytes; lengths at varint boundaries up to 2097152 with symbolic ends; in five contexts"),
    harnesses=[H("h_c03_str_short", [3], [5], covers=CTX, jobs=2, tjobs=8),
               H("h_c03_str_ascii", [4, 15], [4, 37], covers=CTX, jobs=2, tjobs=4), H("h_c03_str_ascii", [126, 5], [120, 16], covers=CTX, jobs=2, tjobs=4),
               H("h_c03_data", [0, 19], [0, 41], covers=CTX, jobs=2, tjobs=4), H("h_c03_data", [126, 5], [120, 16], covers=CTX, jobs=2, tjobs=4),
               H("h_c03_str_long", [6], [12], covers=CTX[:4], jobs=2, tjobs=4), H("h_c03_data_long", [6], [12], covers=CTX[:4], jobs=2, tjobs=4)],
)

PROPS["C04"] = dict(
    title="Arrays keep their elements, order and bounds",
    bounds=dict(quick="every array of 0-3 elements of eight kinds with symbolic contents, narrow and wide; nested trees of up to 2x2 levels of at most 2 elements; chains of up to 6 nested arrays; every 64-bit index",
                thorough="every array of 0-4 elements of eight kinds with symbolic contents; nested trees of up to 3 levels; chains of up to 30 nested arrays; every 64-bit index on arrays of 60"),
    harnesses=[H("h_c04_flat", [3, 8], [4, 8], covers=[1, 2, 3], jobs=4, tjobs=8), H("h_c04_nested", [2, 2], [3, 2], covers=[1, 4], jobs=4, tjobs=8),
               H("h_c04_deep", [6], [30], covers=[1, 5], jobs=1), H("h_c04_index", [20], [60], covers=[6, 7], jobs=1)],
)
PROPS["C05"] = dict(
    title="Dicts find exactly the keys that were written",
    bounds=dict(quick="every set of 0-3 distinct ASCII keys of 0-2 bytes in every order with every probe of 0-2 bytes; 2 UTF-8 keys of 0-2 bytes; 2 keys and a probe of every combination of the lengths 0,1,2,3,14-17,127,128 that differ in the last byte; wide dicts of 2 keys; 1-24 keys with every two-byte probe",
                thorough="every set of 0-4 distinct ASCII keys of 0-2 bytes and 0-3 of 0-3 bytes in every order with every probe; 3 UTF-8 keys of 0-3 bytes; key lengths as quick; wide dicts of 3 keys; 1-60 keys with every two-byte probe"),
    harnesses=[H("h_c05_small", [3, 2], [4, 2], covers=[1, 2, 3], jobs=4, tjobs=8), H("h_c05_utf8", [2, 2], [3, 2], covers=[1, 2], jobs=4, tjobs=8),
               H("h_c05_lengths", [10], [10], covers=[1, 2], jobs=4, tjobs=8), H("h_c05_wide", [2], [3], covers=[1, 2, 4], jobs=2), H("h_c05_small", [2, 3], [3, 3], covers=[1, 2, 3], jobs=4, tjobs=8), H("h_c05_many", [24], [60], covers=[1, 2, 5], jobs=4)],
)
_T6 = ("array", "dict", "nested", "root")
PROPS["C06"] = dict(
    title="Content survives whatever the pointer distance",
    bounds=dict(quick="every even distance of 16300-16398 and 32600-32798 bytes (both readings of the narrow limit), 65500-65578 and 16777200-16777222 bytes, between a collection and what it points to: array elements, dict keys and values, nested collections, the root; 0-200 inline elements in front, symbolic marker contents; 1990-2059 elements all of them pointers; dicts of 3 entries with every mixture of inline, pointed-to and shared keys and inline and pointed-to values in both orders around a long value of every even size of 16352-16382 and 32736-32766 bytes (4 entries: 40000)",
                thorough="every even distance of 15900-16458, 32300-32858, 65400-65598 and 16777200-16777222 bytes; 1900-2199 elements all of them pointers"),
    harnesses=[H(f"h_c06_{t}", [16300, 50, 3], [15900, 280, 4], covers=[1, 2], jobs=2, tjobs=8) for t in _T6]
    + [H(f"h_c06_{t}", [32600, 100, 3], [32300, 280, 4], jobs=2, tjobs=8) for t in _T6]
    + [H(f"h_c06_{t}", [65500, 40, 2], [65400, 100, 4], jobs=2, tjobs=8) for t in _T6[:3]]
    + [H(f"h_c06_{t}", [16777200, 12, 1], [16777200, 12, 2], jobs=2, tjobs=4) for t in _T6[:3]]
    + [H("h_c06_span", [1990, 70], [1900, 300], covers=[1, 2], jobs=4, tjobs=8)]
    + [H("h_c06_keys", [16352, 16, 3, 0], [16300, 50, 4, 0], covers=[1, 2], jobs=8), H("h_c06_keys", [16352, 16, 3, 1], [16300, 50, 4, 1], covers=[1, 2], jobs=8),
       H("h_c06_keys", [32736, 16, 3, 1], [32700, 50, 4, 1], jobs=8), H("h_c06_keys", [40000, 1, 4, 1], jobs=8)],
    assumptions=["the byte distances are enumerated by path forks, the contents stay symbolic; distances beyond 16 MB, in particular the 1 GB limit of wide pointers, are outside"],
)
PROPS["C07"] = dict(
    title="Collections keep their elements whatever their size",
    bounds=dict(quick="arrays, nested arrays and dicts (narrow and wide) of 0,1,2,3,127,128,255,256,1023,1024,2045-2049,4095,4096 (arrays also 16382-16385) elements; first, middle and last element symbolic",
                thorough="the same sizes for dicts, and 20000"),
    assumptions=["the sizes are enumerated by path forks, the contents stay symbolic; more than 20000 elements are outside"],
    harnesses=[H("h_c07_array", [0, 21], [0, 22], covers=[1, 2, 3], jobs=4, tjobs=8), H("h_c07_dict", [0, 17], [0, 22], covers=[1, 2, 3], jobs=4, tjobs=8), H("h_c07_inner", [0, 21], [0, 22], covers=[1, 2], jobs=2, tjobs=8)],
)

PROPS["C08"] = dict(
    title="Decoding arbitrary bytes is total and stays in bounds",
    bounds=dict(quick="every byte string of 0-9 bytes, and of 12 and 14 bytes ending in a narrow root pointer; every header kind followed by 0-11 continuation bytes of its length, a last byte and 4 bytes; every byte string of 0-7 bytes through the typed and owned entry points",
                thorough="every byte string of 0-13 bytes, and of 14 and 16 bytes ending in a narrow root pointer; every header kind with 0-11 continuation bytes and 6 bytes behind; every byte string of 0-9 bytes through the typed and owned entry points"),
    assumptions=["longer inputs are outside, except for the families of h_c08_deep (200000 nested arrays, dicts or pointers) and h_c08_shared (60 levels, each referring twice to the one below), which are known findings"],
    harnesses=[H("h_c08_value", [0, 10], [0, 14], covers=[1, 2, 3, 4, 5], jobs=2, tjobs=8), H("h_c08_typed", [7], [9], covers=[1, 2], jobs=2, tjobs=8),
               H("h_c08_owned", [7], [9], covers=[1, 2], jobs=2, tjobs=8), H("h_c08_varint", [12, 4], [12, 6], covers=[1, 5, 6], jobs=2, tjobs=8),
               H("h_c08_rooted", [10], [12], covers=[1, 2, 3, 4, 5], jobs=4, tjobs=8), H("h_c08_rooted", [12], [14], covers=[1, 2, 3, 4, 5], jobs=8, tjobs=8),
               H("h_c08_deep", [200000], [200000], covers=[], jobs=1, steps=2_000_000_000), H("h_c08_shared", [60], [60], covers=[], jobs=1),
               H("h_c08_nested", [100], [400], covers=[9], jobs=2)],
)
PROPS["C09"] = dict(
    title="Whatever validation accepts is safe to read",
    bounds=dict(quick="every accepted byte string of 8 bytes that ends in a narrow root pointer, and every array and dict header (narrow and wide, 1-2 elements or 1 pair) with arbitrary element bytes; every accessor, every 64-bit index, every ASCII probe key of 0-2 bytes; debug and release arithmetic",
                thorough="every accepted byte string of 10 bytes that ends in a narrow root pointer, and two arbitrary bytes before every array and dict header (narrow and wide, 1-2 elements or 1 pair) with arbitrary element bytes; every accessor, every 64-bit index, every ASCII probe key of 0-2 bytes"),
    assumptions=["longer inputs and deeper nesting are outside; Debug formatting is C29"],
    harnesses=[H("h_c09_walk", [6, 3], [8, 3], covers=[1, 2, 3, 4], jobs=4, tjobs=8), H("h_c09_index", [6], [8], covers=[1, 2, 3], jobs=2, tjobs=8), H("h_c09_copy", [6], [8], covers=[1, 2, 3, 4, 5, 6], jobs=4, tjobs=8),
               H("h_c09_walk", [6, 2], [6, 3], covers=[1, 2, 3, 4], jobs=4, tjobs=8, variant="ndebug"),
               H("h_c09_shaped", [0, 4, 2, 2], [2, 8, 2, 2], covers=[10, 11, 12, 13], jobs=8)],
)

PROPS["C19"] = dict(
    title="Serde round trip",
    bounds=dict(quick="every value of every integer type, f32, f64, bool, char, (), unit struct, ASCII strings and bytes of 0-39 symbolic bytes, each in 14 places (sequence with and without announced length, tuple, struct, tuple and newtype structs, options, the enum variants, maps); every string of 0-4 bytes; maps of 0-3 keys of 0-2 symbolic ASCII bytes or special; char, newtype and option keys; enum trees of depth 2; sequences and maps of 0-59 elements; wide collections; each with and without shared keys",
                thorough="strings and bytes of 0-79; strings of 0-6 bytes; 4 keys; 0-119 elements"),
    harnesses=[H("h_c19_integers", covers=[50]+list(range(10,24))+list(range(30,38)), jobs=8), H("h_c19_scalars", covers=[50]+list(range(10,24))+list(range(38,44)), jobs=8), H("h_c19_texts", [40], [80], covers=[44, 45, 50]+list(range(10,24)), jobs=8), H("h_c19_utf8", [4], [6], covers=[1, 50], jobs=4),
               H("h_c19_maps", [3, 2], [4, 2], covers=[1, 50], jobs=8), H("h_c19_keys", covers=[1, 50], jobs=4), H("h_c19_trees", [2], [2], covers=[1, 50], jobs=8), H("h_c19_lengths", [60], [120], covers=[1, 50], jobs=8), H("h_c19_wide", covers=[1, 50], jobs=4)],
)
PROPS["C20"] = dict(
    title="Serde refuses what it cannot represent, without crashing",
    bounds=dict(quick="top-level scalars of every type (all values; texts of 0-7 bytes), bare, in a newtype, in Some; maps with keys of every other type in four places; disorderly map serialization; deserializing every 0, 1, ..., 8 bytes into 25 types, every scalar of 2-10 bytes behind a pointer into 17, the documents of every accepted history of 0-5 encoder operations into 25; arrays of 0-3 elements that could be enums (11 kinds of first, 8 kinds of second element) and dicts of 4 keys that could be structs (3 kinds of value)",
                thorough="texts of 0-19 bytes; 0-10 bytes; scalars of 2-12 bytes; histories of 0-6; structs with 5 kinds of value"),
    harnesses=[H("h_c20_scalars", [8], [20], covers=[1], jobs=4), H("h_c20_keys", covers=[1], jobs=4), H("h_c20_order", covers=[1]), H("h_c20_any", [9], [11], covers=[2, 3, 4], jobs=8), H("h_c20_pointed", [5], [6], covers=[3, 4], jobs=8),
               H("h_c20_enums", [8], [8], covers=[3, 4], jobs=8), H("h_c20_structs", [3], [5], covers=[3, 4], jobs=8), H("h_c20_history", [5, 0b111111111111, 0], [6, 0b111111111111, 0], covers=[3, 4, 5], jobs=8), H("h_c20_history", [5, 0b100011111, 1], [6, 0b100011111, 1], covers=[3, 4, 5], jobs=8)],
)
PROPS["C21"] = dict(
    title="Scopes are found for exactly the data they retain",
    bounds=dict(quick="every history of 4 operations out of create (from a list of 2 or 0 bytes, or by an encoder with shared keys), drop, remove, with freed blocks of about the same size handed out again; of 3 with four ways to create, three sizes, data held, no reuse; 14 scopes of which any is dropped and any removed; all 2^64 probe addresses after each",
                thorough="5 operations; four sizes; 30 scopes"),
    harnesses=[H("h_c21_history", [4, 2, 2, 2, 0], [5, 5, 4, 2, 1], covers=[1, 2, 3, 4, 5, 6], jobs=8), H("h_c21_history", [3, 4, 3, 0, 1], [5, 5, 3, 0, 1], covers=[1, 2, 3, 4, 5, 6], jobs=8), H("h_c21_replaced", [3, 5], [4, 5], covers=[9, 10], jobs=8), H("h_c21_many", [14], [30], covers=[1, 2, 3], jobs=4)],
)
PROPS["C22"] = dict(
    title="Owned values outlive everything they came from",
    bounds=dict(quick="every accepted 2, 4, 6 bytes cloned in four ways and 3 operations out of clone, convert, make mutable, drop, destroy the source; arrays and dicts out of an encoder or a scope, with and without shared keys, one symbolic byte of content, 4 operations (wide ones: 2); the empty collections; all contents compared after each operation, heap blocks counted at the end",
                thorough="2-8 bytes and 4 operations; 5 operations; wide ones 3"),
    harnesses=[H("h_c22_bytes", [3, 3], [4, 4], covers=[1, 2, 3, 4, 5, 6, 7, 9], jobs=8), H("h_c22_encoded", [4, 0], [5, 0], covers=[1, 3, 4, 5, 6, 7, 8], jobs=8), H("h_c22_encoded", [2, 1], [3, 1], covers=[1], jobs=8),
               H("h_c22_scoped", [4, 0], [5, 0], covers=[1, 2, 3, 4, 5, 6, 7, 8], jobs=8), H("h_c22_scoped", [2, 1], [3, 1], covers=[1], jobs=8), H("h_c22_empty", [2], [3], covers=[1], jobs=4), H("h_c22_iterated_keys", covers=[1]), H("h_c22_iterated_shared_keys", covers=[1])],
)
PROPS["C23"] = dict(
    title="Value conversions are total and consistent",
    bounds="every raw scalar encoding: all 12-bit integers, all 1-8 byte signed and unsigned integers (minimal or not), all bit patterns of the three float encodings, all special values, all strings and data of up to 6 (thorough: 8) bytes, valid UTF-8 or not; empty and small collections",
    harnesses=[H("h_c23_int", covers=[1, 2, 20, 21], jobs=2), H("h_c23_short", covers=[1, 20, 21]), H("h_c23_double", covers=[1]), H("h_c23_float", covers=[1]),
               H("h_c23_special", covers=[1, 2, 3, 4]), H("h_c23_bytes", [6], [8], covers=[1, 2, 3], jobs=2, tjobs=8), H("h_c23_collections", covers=[1, 2])],
)
PROPS["C25"] = dict(
    title="Unchecked decoding agrees with checked decoding",
    bounds=dict(quick="every byte string of 0-9 bytes; every byte string of 6 bytes before a wide and a narrow root pointer; encoder output with roots on both sides of the narrow limit; a scalar or small collection with symbolic contents 65534 bytes to 32 MiB before the root",
                thorough="every byte string of 0-10 bytes; every byte string of 8 bytes before a wide and a narrow root pointer; encoder output with roots on both sides of the narrow limit"),
    harnesses=[H("h_c25_bytes", [0, 9], [0, 11], covers=[1, 2, 3, 4], jobs=4, tjobs=8), H("h_c25_chain", [6], [8], covers=[1, 6], jobs=2, tjobs=8), H("h_c25_far", [3], [8], covers=[1, 6], jobs=4, steps=2_000_000_000), H("h_c25_encoded", [20], [20], covers=[1, 2, 3, 5], jobs=4),
               H("h_c25_bytes", [0, 9], [0, 9], covers=[1, 2, 3, 4], jobs=4, tjobs=8, variant="ndebug")],
)
PROPS["C24"] = dict(
    title="Encodable values honour their announced size",
    bounds=dict(quick="all values of all ten integer types and both float types, booleans, null, undefined and options into buffers of 0-12 bytes; ASCII strings and data of 0-18 bytes into buffers of 0-22 bytes; data of 126-129 and 16382-16384 bytes into buffers of size-2 to size+2; narrow and wide",
                thorough="as quick, buffers of 0-16 bytes; strings and data of 0-40 bytes into buffers of 0-44 bytes"),
    harnesses=[H(f"h_c24_{t}", [12], [16], covers=[1, 2, 3, 4, 5], jobs=2 if "64" in t or "size" in t else 1) for t in "i64 u64 isize usize i32 u32 i16 u16".split()]
    + [H(f"h_c24_{t}", [12], [16], covers=[1, 2, 3]) for t in "i8 u8 f32 f64".split()] + [H("h_c24_other", [12], [16], covers=[1, 2, 3, 4, 5]),
       H("h_c24_bytes", [0, 18], [0, 40], covers=[1, 2, 3, 4, 5, 6], jobs=2, tjobs=8), H("h_c24_long", covers=[1, 2])],
)
PROPS["C10"] = dict(
    title="The encoder rejects misuse and loses nothing",
    bounds=dict(quick="every sequence of 6 calls out of 7 kinds (begin/end array/dict, long key, 1-byte and 3-byte number), of 5 calls out of 11 kinds (also one-letter key, string, re-encoded value, re-encoded array), of 5 out of 9 with a shared-key table, of 5 out of begin/end array/dict, every two-letter key, every 32-bit number, without and with a shared-key table; 1-4 nested collections of either kind, then two calls of any kind, then every collection closed in both ways",
                thorough="as quick, with sequences of 7, 6, 6 and 6 calls and 1-7 nested collections"),
    assumptions=["keys within one dict are distinct and of 1, 2 or 4 ASCII letters; pointers beyond the narrow limit are C06's and C07's subject"],
    harnesses=[H("h_c10_history", [6, 0x7F, 6], [7, 0x7F, 7], covers=[1, 2, 3, 4], jobs=8), H("h_c10_history", [5, 0x7FF, 5], [6, 0x7FF, 6], covers=[1, 2, 3, 4], jobs=8),
               H("h_c10_history", [5, 0x180F, 5], [6, 0x180F, 6], covers=[1, 2, 3, 4], jobs=8), H("h_c10_shared", [5, 0x180F, 5], [6, 0x180F, 6], covers=[1, 2, 3, 4], jobs=8),
               H("h_c10_shared", [5, 0x1FF, 5], [6, 0x1FF, 6], covers=[1, 2, 3, 4], jobs=8), H("h_c10_nested", [4], [7], covers=[1, 2], jobs=4, tjobs=8)],
)
PROPS["C11"] = dict(
    title="Finished output is always valid Fleece",
    bounds=dict(quick="every valid sequence of 8 calls out of 7 kinds (begin/end array/dict, long key, 1-byte and 3-byte number), of 6 out of 11 (also one-letter key, string, re-encoded value, re-encoded array) and of 6 out of begin/end array/dict, every two-letter key, every 32-bit number, finished at any nesting; every sequence, valid or not, of 6 calls out of 7 kinds; every valid sequence of 4 out of 9 behind 0-40001 bytes (ten lengths, even and odd); finish, finish_value and finish_scoped",
                thorough="as quick, with sequences of 10, 7, 7, 7 and 5 calls"),
    assumptions=["a history opens at least one collection (the statement's own condition); keys within one dict are distinct"],
    harnesses=[H("h_c11_finish", [8, 0x7F], [10, 0x7F], covers=[1, 2, 3], jobs=8), H("h_c11_finish", [6, 0x7FF], [7, 0x7FF], covers=[1, 2, 3], jobs=8), H("h_c11_finish", [6, 0x180F], [8, 0x180F], covers=[1, 2, 3], jobs=8),
               H("h_c11_misuse", [6, 0x7F], [7, 0x7F], covers=[1], jobs=8),
               H("h_c11_append", [4, 0x8FF, 10], [5, 0x9FF, 10], covers=[1, 2, 3], jobs=8), H("h_c11_ways", [5, 0x9FF], [6, 0x9FF], covers=[1, 2], jobs=4, tjobs=8)],
)
PROPS["C12"] = dict(
    title="Shared keys are a stable one-to-one mapping",
    bounds=dict(quick="every history of 3 additions and a probe, each an ASCII string of 1, 2, 15, 16 or 17 bytes (outermost two symbolic) or one of eight others (non-ASCII, control); every ASCII key and probe of 1-3 bytes; a table and its clone with 1 common and 1 separate addition; 2 additions at 2047 keys",
                thorough="as quick with 4 additions, keys of 1-5 bytes, 2 common additions and 4 additions at 2045 keys"),
    harnesses=[H("h_c12_history", [3, 5, 8], [4, 5, 8], covers=[1, 2, 3, 5], jobs=8), H("h_c12_chars", [3], [5], covers=[1, 3], jobs=4), H("h_c12_clone", [1, 3], [2, 3], covers=[1, 2, 3], jobs=4), H("h_c12_full", [1, 2], [3, 3], covers=[1, 2, 4, 6], jobs=4, steps=2_000_000_000)],
)
PROPS["C13"] = dict(
    title="Shared-key state can be saved and restored",
    bounds=dict(quick="every table of two keys (as in C12), saved on its own or in a document of its own; 2048 keys of which the last is symbolic; restoring from every 0-6 bytes, from every document of 2-8 bytes whose root points anywhere, from every list of 0-2 arbitrary narrow elements behind four arbitrary bytes (below 0xe0), from every encoded list of two strings, integers or lists",
                thorough="every table of three keys; 0-8 bytes; lists behind six arbitrary bytes; encoded lists of three"),
    harnesses=[H("h_c13_round_trip", [2, 5, 8], [3, 6, 8], covers=[1], jobs=8), H("h_c13_nested", [2, 4], [3, 4], covers=[1], jobs=4), H("h_c13_large", [2047, 2], [2047, 4], covers=[1], jobs=2, steps=2_000_000_000),
               H("h_c13_bytes", [6, 0, 256], [8, 0, 256], covers=[2, 3], jobs=4), H("h_c13_bytes", [6, 1, 0xe0], [8, 1, 0xe0], covers=[2, 3], jobs=4), H("h_c13_list", [4, 0xe0], [6, 0xe0], covers=[2, 3, 4], jobs=4), H("h_c13_written", [2, 4, 4], [3, 5, 8], covers=[2, 3, 4], jobs=4)],
)
PROPS["C14"] = dict(
    title="Shared keys never change what a document says",
    bounds=dict(quick="every dict of 0-2 distinct keys, each an ASCII string of 1, 2, 15, 16 or 17 bytes (outermost two symbolic) or non-ASCII, encoded with a new table, one that has one of the keys, all of them, or all and another one, and without a table; one key and a table full but for 0 or 1 places; nested and wide dicts with one arbitrary key; every ASCII probe of those lengths; mutable copies made in three ways; 3 keys out of numbers 1, 255, 256, 257 of a table of 300 and of unshared ones, in every order",
                thorough="as quick with 3 keys (full tables, nested and wide dicts: 2)"),
    harnesses=[H("h_c14_dict", [2, 5, 2, 4, 2, 0], [3, 4, 2, 4, 2, 1], covers=[1, 2], jobs=8), H("h_c14_full", [1, 2, 0], [2, 3, 1], covers=[1, 2, 3], jobs=4, steps=2_000_000_000),
               H("h_c14_numbers", [300, 3, 4], [2048, 4, 10], covers=[1, 7], jobs=8, steps=2_000_000_000), H("h_c14_plain", [2, 5, 3, 2, 0], [3, 5, 4, 3, 2], covers=[4], jobs=8), H("h_c14_nested", [1, 5, 1, 4], [2, 5, 2, 4], covers=[5], jobs=8), H("h_c14_wide", [1, 5, 1, 4], [2, 5, 2, 4], covers=[6], jobs=8)],
)
PROPS["C15"] = dict(
    title="Mutable arrays behave as a list",
    bounds=dict(quick="every history of 2 pushes and 2 operations out of push, set, remove, set_array, set_dict, nested edit, push_fleece, set_fleece, and of 5 out of push, set, remove; contents symbolic, of five sizes and types; every 64-bit index in remove and get; a clone after 2 operations, with 2 later ones on either; strings and data of 0-19 symbolic bytes; all values of eight scalar types; strings and data of 126-65536 bytes (symbolic at the ends and in the middle), cloned",
                thorough="2 pushes and 3 operations; 6 out of push, set, remove; clones after 3 operations; strings and data of 0-39 bytes"),
    harnesses=[H("h_c15_history", [2, 2, 255, 0b111101], [2, 3, 255, 0b100101], covers=[1, 2, 3, 4, 5], jobs=8), H("h_c15_history", [0, 5, 7, 0b100001], [0, 6, 7, 0b100001], covers=[1, 2, 5], jobs=8),
               H("h_c15_clone", [2, 2, 0b10111111, 0b100001], [3, 2, 0b111111, 0b100001], covers=[6], jobs=8), H("h_c15_sizes", [20], [40], covers=[7], jobs=2), H("h_c15_scalars", covers=[8], jobs=2), H("h_c15_long", [12], [12], covers=[9], jobs=2)],
)
PROPS["C16"] = dict(
    title="Mutable dicts behave as a map",
    bounds=dict(quick="every history of 3 operations out of insert, remove, insert_array, insert_dict and nested edit with keys of one symbolic ASCII byte or of the shared table, with and without shared keys; of 2 with keys of 0, 1, 2 and 17 bytes (symbolic) and non-ASCII ones, values of four sizes; a clone after 2 operations with a later one on either (keys of 1 and 17 bytes and of the shared table); copies of documents of 2 keys (0, 1, 2, 17, 150 bytes) with a later operation; a dict of 10 keys with one insertion and removal of any two-byte key; every such probe key; keys, strings and data of 126-65536 bytes, cloned, iterated, removed",
                thorough="as quick with 4 operations on one-byte keys, 3 on others; clones with 2 later operations; a dict of 40 keys"),
    harnesses=[H("h_c16_history", [2, 31, 1, 0b1011, 0], [3, 31, 1, 0b1011, 0], covers=[1, 2, 3, 4, 5], jobs=8), H("h_c16_history", [3, 31, 1, 0b1001, 0], [4, 31, 1, 0b1001, 0], covers=[1, 2, 3, 4, 5], jobs=8),
               H("h_c16_history", [2, 3, 1, 0b1011, 1], [3, 3, 1, 0b1011, 1], covers=[1, 2, 5], jobs=8), H("h_c16_history", [3, 11, 1, 0b1001, 1], [4, 15, 1, 0b1001, 1], covers=[1, 2, 5], jobs=8),
               H("h_c16_history", [2, 11, 0b100001, 0b111101, 1], [2, 31, 0b11100101, 0b111111, 1], covers=[1, 2, 5], jobs=8),
               H("h_c16_clone", [2, 1, 11, 0b100001, 0b1001, 1], [2, 2, 15, 0b100001, 0b1001, 1], covers=[6], jobs=8), H("h_c16_clone", [2, 1, 3, 1, 0b0010001, 1], [2, 2, 3, 1, 0b1010001, 1], covers=[6], jobs=8), H("h_c16_copied", [2, 1, 3, 0b1010001, 1], [2, 2, 3, 0b1010001, 1], covers=[7], jobs=8),
               H("h_c16_copied", [2, 1, 3, 0b1011, 1], [2, 2, 3, 0b1011, 1], covers=[7], jobs=8), H("h_c16_copied", [2, 1, 3, 0b1011, 0], [2, 2, 3, 0b1011, 0], covers=[7], jobs=8), H("h_c16_long", [12], [12], covers=[10], jobs=4), H("h_c16_many", [10], [40], covers=[8, 9], jobs=8)],
)
PROPS["C17"] = dict(
    title="Mutable copies are faithful and independent",
    bounds=dict(quick="the documents of every accepted history of 0-5 encoder operations (all twelve kinds; with shared keys six kinds), contents symbolic, copied in every public way and edited afterwards; every u64, i64, f64, f32, bool, null, undefined; strings and data of 0-19 symbolic bytes; wide collections in wide collections; every scalar in every encoding accepted among 2, 4, 6, 8 arbitrary bytes; strings and data of 126-65536 bytes, copied and cloned twice, one clone edited",
                thorough="6 operations (7 with shared keys); strings and data of 0-39 bytes; 2-10 arbitrary bytes"),
    harnesses=[H("h_c17_history", [5, 0b111111111111, 0, 1], [6, 0b111111111111, 0, 1], covers=[1, 2], jobs=8), H("h_c17_history", [5, 0b100011111, 1, 1], [7, 0b100011111, 1, 1], covers=[1, 2], jobs=8), H("h_c17_numbers", covers=[3], jobs=2), H("h_c17_long", [12], [12], covers=[9, 10], jobs=4), H("h_c17_texts", [20], [40], covers=[4, 5], jobs=2),
               H("h_c17_wide", covers=[6]), H("h_c17_any", [4], [5], covers=[7, 8], jobs=4)],
)
PROPS["C18"] = dict(
    title="Re-encoding a decoded value preserves it",
    bounds=dict(quick="the documents of every accepted history of 0-5 encoder operations (all twelve kinds; with shared keys six kinds), contents symbolic, written as the document or into a narrow or wide array or dict, with or without shared keys; every u64, i64, f64, f32, bool, null, undefined; strings and data of 0-19 symbolic bytes; wide sources; dicts of 2 keys of 0-2 arbitrary ASCII bytes or special; every scalar in every encoding accepted among 2, 4, 6, 8 arbitrary bytes",
                thorough="6 operations (7 with shared keys); strings and data of 0-39 bytes; 3 keys; 2-10 arbitrary bytes"),
    harnesses=[H("h_c18_history", [5, 0b111111111111, 0], [6, 0b111111111111, 0], covers=[1, 10, 11, 12, 13, 14, 20], jobs=8), H("h_c18_history", [5, 0b100011111, 1], [7, 0b100011111, 1], covers=[1, 10, 20], jobs=8), H("h_c18_numbers", covers=[1, 11, 13], jobs=4), H("h_c18_texts", [20], [40], covers=[1, 10, 11, 12, 13, 14], jobs=4),
               H("h_c18_wide", covers=[1, 10, 11, 12, 13, 14], jobs=4), H("h_c18_keys", [2, 3], [3, 3], covers=[1, 10, 11, 12, 13, 14, 20], jobs=8), H("h_c18_any", [4], [5], covers=[2, 3], jobs=4)],
)

PROPS["C28"] = dict(
    title="All ways of reading one collection agree",
    bounds=dict(quick="arrays of 0-4 and dicts of 0-3 elements of five kinds (scalar contents symbolic), narrow and wide, with and without shared keys, keys written forwards or backwards; dicts of 2 arbitrary keys of 0-2 ASCII bytes, with and without shared keys; every collection in the documents of every accepted history of 5 encoder operations (all twelve kinds); collections of 2^x-1, 2^x, 2^x+1 elements (x to 9, in dicts 7), every pair of jumps among 9 distances; every owned view of documents with 0-1 elements; the constants and empty collections, every 64-bit index",
                thorough="arrays of 0-6, dicts of 0-5 elements; 3 arbitrary keys; 6 operations; x to 11, in dicts 9"),
    harnesses=[H("h_c28_array", [4], [6], covers=[1, 4, 7], jobs=4, tjobs=8), H("h_c28_dict", [3], [5], covers=[2, 3, 5, 6, 7], jobs=8), H("h_c28_large", [9, 7], [11, 9], covers=[13, 14, 15, 16], jobs=8), H("h_c28_keys", [2, 3], [3, 3], covers=[11], jobs=8), H("h_c28_history", [5, 0b111111111111], [6, 0b111111111111], covers=[12], jobs=8), H("h_c28_owned", covers=[8, 9], jobs=2), H("h_c28_constants", covers=[10])],
)
PROPS["C29"] = dict(
    title="Debug formatting shows any value",
    bounds=dict(quick="every 16-bit integer, every multiple of 2^16 that is one shifted left by 16, and the 16 integers next to each 64-bit end; ASCII strings and data of 0-3 bytes, 9 floats, 7 doubles, the constants; the value in every accepted byte string of 4 bytes and a narrow root pointer (the errors for the rejected ones); arrays and dicts of 0-2 elements of five scalar kinds, the first of them a collection of up to 2, with and without shared keys, as value, array, dict, owned value, mutable collection and scope",
                thorough="texts of 0-5 bytes; byte strings of 5 bytes and the pointer; collections of 0-3"),
    assumptions=["floats other than the listed ones and strings that are not ASCII are outside (the former formatted, the latter escaped by the standard library)"],
    harnesses=[H("h_c29_debug_integer", covers=[1, 2, 3], jobs=8), H("h_c29_debug_scalar", [3], [5], covers=[2], jobs=8), H("h_c29_debug_accepted", [4], [5], covers=[1, 2, 4], jobs=8), H("h_c29_debug_collection", [1, 2], [1, 3], covers=[1, 3], jobs=8)],
)
PROPS["C30"] = dict(
    title="The fleece! macro builds the document it spells",
    bounds=dict(quick="twelve shapes (flat, nested both ways, empty, wide, mixed scalars), with every 64-bit integer, every 16-bit integer and every ASCII string of 0-3 bytes in them", thorough="strings of 0-20 bytes"),
    harnesses=[H("h_c30_macro", [3], [20], covers=[1, 2, 3], jobs=8)],
)
PROPS["C26"] = dict(
    title="Output follows the Fleece wire format",
    bounds=dict(quick="every value of the ten integer types, f32, f64, both booleans, null, undefined, options; strings and data of 0-19, 126-129, 255, 256, 16383-16385 and 65536 bytes with symbolic ends; each alone, behind a neighbour, in a wide array, in a dict; the documents of every history of 6 operations (small and large integers, strings, arrays, dicts) and of 4 behind 0-3 bytes; 0-3 keys of 5 lengths with symbolic outer bytes in every order without, with new and with known shared keys; 0-4095 elements; pointer distances of 16300-16398 bytes",
                thorough="strings and data of 0-39; histories of 7; 4 keys; 16384 elements; distances of 16200-16598"),
    harnesses=[H("h_c26_integers", covers=[100, 101, 102, 103], jobs=8), H("h_c26_scalars", covers=[1, 100, 101, 102, 103], jobs=4), H("h_c26_texts", [20], [40], covers=[100, 101, 102, 103], jobs=8),
               H("h_c26_history", [6, 0b111111111111], [7, 0b101001111111], covers=[1, 2], jobs=8), H("h_c26_behind", [4, 0b111111111111, 4], [5, 0b101001111111, 6], covers=[1], jobs=8),
               H("h_c26_keys", [3, 4], [4, 5], covers=[0, 1, 2, 3], jobs=8), H("h_c26_sizes", [13], [14], covers=[1, 2], jobs=8), H("h_c26_distance", [16300, 50], [16200, 200], covers=[1, 2], jobs=8)],
)
