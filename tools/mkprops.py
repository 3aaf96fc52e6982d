#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the JSON lines stay well-formed)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=list(observe)
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

E="src/encoder/encodable.rs"; M="src/encoder/mod.rs"; V="src/value/mod.rs"; A="src/value/array.rs"; D="src/value/dict.rs"
PT="src/value/pointer.rs"; SZ="src/value/sized.rs"; VI="src/value/varint.rs"; VS="src/encoder/value_stack.rs"
p("C01","Integers survive encoding",
 "Every integer of every supported width, signed or unsigned, that is written as an array element or a dict value reads back from the decoded document as exactly the same number, both through the signed/unsigned 64-bit accessors and, where it fits, through the 16-bit ones. Encoding it never panics, recurses without end or truncates.",
 ["inputs"],"all values of i8,i16,i32,i64,isize,u8,u16,u32,u64,usize (full width), as array element and dict value",
 "The suite writes a handful of small numbers (23, 30, 35, 42, 946, 123456); it never reaches a negative multi-byte integer, a 16/32/64-bit size boundary or a value with trailing zero bytes.",
 [E,V,SZ],[("per-width Encodable impls","src/encoder/encodable.rs impl Encodable for i64/u64/i16/u16"),("to_int/to_short decode","src/value/mod.rs Into Conversions")],observe=["Encoder::write_value","Value::to_int","Value::to_unsigned_int","Value::to_short"])
p("C02","Floats, booleans, null and undefined survive encoding",
 "Every f32 and f64 (including infinities, signed zeros, subnormals and NaN-ness), both booleans, null, undefined and optional values written to a document read back with the same bits (NaN stays NaN) and the same value type. They are never confused with one another.",
 ["inputs"],"all 2^32 f32, all 2^64 f64, both bools, null, undefined, Some/None, in arrays and dicts",
 "Tests compare a few decimal floats; special values and bit patterns are not sampled.",
 [E,V],[("float writers","src/encoder/encodable.rs impl Encodable for f32/f64"),("special constants","src/value/mod.rs constants"),("to_double/to_float/to_bool","src/value/mod.rs")],observe=["Value::to_double","Value::value_type"])
p("C03","Strings and binary data survive encoding",
 "Every UTF-8 string and every byte string, of any length including empty and one byte, written as an array element or a dict value reads back as the same bytes with the same value type. A string never comes back as data, a number or a different string.",
 ["inputs"],"all contents, lengths on both sides of the 0/1 inline, 14/15 varint and 127/128 two-byte-varint boundaries",
 "The tests only write multi-character ASCII strings of ordinary length; empty and one-character strings and the length-encoding boundaries are not exercised.",
 [E,V,VI,SZ],[("write_fleece_string","src/encoder/encodable.rs"),("_get_data","src/value/mod.rs"),("varint read/write","src/value/varint.rs")],observe=["Value::to_str","Value::to_data"])
p("C04","Arrays keep their elements, order and bounds",
 "An array that was written with n elements decodes to an array of length n whose i-th element (by get, index or iteration, at any nesting depth) is the i-th value written. get(i) is None exactly when i >= n, and iteration yields exactly n elements.",
 ["inputs","programs"],"all element kinds and values, all indices (full usize), nested arrays/dicts, up to the stated lengths",
 "Tests read only in-range indices of documents produced from two fixtures; no test asks for an out-of-range index.",
 [A,M,V],[("Array::get/len/first_pos","src/value/array.rs"),("end_array","src/encoder/mod.rs")],observe=["Array::get","Array::len","Array::iter"])
p("C05","Dicts find exactly the keys that were written",
 "For a dict written with any set of distinct keys in any order, get(k) returns the value written under k for every key written and None for every other string, whatever the key lengths. Iteration yields every pair exactly once and len equals the number of pairs.",
 ["inputs","programs"],"all key contents up to the stated length (empty, one-byte, inline, out-of-line, non-ASCII), all insertion orders, all absent probe keys",
 "Tests look up a fixed list of long ASCII keys in one fixture; key-ordering corner cases (prefixes, one-byte keys mixed with long keys, non-ASCII order) are not sampled.",
 [D,M,V,VS],[("sorted dict + binary search","src/value/dict.rs _get, src/encoder/mod.rs end_dict"),("key comparators","src/encoder/mod.rs dict_key_cmp, src/value/mod.rs dict_key_cmp")],observe=["Dict::get","Dict::iter","Dict::len"])
p("C06","Content survives whatever the pointer distance",
 "A document keeps its content whatever the byte distance between a collection and the values or keys it refers to: on both sides of every narrow/wide pointer limit the encoded output is valid Fleece and decodes to what was written. This includes the document root and collections whose own elements span the limit.",
 ["inputs"],"all distances around each pointer-width limit, for array elements, dict keys, dict values, nested collections and the root",
 "The one large test (10,000 people) compares key counts and a few types; it does not place a collection at the exact distances where the width decision changes.",
 [M,E,SZ,PT],[("width decision","src/encoder/mod.rs _array_should_be_wide/_dict_should_be_wide/_finished_collection"),("pointer encoding","src/encoder/encodable.rs SizedValue::write_fleece_to"),("pointer decoding","src/value/pointer.rs")],observe=["Encoder::finish","Value::from_bytes"])
p("C07","Collections keep their elements whatever their size",
 "A collection decodes with the same element count and the same elements whatever the number of elements, in particular on both sides of the limit where the count no longer fits the header and on both sides of each count-encoding size boundary.",
 ["inputs"],"element counts around 2047/2048 and around varint size boundaries, narrow and wide, arrays and dicts",
 "Tests have arrays of 1000 and 10,000 elements only and never probe the header limit.",
 [A,E,VI],[("collection header","src/encoder/encodable.rs write_valuestack_collection"),("Array::len/first_pos","src/value/array.rs")],observe=["Array::len","Dict::len"])
p("C08","Decoding arbitrary bytes is total and stays in bounds",
 "Handing any byte string whatsoever to the validating decoder (value, array, dict, owned-copy or serde entry point) terminates with a value or an error. It never panics, never reads outside the given bytes, and a value it returns lies inside them.",
 ["inputs"],"every byte string up to the stated length",
 "All tests decode well-formed fixtures or encoder output; no malformed input is ever decoded.",
 [V,A,PT,VI],[("_find_root/_validate","src/value/mod.rs"),("Array::validate","src/value/array.rs"),("deref_checked","src/value/pointer.rs"),("varint::read","src/value/varint.rs")],observe=["Value::from_bytes","Array::from_bytes","Dict::from_bytes","Value::clone_from_bytes"])
p("C09","Whatever validation accepts is safe to read",
 "Every value, array and dict reachable from bytes that the validating decoder accepted can be read with every safe accessor (type, conversions, get by any index or key, iteration, copying to mutable, re-encoding) without a panic and without touching memory outside the given bytes.",
 ["inputs"],"every byte string up to the stated length that passes validation, every accessor, every index and every probe key",
 "No test decodes hostile-but-accepted data.",
 [V,A,D,PT,"src/mutable.rs"],[("validation covers what accessors later trust","src/value/mod.rs _validate, src/value/array.rs validate"),("unchecked accessors","src/value/array.rs get_unchecked, src/value/dict.rs _get")],observe=["Value accessors","Array::get","Dict::get","Dict::iter"])
p("C10","The encoder rejects misuse and loses nothing",
 "A call that is out of order (value before key, key outside a dict or after a key, ending a collection that is not the innermost open one, anything outside a collection, a second top-level collection) returns an error instead of panicking. What was written successfully before and after it is encoded exactly as if the failed call had not been made.",
 ["histories"],"all sequences of encoder calls up to the stated length, over array/dict/key/value/end operations",
 "One test makes one invalid call; the state left behind after an error is never examined.",
 [M,VS],[("collection stack","src/encoder/value_stack.rs"),("begin/end guards","src/encoder/mod.rs")],state=[("collection_stack","open collections and the pending key","src/encoder/mod.rs Encoder"),("top_collection_closed","root already written","src/encoder/mod.rs Encoder")],observe=["Encoder::*","Encoder::finish"])
p("C11","Finished output is always valid Fleece",
 "After any history of encoder calls that opened at least one collection, finishing the encoder (with collections still open or a key still waiting, too) yields an even-sized byte string that the validating decoder accepts, whose root is the first top-level collection, with open collections closed and a dangling key dropped.",
 ["histories","inputs"],"all call histories up to the stated length, with all scalar values; also when appended to an existing even-sized buffer",
 "Tests finish only balanced documents.",
 [M],[("_end/finish","src/encoder/mod.rs"),("_write padding","src/encoder/mod.rs"),("root pointer","src/encoder/mod.rs _finished_collection")],observe=["Encoder::finish","Value::from_bytes"])
p("C12","Shared keys are a stable one-to-one mapping",
 "Within one shared-key table distinct strings never share a number, a key keeps its number for ever, decoding a number gives back exactly the string it was assigned to, and looking up a string that was never added finds nothing. Only eligible keys (alphanumeric, '_' or '-', at most 16 bytes) are added, and never more than 2048.",
 ["inputs","histories"],"all key strings up to the stated lengths (including ones that share a 15- or 16-byte prefix or contain NUL), all insertion histories up to the stated length, and the full table",
 "Tests add a few short ASCII names; long keys, look-alike keys and a full table are not reached.",
 ["src/shared_keys.rs"],[("encode/encode_and_insert/decode/can_add","src/shared_keys.rs")],observe=["SharedKeys::encode","SharedKeys::encode_and_insert","SharedKeys::decode","SharedKeys::len"])
p("C13","Shared-key state can be saved and restored",
 "Saving a shared-key table and restoring it from the saved bytes gives a table with the same length and the same number for every key. Restoring from bytes that are not a saved table (not valid Fleece, or not an array of eligible strings) gives nothing and never panics.",
 ["inputs","histories"],"all tables up to the stated size and key length; arbitrary restored bytes up to the stated length",
 "No test saves or restores shared-key state.",
 ["src/shared_keys.rs"],[("write_state/get_state_bytes/from_state_bytes/from_state_value","src/shared_keys.rs")],observe=["SharedKeys::get_state_bytes","SharedKeys::from_state_bytes"])
p("C14","Shared keys never change what a document says",
 "A document encoded with a shared-key table (new, pre-populated or full) and read through its scope finds the same value for every key, finds nothing for every other key, and iterates over the same key/value pairs as the same document encoded without shared keys. The same holds for mutable copies of it.",
 ["inputs","configurations"],"all key sets up to the stated size (eligible, ineligible, one-byte, pre-populated), with fresh, pre-populated and full tables",
 "One test has one shared and one unshared key; one compares the key set of a fixture.",
 [D,M,"src/scope.rs","src/shared_keys.rs","src/mutable/dict.rs"],[("encode_key","src/value/dict.rs"),("_write_key","src/encoder/mod.rs"),("find_shared_keys","src/scope.rs")],observe=["Encoder::finish_scoped","Dict::get","Dict::get_with_shared_keys","Dict::iter"])
p("C15","Mutable arrays behave as a list",
 "Over any history of push, set, remove and nested edits, a mutable array has the length and the elements that a plain list given the same operations would have; removing out of range changes nothing, and reading out of range gives nothing. A clone is unaffected by later edits to the original and vice versa.",
 ["histories","inputs"],"all operation histories up to the stated length with arbitrary indices and values of every inline/out-of-line size",
 "One test performs one push and one remove.",
 ["src/mutable/array.rs","src/mutable.rs"],[("ValueSlot storage","src/mutable.rs"),("push/set/remove/get/iter","src/mutable/array.rs")],observe=["MutableArray::*"])
p("C16","Mutable dicts behave as a map",
 "Over any history of insert, remove and nested edits, a mutable dict (with or without shared keys) holds exactly the latest value for each key: get/contains_key agree with a plain map, iteration yields each key once, and len counts the keys. A clone is unaffected by later edits to the original and vice versa.",
 ["histories","inputs"],"all operation histories up to the stated length over symbolic keys and values",
 "One test inserts, overwrites and removes a single key.",
 ["src/mutable/dict.rs","src/mutable.rs"],[("BTreeMap of encoded keys","src/mutable/dict.rs"),("encode_key","src/mutable/dict.rs")],observe=["MutableDict::*"])
p("C17","Mutable copies are faithful and independent",
 "Copying an array, dict or scope root into a mutable collection preserves every key and element - scalar type and value, strings, data, nested collections - exactly as the source reads (for a source with shared keys: while its scope is registered). Later edits to the copy never change the source.",
 ["inputs"],"all scalar values and short strings/data of every type, nested collections, narrow and wide sources",
 "Tests copy documents holding only strings and small integers.",
 ["src/mutable.rs","src/mutable/array.rs","src/mutable/dict.rs"],[("new_from_fleece","src/mutable.rs"),("clone_from/copy_with_shared_keys","src/mutable/dict.rs, src/mutable/array.rs")],observe=["MutableArray::from","MutableDict::from"])
p("C18","Re-encoding a decoded value preserves it",
 "Writing any decoded value into an encoder (as the root or inside another collection, with or without shared keys on either side) produces a document that reads the same as the source: same types, numbers, strings, data, elements and key/value pairs. Re-encoding the encoder's own output again yields identical bytes.",
 ["inputs"],"all documents of the stated shapes with arbitrary scalar values, strings and keys",
 "Only two fixtures are re-encoded, one of which is compared by a few fields.",
 [M,V],[("write_fleece","src/encoder/mod.rs")],observe=["Encoder::write_fleece"])
p("C19","Serde round trip",
 "Serializing any supported Rust value (structs, tuples, sequences, string-keyed maps, options of anything but options, all enum variant shapes, newtype and unit structs, chars, bytes, every number width), with or without shared keys, and deserializing it gives back an equal value (for derived implementations without attributes that change a type's shape).",
 ["inputs"],"all field values of a family of types covering every serde data-model shape, with arbitrary scalars and short strings",
 "Two hand-written students are round-tripped; newtype and unit structs, chars, bytes, maps and boundary integers are not.",
 ["src/ser.rs","src/de.rs"],[("Serializer","src/ser.rs"),("Deserializer and ArrayAccess/DictAccess/EnumAccess","src/de.rs")],observe=["to_bytes","to_bytes_with_shared_keys","from_bytes"])
p("C20","Serde refuses what it cannot represent, without crashing",
 "Serializing a top-level scalar or a map with non-string keys returns an error, and deserializing any accepted document into a type it does not match returns an error (elements beyond those of a tuple and unknown keys of a struct are ignored, as usual in serde); neither panics, reads outside the document or silently produces a value that was not written.",
 ["inputs"],"all documents up to the stated size against a family of target types, including short enum arrays",
 "Tests check two top-level scalars; mismatched deserialization is never attempted.",
 ["src/de.rs","src/ser.rs"],[("EnumAccess layout checks","src/de.rs"),("MapKeySerializer","src/ser.rs")],observe=["from_bytes","to_bytes"])
p("C21","Scopes are found for exactly the data they retain",
 "While a scope is alive and not removed, any address inside its data finds that scope (and its shared keys) and no address outside any live scope's data finds one; after the scope is removed or dropped it is never found again, also when the memory is reused. Creating or removing a scope never affects another one, and empty data is handled without panicking.",
 ["histories"],"all histories of create/drop/remove over up to the stated number of scopes and every probe offset, single-threaded, with and without address reuse",
 "Tests hold one scope at a time and only ask inside it.",
 ["src/scope.rs"],[("SCOPE_MAP range map","src/scope.rs"),("ScopeEntry weak reference","src/scope.rs")],state=[("SCOPE_MAP","address ranges of live scopes","src/scope.rs")],observe=["Scope::containing","Scope::find_shared_keys","Scope::root","Scope::remove"])
p("C22","Owned values outlive everything they came from",
 "An owned value, array or dict (from a copy of bytes, an encoder or a scope root, and any clone or conversion of it) keeps reading the same content after the source bytes, the scope, the original and other clones are gone (looking a shared key up by name takes the scope or the table itself), and its memory is released exactly once when the last holder goes. Conversions succeed exactly for the matching collection type.",
 ["histories","inputs"],"all drop orders of source, scope, clones and conversions, for arbitrary small documents",
 "One test checks one strong count.",
 ["src/alloced.rs",V,"src/scope.rs"],[("Alloced buf + value pointer","src/alloced.rs"),("clone_from_bytes","src/value/mod.rs")],observe=["Value::clone_from_bytes","AllocedValue::to_array","AllocedValue::to_dict","Encoder::finish_value","Scope::root"])
p("C23","Value conversions are total and consistent",
 "For a decoded value of any type every conversion accessor returns without panicking and they agree with each other: false and numbers equal to zero are false and everything else is true, booleans are 1/0 as numbers, signed and unsigned readings of an integer are the same 64 bits, floats convert to integers by truncation with saturation, and non-numbers read as 0, empty string or empty data.",
 ["inputs"],"all scalar values of every encodable type and every raw two- to ten-byte scalar encoding",
 "Tests read each value only through the accessor of its own type.",
 [V],[("Into Conversions","src/value/mod.rs")],observe=["Value::to_bool","Value::to_short","Value::to_unsigned_short","Value::to_int","Value::to_unsigned_int","Value::to_double","Value::to_float","Value::to_str","Value::to_data"])
p("C24","Encodable values honour their announced size",
 "For every encodable value, writing it into a buffer writes exactly the announced number of bytes (padded to four for fixed-width values written wide) and nothing beyond, and returns nothing - without panicking - when the buffer is too small.",
 ["inputs"],"all values of all encodable scalar types and short strings/data, all buffer sizes from zero up to the stated bound, narrow and wide",
 "The trait is only exercised through the encoder with values whose size happens to be right.",
 [E],[("fleece_size vs write_fleece_to","src/encoder/encodable.rs")],observe=["Encodable::write_fleece_to","Encodable::fleece_size"])
p("C25","Unchecked decoding agrees with checked decoding",
 "On every byte string that the validating decoder accepts, and on every finished encoder output, the unchecked decoding functions return the very same value (same position, same content) as the checked ones.",
 ["inputs"],"every accepted byte string up to the stated length; encoder outputs with narrow and wide roots",
 "No test calls the unchecked decoder in the tested (debug) profile.",
 [V,PT],[("from_bytes_unchecked/deref_unchecked","src/value/mod.rs, src/value/pointer.rs")],observe=["Value::from_bytes_unchecked","Value::clone_from_bytes_unchecked"])
p("C26","Output follows the Fleece wire format",
 "What the encoder writes is the documented Fleece format, as judged by an independent reader: type tags, big-endian 12-bit small integers, minimal-enough little-endian integers with sign, IEEE little-endian floats, length-prefixed strings and data with base-128 lengths, 2/4-byte backward pointers in 2-byte units on even addresses, sorted dict keys with shared keys first, and a 2-byte root at the end.",
 ["inputs"],"all scalars and short strings/data; arrays and dicts up to the stated size; narrow and wide",
 "A round trip hides errors that the encoder and decoder share; only one fixture is compared byte for byte.",
 [E,M,SZ,VI],[("value layout","src/encoder/encodable.rs, comments at end of src/value/mod.rs")],observe=["Encoder::finish bytes"])
p("C27","Scope registry under concurrent use",
 "Creating, finding and removing scopes from several threads at once behaves as if the operations had happened one after another; no thread observes a scope that was never created or misses one that is alive throughout.",
 ["schedules"],"all interleavings of scope operations on several threads",
 "All tests are single-threaded.",
 ["src/scope.rs"],[("ShardedLock around the range map","src/scope.rs")],observe=["Scope::new","Scope::containing","Scope::remove"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
