def P(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}

W = [
P("W01", "Variable-length integers are canonical, exact and bounded",
  "Every integer of every supported width is written as the documented variable-length form (seven bits per byte, least significant first, zig-zag for signed types, never longer than the width needs) and reads back as the same value, consuming exactly its own bytes whatever follows. The computed size equals the bytes written, and input without an end marker within the widest valid form is rejected. The same holds when the bytes arrive in a buffer split into several pieces.",
  ["inputs"], "all values of u16..u128 and i16..i128, all trailing bytes, all truncations, all splits",
  "The unit tests only try zero, minimum and maximum per width; 7-bit group boundaries, the other magnitudes, sign mirroring, trailing data and truncation at every byte are unsampled.",
  ["crates/mabo/src/varint.rs", "crates/mabo/src/buf/encode.rs", "crates/mabo/src/buf/decode.rs"],
  [("group-of-seven writer and reader", "crates/mabo/src/varint.rs varint!"), ("zig-zag mapping", "crates/mabo/src/varint.rs zigzag!")],
  ["varint encode/decode/size functions", "Encode/Decode of integers"]),
P("W02", "Values survive encoding, in the documented wire format",
  "For every value of every runtime-supported type, however nested, encoding produces exactly the bytes the wire format documentation prescribes, and decoding those bytes returns an equal value and consumes nothing beyond it. This also holds when the bytes arrive in a buffer split into several pieces. An array written with more elements than the reader expects yields its first elements and is consumed to its end; one with fewer is rejected.",
  ["inputs"], "all values of primitives, strings, bytes, vectors, maps, sets, options, arrays, length-delimited groups, non-zero and smart-pointer wrappers, nested to any depth; all trailing data; all splits of the input buffer",
  "The existing tests round-trip a handful of small fixed values in a contiguous buffer; lengths above 127, nesting, extreme values and segmented buffers are never exercised.",
  ["crates/mabo/src/buf/encode.rs", "crates/mabo/src/buf/decode.rs", "crates/mabo/src/lib.rs", "book/src/reference/wire-format.md"],
  [("per-type encoders", "crates/mabo/src/buf/encode.rs"), ("per-type decoders bounded by the length prefix", "crates/mabo/src/buf/decode.rs")],
  ["Encode::encode output bytes", "Decode::decode result and remaining input"]),
P("W03", "The predicted size of a value is the number of bytes it takes",
  "For every value, the size computed ahead of encoding equals the number of bytes that encoding it writes, so a buffer of exactly that size is filled completely and never overrun. This holds for nested collections too, whose length prefix counts bytes and depends on these sizes.",
  ["inputs"], "all values of all runtime-supported types",
  "Sizes are asserted for no value at all beyond what small round-trip tests imply; the prefix width only changes above 127 and 16383 bytes.",
  ["crates/mabo/src/buf/size.rs", "crates/mabo/src/varint.rs"],
  [("size functions mirroring each encoder", "crates/mabo/src/buf/size.rs")],
  ["Size::size against bytes written"]),
P("W04", "Decoding untrusted bytes fails cleanly",
  "Decoding any byte sequence as any type returns a value or an error: it never panics, reads past the buffer, loops forever or allocates out of proportion to the input. The outcome is the one the wire format prescribes (invalid text, missing data and overlong lengths are rejected), whether the input is contiguous or split. Every strict prefix of a valid encoding is rejected, and whatever is accepted is a value that survives its own encoding.",
  ["inputs"], "all byte strings: random, damaged encodings, absurd length claims, every truncation point",
  "No existing test feeds malformed input; the failing inputs are particular combinations of length prefixes and cut-off points.",
  ["crates/mabo/src/buf/decode.rs", "crates/mabo/src/varint.rs"],
  [("remaining-data checks before every read", "crates/mabo/src/buf/decode.rs ensure_size!"), ("sub-buffers limited to the length prefix", "crates/mabo/src/buf/decode.rs decode_vec/decode_hash_map/decode_hash_set/decode_array")],
  ["Decode::decode on arbitrary input"]),
P("W05", "Unknown fields can be skipped by their encoding marker alone",
  "A field identifier packs the number and the encoding marker so that both are recovered exactly and only the five defined markers are accepted. Skipping a value by its marker consumes exactly the bytes of that value, for every value of every type carrying the marker, and fails cleanly when the value is cut off.",
  ["inputs"], "all field numbers up to 2^29-1, all markers, all 32-bit identifiers, all values per marker, contiguous and segmented buffers, all truncations",
  "Skipping is only hit by one generated-code test with a fixed layout; identifiers near the limits, long values and truncated values are not sampled.",
  ["crates/mabo/src/buf/decode.rs", "crates/mabo/src/lib.rs", "crates/mabo/src/buf/encode.rs"],
  [("identifier packing", "crates/mabo/src/lib.rs FieldId"), ("skip by marker", "crates/mabo/src/buf/decode.rs decode_skip")],
  ["FieldId conversions", "decode_id/decode_skip and the remaining input"]),
P("W06", "Non-zero types reject exactly the zero or empty values",
  "Decoding into a non-zero type succeeds exactly for payloads of the underlying type that are not zero (integers) or not empty (strings, bytes and collections), yields the same value as the underlying type would, and reports the dedicated error otherwise. Constructing a non-zero wrapper in memory follows the same rule.",
  ["inputs"], "all values of the integer, string, bytes, vector, map and set types, zero and non-zero",
  "The existing tests decode none of the non-zero forms with generated contents; the rule must hold per type and per value.",
  ["crates/mabo/src/buf/decode.rs", "crates/mabo/src/lib.rs"],
  [("emptiness check on the prefix", "crates/mabo/src/buf/decode.rs ensure_not_empty!"), ("checked constructors", "crates/mabo/src/lib.rs NonZero::new")],
  ["decode_non_zero_* results", "NonZero::new"]),
]
