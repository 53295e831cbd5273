from props_w import P
MF = ["crates/mabo-meta/src/lib.rs"]
M = [
P("M01", "Wire sizes and next identifiers shown to users are right",
  "The size range computed for a type encloses the number of bytes every value of that type takes on the wire: no value is smaller than its lower or larger than its upper bound; for types without options and non-zero markers both bounds are really reached; a type whose values have no largest size has no upper bound; and each part of a container (its length prefix included) is listed below it with its own range. The identifier suggested for the next field or variant is one more than the largest one in use, and unit structs and variants have none to suggest. Computing them never panics.",
  ["inputs"], "all types (arrays of up to 2^32 elements and tuples nested to any depth included) and all sequences of fields and variants",
  "The tests hold snapshots of fixed types; nested containers, the limits of the integer ranges and overflowing sums are not sampled.",
  MF,
  [("wire size ranges", MF[0] + " wire_size"), ("next identifiers", MF[0] + " next_field_id, next_variant_id")],
  ["mabo_meta::wire_size and its printed form", "mabo_meta::next_field_id, next_variant_id"]),
]
