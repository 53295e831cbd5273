from props_w import P
B = "crates/mabo-build/src/"
FILES = [B+"lib.rs", B+"definition.rs", B+"encode.rs", B+"decode.rs", B+"size.rs"]
G = [
P("G01", "Values of generated types survive the wire, in the documented format",
  "For every valid schema, every value of every struct, enum and alias that the Rust generator derives from it, with any arguments for the type parameters and in both bytes modes, is written as the bytes that the wire format documentation prescribes for the schema (the field identifiers and markers, the variant identifiers, absent optional fields left out, the end marker), and those bytes, contiguous or in pieces and whatever follows them, are read back as the same value and nothing beyond them is consumed.",
  ["programs", "inputs"], "all schemas whose generated code compiles, all values of their types, all splits of the input",
  "The generator's tests compare the text of the generated code for a few schemas with snapshots; no generated code is run with any but one small set of values, and combinations of types, generics and identifiers are unbounded.",
  FILES + ["crates/mabo/src/buf/encode.rs", "crates/mabo/src/buf/decode.rs", "book/src/reference/wire-format.md"],
  [("generated encoders", B+"encode.rs"), ("generated decoders", B+"decode.rs"), ("field identifiers with markers", B+"encode.rs")],
  ["Encode and Decode of compiled generated types"]),
P("G02", "Generated types predict their size exactly",
  "For every value of every type generated from any valid schema, the size computed ahead of encoding equals the number of bytes that encoding writes.",
  ["programs", "inputs"], "all schemas whose generated code compiles, all values of their types",
  "The tests compare the text of the generated size functions with snapshots; whether the numbers agree with the encoder depends on schema and value.",
  [B+"size.rs", B+"encode.rs"], [("generated size functions", B+"size.rs")], ["Size of compiled generated types against bytes written"]),
P("G03", "Schemas evolve: unknown fields are skipped, absent optional fields are none",
  "A reader generated from any schema skips fields it does not know wherever they stand and whatever length-delimited type they have, and accepts the known ones in any order, with the same result as without. Absent optional fields read as none; an absent required field is reported with its identifier and name; a variant that is not in the schema is reported by its identifier.",
  ["programs", "inputs", "histories"], "all schemas whose generated code compiles, all values, all insertions of unknown fields, all orders and subsets of the fields",
  "One fixed pair of old and new schema is tested; the guarantee is about every pair of versions and every value.",
  [B+"decode.rs", "crates/mabo/src/buf/decode.rs"],
  [("field loop of generated decoders with skipping", B+"decode.rs"), ("skip by marker", "crates/mabo/src/buf/decode.rs decode_skip")],
  ["Decode of compiled generated types"]),
P("G04", "Generated decoders reject malformed input cleanly",
  "Decoders generated from any schema return an error for every strict prefix of a valid encoding and for every unknown field that claims more data than there is or is of no known encoding, never panic, hang or read past the buffer for any bytes, and whatever they accept is a value that survives being written and read again.",
  ["programs", "inputs"], "all schemas whose generated code compiles, all byte strings: random, damaged encodings, every truncation, every split",
  "No generated decoder is run on malformed input by the tests.",
  [B+"decode.rs", "crates/mabo/src/buf/decode.rs"],
  [("generated decoders", B+"decode.rs"), ("remaining-data checks", "crates/mabo/src/buf/decode.rs")],
  ["Decode of compiled generated types"]),
P("G05", "Every accepted schema becomes Rust code that compiles and defines all of it",
  "For every set of schemas that the compiler accepts, and both bytes types, the Rust generator produces code that compiles against the mabo crate without errors, with exactly one item per definition: same name, module, type parameters, fields with their names and Rust types, variants, constants, imports and documentation, all of it public.",
  ["programs", "configurations"], "all sets of valid schemas: every kind of definition, type, generic, nested module, import, comment and name",
  "Snapshots of the text for about a dozen schemas show neither that the text compiles nor what other schemas give.",
  FILES, [("definitions", B+"definition.rs"), ("generated implementations", B+"encode.rs, decode.rs, size.rs")],
  ["Compiler / compile_schema output, compiled with rustc and parsed with syn"]),
P("G06", "Generated constants have the value the schema gives them",
  "Every constant of every valid schema, in any module, becomes a constant of the corresponding Rust type whose value in the running program is the value written in the schema: integers of every width, floats bit for bit, strings and bytes with all escapes.",
  ["programs", "inputs"], "all constants of all primitive types that have literals",
  "A handful of small literals is compared as text; extreme integers, floats and escapes are not run.",
  [B+"definition.rs"], [("constant definitions", B+"definition.rs")], ["constants of compiled generated code"]),
]
