from props_w import P
G = "crates/mabo-go/src/"
O = [
P("O01", "The Go generator translates every definition faithfully into valid Go",
  "For every schema of supported types, the text the Go generator gives for each module is syntactically valid Go that declares every definition under its Go name with its type parameters, the fields with their Go types, documentation and constants with the values of the schema, and whose encoding, size and decoding methods treat every field, in order, with its identifier, its wire encoding and the functions for its type; variants are dispatched by their identifiers.",
  ["inputs", "programs"], "all valid schemas with arrays of 1 to 32 elements: every kind of definition, type, nesting, generic and identifier",
  "Snapshots for a dozen small schemas; nesting, identifiers, names and literals are unbounded.",
  [G+"lib.rs", G+"definition.rs", G+"encode.rs", G+"decode.rs", G+"size.rs"],
  [("definitions", G+"definition.rs"), ("methods", G+"encode.rs, decode.rs, size.rs"), ("modules", G+"lib.rs render_schema")],
  ["mabo_go::render_schema output, tokenized and parsed by gofmt"]),
P("O02", "mabo-go writes exactly the generated packages, or fails and writes none",
  "For every project of one schema, `mabo-go` writes the file of the schema's package and one per module below the output directory, at the path of the module's name, with the generated code in place of any former content, changes no other file and exits successfully; if a schema is invalid, or there is no project, it fails and leaves all files as they are.",
  ["inputs", "configurations"], "all projects of one valid or invalid schema with nested modules, package names, output directories and former outputs",
  "The program is not run by any test.",
  [G+"main.rs", G+"cli.rs", G+"lib.rs"], [("main program", G+"main.rs")],
  ["exit status and file system after mabo-go"]),
]
