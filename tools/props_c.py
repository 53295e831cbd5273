from props_w import P
CF = ["crates/mabo-compiler/src"]
C = [
P("C01", "Validation accepts exactly the schemas that obey the rules",
  "A parsed schema is accepted by validation exactly when it obeys every rule: field names, variant names, definition names of one module and field or variant identifiers (derived ones included) are unique; type parameters are unique and each is used in the body; and every tuple type, however deep inside of other types, has 2 to 12 elements. A rejection names a rule that is really violated and points at the offending elements. Validation never panics.",
  ["inputs"], "all schemas that parse, valid ones and ones with any mix of violations at any depth",
  "The validation snapshots hold one fixed schema per rule; violations inside nested modules, later variants or deeply nested types, derived identifiers that collide, and valid schemas that look suspicious are not sampled.",
  [CF[0] + "/validate"],
  [("identifier rules", CF[0] + "/validate/ids.rs"), ("name rules", CF[0] + "/validate/names.rs"), ("type parameter and tuple rules", CF[0] + "/validate/generics.rs, tuples.rs")],
  ["verdict and labels of mabo_compiler::validate_schema"]),
P("C02", "Identifiers are derived by the documented counting rule",
  "Fields and variants without a written identifier get the identifier after that of their predecessor (1 for the first), a written identifier restarts the count, and the same numbers are used for validation and for everything generated from the schema. Sequences whose derived identifiers would repeat are rejected; all others are accepted.",
  ["inputs"], "all sequences of written and omitted identifiers of 32 bits, for structs, tuple structs, variants and variant fields",
  "The tests only show omitted identifiers at the start or throughout; wire compatibility hangs on mixed sequences, decreasing identifiers and the limits.",
  [CF[0] + "/validate/ids.rs", CF[0] + "/simplify.rs"],
  [("identifier counter", CF[0] + "/validate/ids.rs"), ("derivation for generators", CF[0] + "/simplify.rs")],
  ["identifiers of the simplified schema", "verdict of validate_schema"],
  [("counter", "identifier the next element without one gets", CF[0] + "/validate/ids.rs")]),
P("C03", "References resolve to exactly what they name",
  "A set of schemas is accepted by resolution exactly when every type reference and every root-level import leads to an existing element: a type parameter in scope, a struct or enum of the same module, one reached by the written module path, or one reached through an imported schema, module or type, always with the number of type arguments it declares. References to anything else (missing schemas, modules or types, aliases and constants, wrong numbers of type arguments) are rejected with an error that gives the reason and points at the wrong reference in the right schema. Resolution never panics.",
  ["inputs"], "all sets of one to three schemas with modules nested to any depth, imports and references, valid or with any defects",
  "The resolution snapshots hold a few fixed pairs of schemas; which of many same-named elements in several scopes a path leads to is not sampled.",
  [CF[0] + "/resolve"],
  [("local and remote lookup", CF[0] + "/resolve/mod.rs")],
  ["verdict, labels and related declarations of mabo_compiler::resolve_schemas"]),
P("C04", "Simplified schemas say the same as the source",
  "The simplified form handed to code generators and other tools describes every definition of the source schema, in order, with its comments, attributes, names, type parameters, field and variant identifiers, types and literals unchanged: only layout and optional identifiers are normalised.",
  ["inputs"], "all valid schemas over the whole grammar",
  "Simplification has few direct tests; each generator's snapshot only sees the constructs it happens to print.",
  [CF[0] + "/simplify.rs"],
  [("tree conversion", CF[0] + "/simplify.rs")],
  ["mabo_compiler::simplify_schema"]),
P("C05", "The JSON form of a schema is faithful and follows its published JSON Schema",
  "The JSON form of every schema is valid JSON, conforms to the JSON Schema the compiler publishes for it, and says the same as the schema: every definition, comment, attribute, name, type, identifier and literal (integers of 128 bits and all floats included) can be read back from it unchanged.",
  ["inputs"], "all schemas over the whole grammar, valid or not",
  "No test compares the JSON form with the published schema; only one fixed example is serialised.",
  [CF[0] + "/simplify.rs"],
  [("serialisation", CF[0] + "/simplify.rs"), ("published JSON Schema", CF[0] + "/simplify.rs Schema::json_schema")],
  ["JSON of the simplified schema", "the published JSON Schema"]),
]
