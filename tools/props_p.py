from props_w import P
PF = ["crates/mabo-parser/src/lib.rs", "crates/mabo-parser/src/parser", "crates/mabo-parser/src/highlight.rs", "crates/mabo-parser/src/location.rs"]
P_ = [
P("P01", "The parser decides every text without panicking",
  "For any text the schema parser terminates with either a schema or an error, without panicking, and repeating a nested shape twice as often multiplies its work by a small factor only. Every source label an error carries lies within the text, and the error can be rendered as a report. Raw bytes are judged exactly as the text they encode, and rejected when they are not UTF-8.",
  ["inputs"], "all texts: arbitrary Unicode, sequences of language tokens, damaged schemas, nesting up to 64 levels, raw bytes",
  "The tests parse a fixed list of well-formed and slightly malformed fragments; panics hide behind unusual characters, truncation points and unexpected token sequences.",
  PF + ["crates/mabo-parser/src/error.rs"],
  [("combinator parser", "crates/mabo-parser/src/parser"), ("cause to label conversion", "crates/mabo-parser/src/error.rs")],
  ["mabo_parser::Schema::parse, from_str, from_slice", "miette labels of the returned error"]),
P("P02", "Everything the grammar allows is parsed to what it says",
  "Every schema the language reference allows is accepted, in whatever layout (blanks, line breaks, optional trailing commas, escape forms) it is written, and the resulting tree contains exactly the definitions, names, types, literals, identifiers, comments and attributes that were written, in order. Integer, float, string and byte literals keep their exact value.",
  ["inputs"], "all schemas over the whole grammar in all layouts; all types; all literals including 128-bit integers, every finite float and every escape",
  "Snapshot tests cover some sixty fixed snippets in one layout each; combinations of constructs, odd layouts, names that begin like keywords and literals at the limits are not sampled.",
  PF,
  [("per-construct parsers", "crates/mabo-parser/src/parser"), ("literal parser with escapes", "crates/mabo-parser/src/parser/literals.rs")],
  ["the parsed tree against the model the text was rendered from"]),
P("P03", "Violations of the grammar are rejected",
  "A text that differs from a valid schema by a missing or stray mandatory token, a name in the wrong case, a number out of its range (a float beyond the largest one included), or a malformed or misplaced definition is rejected and never silently accepted as something else.",
  ["inputs"], "all valid schemas with any one such defect at any position",
  "The error snapshots cover one instance each for a subset of the constructs; a parser that accepts too much in other positions passes them.",
  PF + ["crates/mabo-parser/src/error.rs"],
  [("cut points after the committed token", "crates/mabo-parser/src/parser"), ("name character classes", "crates/mabo-parser/src/parser/structs.rs parse_name")],
  ["verdict of Schema::parse", "labels of the error"]),
P("P04", "Formatting keeps the meaning of a schema",
  "Formatting any accepted text yields text that is accepted again and means the same: the same definitions, names, types, literals, identifiers, comments and attributes in the same order. Formatting the result once more changes nothing, and schemas that differ only in optional layout are formatted to the same text. In the result every definition, named field and variant starts a line of its own, indented by its depth, as does the brace that closes it; an element printed by itself reads as it does within the schema.",
  ["inputs"], "all schemas over the whole grammar in all layouts; damaged schemas and token sequences as far as they are accepted; numbers of any length and exponent",
  "The formatter is only snapshot-tested on the parser's own small fragments and its output is never parsed again; nested modules, escapes, extreme literals and comments decide.",
  ["crates/mabo-parser/src/lib.rs", "crates/mabo-parser/src/parser"],
  [("printing of each construct", "crates/mabo-parser/src/lib.rs Print"), ("literal printing", "crates/mabo-parser/src/lib.rs")],
  ["Schema::to_string parsed again"]),
P("P05", "Source locations name exactly what they belong to",
  "Every location the syntax tree records (names, types, identifiers, literals, comments, keywords and punctuation) slices the source text to exactly that element, and the elements of a definition appear in source order without overlap.",
  ["inputs"], "all schemas over the whole grammar in all layouts, including multi-byte characters before the element",
  "The span snapshots hold only one-line ASCII snippets; offsets after multi-byte characters, comments or unusual layouts are unsampled, and every diagnostic and editor feature relies on them.",
  PF, [("span capture", "crates/mabo-parser/src/location.rs"), ("token types", "crates/mabo-parser/src/token.rs")],
  ["Spanned::span and token ranges of the tree"], [("span", "byte range of the element in the source", "crates/mabo-parser/src/lib.rs Spanned")]),
P("P06", "Reports of syntax errors point at the mistake",
  "For a text with one mistake, the report shows that very text and is about that mistake: none of its locations lies behind it, the most specific one lies within the innermost declaration or list of fields that had begun before it, and the report leads from the outermost to the innermost element around the mistake, every module, enum, alias, constant and import that had begun among them, each at a place within that element. A declaration that starts its name with a wrong character is reported at exactly that character and as the kind of name it is; a constant that does not end behind its value is reported at exactly that place.",
  ["inputs"], "all schemas in all layouts with one character that no schema can contain between any two tokens, or one name that starts with a wrong character",
  "The error snapshots hold fourteen small files, each with the mistake in its only declaration; locations within later or nested declarations, behind comments, attributes and other text are not sampled.",
  PF + ["crates/mabo-parser/src/error.rs", "crates/mabo-parser/src/location.rs"],
  [("locations of errors", "crates/mabo-parser/src/location.rs, crates/mabo-parser/src/parser/*.rs map_err"), ("chain of causes", "crates/mabo-parser/src/error.rs")],
  ["labels, codes and related errors of the report of Schema::parse"]),
]
P = P_
