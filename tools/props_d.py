from props_w import P
D = [
P("D01", "Generated documentation describes the schema, all of it and nothing else",
  "For every schema, documentation is one well-formed HTML page per definition plus one per module, at a distinct path, with every link leading to a page that exists. Each module lists all of its elements under their kind, in order, with the first paragraph of their comment; each page shows the name, type parameters, every field and variant with its identifier, type, comment and range of encoded sizes, constants with their value in schema syntax, and a definition that parses back to the schema element. Text of the schema never turns into markup beyond the Markdown of its comments.",
  ["inputs"], "all valid schemas with comments of plain words, and such with comments of arbitrary text",
  "The snapshots hold a handful of fixed schemas; escaping, nested modules, links between pages and odd comments are not sampled.",
  ["crates/mabo-doc/src/lib.rs", "crates/mabo-doc/src/templates.rs", "crates/mabo-doc/templates"],
  [("page tree", "crates/mabo-doc/src/lib.rs"), ("page contents", "crates/mabo-doc/src/templates.rs, crates/mabo-doc/templates")],
  ["the output of mabo_doc::render_schema as HTML trees"]),
P("D02", "Comments are shown as the Markdown they contain, wherever they are shown",
  "A comment is Markdown: CommonMark with strikethrough, tables, bare links, task lists, superscript and footnotes. Generated documentation shows every comment - of the schema, modules, definitions, variants and fields - as exactly the elements that its text stands for, in order and with their nesting, link targets, alignment, numbering and check marks, the text of code unchanged down to its indentation; the overview of a module shows the part up to the first blank line in the same way. HTML in a comment is shown as text.",
  ["inputs"], "all valid schemas with comments made of Markdown blocks (text, headings, quotes, lists, task lists, tables, code, rules, footnotes) and inline elements, nested to depth 3",
  "The existing tests hold one or two comments of plain words; none of them contains a Markdown extension, indentation or nested blocks.",
  ["crates/mabo-doc/src/templates.rs", "crates/mabo-doc/templates", "crates/mabo-parser/src/parser.rs"],
  [("markdown filter", "crates/mabo-doc/src/templates.rs"), ("joining of comment lines", "crates/mabo-doc/src/templates.rs"), ("comment lines", "crates/mabo-parser/src/parser.rs")],
  ["the output of mabo_doc::render_schema as HTML trees"]),
]
