from props_w import P
M = "crates/mabo-cli/src/main.rs"
K = [
P("K01", "mabo check succeeds exactly if every selected schema is valid",
  "For every project directory and every list of files and patterns, `mabo check` exits successfully exactly if the patterns are well-formed and all selected schema files exist, parse, validate and have all their references resolved among each other; otherwise it fails and reports an error. Selected are the files given by patterns, or those of the project file in their absence. No file is created, changed or removed.",
  ["inputs", "configurations"], "all file trees of valid and invalid schemas, all patterns and project files, paths with spaces and non-ASCII characters",
  "The command line program has no tests at all.",
  [M, "crates/mabo-cli/src/cli.rs", "crates/mabo-project/src/lib.rs"], [("check", M+" check"), ("patterns", M)],
  ["exit status, output and file system after mabo check"]),
P("K02", "mabo fmt rewrites exactly the files it is asked to, and is idempotent",
  "`mabo fmt` leaves every selected schema file that parses with exactly its formatted text, does not write files that are formatted already, reports files that do not parse and goes on with the others, never touches those nor files that were not selected, fails if a selected file can't be read or there is no project, and running it again changes nothing.",
  ["inputs", "configurations"], "all file trees of schemas in all layouts, broken files, patterns and project files",
  "The command line program has no tests at all; a slip here destroys source files.",
  [M, "crates/mabo-cli/src/cli.rs", "crates/mabo-parser/src/lib.rs"], [("fmt", M+" fmt")],
  ["exit status and file system after mabo fmt"]),
P("K03", "mabo doc writes exactly the pages of the project's schemas",
  "`mabo doc` creates, for every schema of the project, one page per definition and an index per module in the folder of its name below the output directory, with the content the documentation generator gives, replacing former pages, touching no other file, and fails without a project or if a schema does not parse.",
  ["inputs", "configurations"], "all project directories and output directories, present or not",
  "The command line program has no tests at all.",
  [M, "crates/mabo-cli/src/cli.rs", "crates/mabo-doc/src/lib.rs"], [("doc", M+" doc")],
  ["exit status and file system after mabo doc"]),
]
