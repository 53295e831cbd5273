from props_w import P
JF = "crates/mabo-project/src/lib.rs"
J = [
P("J01", "Projects consist of exactly the schema files their globs name",
  "Loading a project yields exactly the existing files below its directory (links to files and directories followed) that end in .mabo and match at least one of the globs of its project file, each once; directories are never taken for schema files; an empty list of globs names no files. A project with a schema file that can't be had (a link that leads nowhere) fails to load instead of doing without it. Name, description, license and globs come out as written; project files without a name or list of files, or with a license that is no SPDX expression or a malformed glob, are rejected. Discovering projects below a directory finds every Mabo.toml there and nothing else, each loaded as if loaded on its own, and fails if one of them can't be loaded.",
  ["inputs", "configurations"], "all file trees of regular files, directories and links, all globs of literals, wildcards, classes, alternatives and ** components",
  "The tests load the one project of the examples; what overlapping globs, directories with schema-like names, links and nested projects lead to is not sampled.",
  [JF, "crates/mabo-project/src/de.rs"],
  [("glob matching and directory walk", JF), ("project file format", JF + ", crates/mabo-project/src/de.rs")],
  ["mabo_project::load, mabo_project::discover"]),
]
