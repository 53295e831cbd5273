from props_w import P
B_ = "crates/mabo-build/src/lib.rs"
B = [
P("B01", "Build scripts get the code of exactly the project's schemas, or an error",
  "Compiling a project from a build script writes, below the mabo folder of OUT_DIR, one Rust file per schema of the project, named after it and with the code of all of its definitions in place of any former content, and touches no other file. If any schema can't be read, parsed or validated, if a reference among the schemas of the project can't be resolved, or if there is no project or OUT_DIR, it returns an error, which names the schema at fault, before any file is written or changed; it fails as well if a file can't be written. It never panics.",
  ["inputs", "configurations", "fault_sequences"], "all projects of valid schemas and ones with any such defect, all file trees, former outputs, output places that are taken, both bytes types",
  "The tests compile the one project of the examples; no failure is tested, and neither is what is left behind by one.",
  [B_, "crates/mabo-project/src/lib.rs"], [("Compiler::compile", B_), ("loading projects", "crates/mabo-project/src/lib.rs")],
  ["mabo_build::Compiler::compile, with_bytes_type"]),
]
