//! Properties of the programs: the language server, the command line interface and the Go
//! generator, run as processes.

mod cli_checks;
mod go_checks;
mod lsp;
mod lsp_checks;
mod text;

use std::{
    fs,
    path::PathBuf,
    process::ExitCode,
    sync::atomic::{AtomicUsize, Ordering},
};

fn main() -> ExitCode {
    pbt::main_with(|id| lsp_checks::check(id).or_else(|| cli_checks::check(id)).or_else(|| go_checks::check(id)))
}

/// A program of the repository, built by check.sh.
pub fn program(name: &str) -> PathBuf {
    let p = pbt::root().join("harness/target/debug").join(name);
    assert!(p.exists(), "{} is missing: run check.sh", p.display());
    p
}

/// Directory that is removed again.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Self {
        static N: AtomicUsize = AtomicUsize::new(0);
        let base = std::env::temp_dir().canonicalize().expect("temp dir");
        let dir = base.join(format!("mabo-proc-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        fs::create_dir(&dir).expect("scratch directory");
        Self(dir)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}
