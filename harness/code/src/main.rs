//! Properties of the Rust code generator. G05 is decided here; for the others the generated code
//! is compiled into a program that checks itself.

mod accept;
mod build;
mod text;

use std::{
    collections::BTreeSet,
    fs,
    os::unix::process::CommandExt,
    path::{Path, PathBuf},
    process::{Command, ExitCode, Stdio},
};

use dynval::sets;
use sk::wire::World;

struct Args {
    id: String,
    thorough: bool,
    seed: u64,
}

fn args() -> Args {
    let mut it = std::env::args().skip(1);
    let mut a = Args {
        id: String::new(),
        thorough: std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1),
    };
    while let Some(x) = it.next() {
        match x.as_str() {
            "--tier" => a.thorough = it.next().as_deref() == Some("thorough"),
            "--seed" => a.seed = it.next().and_then(|s| s.parse().ok()).expect("seed"),
            "--replay" => {
                let v: serde_json::Value = serde_json::from_str(&fs::read_to_string(it.next().expect("file")).expect("replay file")).expect("replay file");
                a.seed = v["seed"].as_u64().expect("seed");
                a.thorough = v["tier"] == "thorough";
            }
            "--child" => {}
            "--only" | "--progress" => {
                it.next();
            }
            _ => a.id = x,
        }
    }
    a
}

fn main() -> ExitCode {
    let a = args();
    if std::env::args().nth(1).as_deref() == Some("try") {
        // try FILE…: is the code for these schemas generated, and does it compile?
        accept::prepare().expect("libraries");
        let files: Vec<(String, String)> = std::env::args().skip(2).map(|f| (Path::new(&f).file_stem().unwrap().to_string_lossy().into_owned(), fs::read_to_string(&f).unwrap())).collect();
        let files: Vec<(&str, &str)> = files.iter().map(|(n, s)| (&n[..], &s[..])).collect();
        println!("{:?}", accept::try_text(&files, std::env::var_os("BYTES").is_some()));
        return ExitCode::SUCCESS;
    }
    if a.id == "B01" {
        return pbt::main_with(|id| (id == "B01").then(build::check));
    }
    if a.id == "G05" {
        if let Err(e) = accept::prepare() {
            eprintln!("code: {e}");
            return ExitCode::from(2);
        }
        return pbt::main_with(accept::check);
    }
    let prepared = prepare(&a);
    let exe = match prepared {
        Ok(e) => e,
        Err(e) => {
            eprintln!("code: {e}");
            return ExitCode::from(2);
        }
    };
    if a.id == "prepare" {
        accept::prepare().expect("libraries");
        return ExitCode::SUCCESS;
    }
    let e = Command::new(exe).args(std::env::args().skip(1)).env("VERIF_TIER", if a.thorough { "thorough" } else { "quick" }).exec();
    eprintln!("code: {e}");
    ExitCode::from(2)
}

/// Shared, so that the libraries are compiled once.
const PROFILE: &str = "[profile.dev]\ndebug = false\nopt-level = 0\nincremental = false\n[profile.dev.package.\"*\"]\nopt-level = 1\ndebug = false\n";

fn put(path: &Path, text: &str) -> Result<(), String> {
    if fs::read_to_string(path).is_ok_and(|t| t == text) {
        return Ok(());
    }
    fs::create_dir_all(path.parent().unwrap()).and_then(|()| fs::write(path, text)).map_err(|e| format!("{}: {e}", path.display()))
}

/// Generate and compile all sets; the result is the program to run.
fn prepare(a: &Args) -> Result<PathBuf, String> {
    pbt::quiet_panics();
    let harness = pbt::root().join("harness");
    let target = harness.join("target");
    let tier = if a.thorough { "t" } else { "q" };
    let ws = target.join(format!("gen/{tier}{}", a.seed));
    let (n, crates) = sets::extent(a.thorough);
    let mut files: Vec<Option<String>> = Vec::new();
    for i in 0..n {
        let (set, bytes) = sets::make(a.seed, i);
        let roots = sets::roots(&World::of(&set), a.seed, i);
        match text::generate(&set, bytes) {
            Ok(code) => files.push(Some(text::module(&set, &code, &format!("crate::s{i}"), bytes, i, &roots))),
            Err(e) => {
                eprintln!("set {i} is left out: {}", e.lines().next().unwrap_or_default());
                files.push(None);
            }
        }
    }
    let mut bad: BTreeSet<usize> = (0..n).filter(|i| files[*i].is_none()).collect();
    for _ in 0..6 {
        write(&ws, &harness, &files, &bad, crates, a.seed, tier)?;
        match build(&ws, &target)? {
            Ok(()) => return Ok(target.join(format!("debug/gen-{tier}{}", a.seed))),
            Err((failed, text)) => {
                if failed.is_empty() || failed.is_subset(&bad) {
                    return Err(format!("the generated code does not build:\n{text}"));
                }
                if std::env::var_os("VERIF_CODE_ERRORS").is_some() {
                    eprintln!("{text}");
                }
                eprintln!("sets {failed:?} are left out: their code does not compile (see G05)");
                bad.extend(failed);
            }
        }
    }
    Err("the generated code does not build".into())
}

fn write(ws: &Path, harness: &Path, files: &[Option<String>], bad: &BTreeSet<usize>, crates: usize, seed: u64, tier: &str) -> Result<(), String> {
    let h = harness.display();
    let mut members = String::new();
    let mut deps = String::new();
    let mut all = String::new();
    for k in 0..crates {
        let name = format!("gen-{tier}{seed}-c{k}");
        members += &format!("\"c{k}\", ");
        deps += &format!("c{k} = {{ package = \"{name}\", path = \"../c{k}\" }}\n");
        all += &format!("    all.extend(c{k}::made());\n");
        let mut lib = String::from("#![allow(warnings)]\n");
        let mut made = String::new();
        for (i, f) in files.iter().enumerate().filter(|(i, _)| i % crates == k && !bad.contains(i)) {
            lib += &format!("pub mod s{i};\n");
            made += &format!("s{i}::made(), ");
            put(&ws.join(format!("c{k}/src/s{i}.rs")), f.as_ref().unwrap())?;
        }
        lib += &format!("pub fn made() -> Vec<dynval::run::Made> {{ vec![{made}] }}\n");
        put(&ws.join(format!("c{k}/src/lib.rs")), &lib)?;
        put(
            &ws.join(format!("c{k}/Cargo.toml")),
            &format!("[package]\nname = \"{name}\"\nversion = \"0.0.0\"\nedition = \"2024\"\n[lib]\ndoctest = false\n[dependencies]\ndynval = {{ path = \"{h}/dynval\" }}\nmabo = {{ path = \"/repo/crates/mabo\" }}\n"),
        )?;
    }
    put(
        &ws.join("Cargo.toml"),
        &format!("[workspace]\nmembers = [{members}\"main\"]\nresolver = \"3\"\n{PROFILE}"),
    )?;
    put(&ws.join("main/Cargo.toml"), &format!("[package]\nname = \"gen-{tier}{seed}\"\nversion = \"0.0.0\"\nedition = \"2024\"\n[dependencies]\ndynval = {{ path = \"{h}/dynval\" }}\n{deps}"))?;
    put(&ws.join("main/src/main.rs"), &format!("fn main() -> std::process::ExitCode {{\n    let mut all = Vec::new();\n{all}    dynval::run::main({seed}, all)\n}}\n"))?;
    if !ws.join("Cargo.lock").exists() {
        fs::copy(harness.join("Cargo.lock"), ws.join("Cargo.lock")).map_err(|e| e.to_string())?;
    }
    Ok(())
}

type Built = Result<(), (BTreeSet<usize>, String)>;

/// On failure: the sets with errors, and the messages.
fn build(ws: &Path, target: &Path) -> Result<Built, String> {
    let out = Command::new("cargo")
        .args(["build", "--offline", "--keep-going", "--message-format=json", "--manifest-path"])
        .arg(ws.join("Cargo.toml"))
        .env("CARGO_TARGET_DIR", target)
        .stderr(Stdio::piped())
        .output()
        .map_err(|e| e.to_string())?;
    if out.status.success() {
        return Ok(Ok(()));
    }
    let mut failed = BTreeSet::new();
    let mut text = String::new();
    for line in String::from_utf8_lossy(&out.stdout).lines() {
        let Ok(v) = serde_json::from_str::<serde_json::Value>(line) else { continue };
        if v["reason"] != "compiler-message" || v["message"]["level"] != "error" {
            continue;
        }
        text += v["message"]["rendered"].as_str().unwrap_or_default();
        for s in v["message"]["spans"].as_array().into_iter().flatten() {
            let file = s["file_name"].as_str().unwrap_or_default();
            let stem = Path::new(file).file_stem().unwrap_or_default().to_string_lossy().into_owned();
            if let Some(i) = stem.strip_prefix('s').and_then(|n| n.parse().ok()) {
                failed.insert(i);
            }
        }
    }
    text += &String::from_utf8_lossy(&out.stderr);
    Ok(Err((failed, text)))
}
