//! G05: the generated code compiles, and consists of what the schema defines.

use std::{
    fs,
    path::PathBuf,
    process::{Command, Stdio},
    sync::OnceLock,
    time::{Duration, Instant},
};

use pbt::{Case, Check, Ret, Src, ensure, fail, no_panic};
use sk::{
    model::{Def, Fields},
    refs::Set,
    render, valid,
    wire::World,
};

use crate::text::{self, Scratch};

struct Deps {
    mabo: PathBuf,
    dynval: PathBuf,
    dir: PathBuf,
}

static DEPS: OnceLock<Deps> = OnceLock::new();

/// Build what the generated code is compiled against.
pub fn prepare() -> Result<(), String> {
    let harness = pbt::root().join("harness");
    let target = harness.join("target");
    let ws = target.join("gen/deps");
    crate::put(&ws.join("Cargo.toml"), &format!(
        "[workspace]\n[package]\nname = \"gen-deps\"\nversion = \"0.0.0\"\nedition = \"2024\"\n[dependencies]\ndynval = {{ path = \"{}/dynval\" }}\nmabo = {{ path = \"/repo/crates/mabo\" }}\n{}",
        harness.display(),
        crate::PROFILE
    ))?;
    crate::put(&ws.join("src/lib.rs"), "")?;
    if !ws.join("Cargo.lock").exists() {
        fs::copy(harness.join("Cargo.lock"), ws.join("Cargo.lock")).map_err(|e| e.to_string())?;
    }
    let out = Command::new("cargo")
        .args(["build", "--offline", "--message-format=json", "--manifest-path"])
        .arg(ws.join("Cargo.toml"))
        .env("CARGO_TARGET_DIR", &target)
        .stderr(Stdio::piped())
        .output()
        .map_err(|e| e.to_string())?;
    if !out.status.success() {
        return Err(String::from_utf8_lossy(&out.stderr).into_owned());
    }
    let find = |name: &str| {
        String::from_utf8_lossy(&out.stdout)
            .lines()
            .filter_map(|l| serde_json::from_str::<serde_json::Value>(l).ok())
            .filter(|v| v["reason"] == "compiler-artifact" && v["target"]["name"] == name)
            .flat_map(|v| v["filenames"].as_array().cloned().unwrap_or_default())
            .find_map(|f| f.as_str().filter(|f| f.ends_with(".rlib")).map(PathBuf::from))
            .ok_or_else(|| format!("no library for {name}"))
    };
    let (mabo, dynval) = (find("mabo")?, find("dynval")?);
    let dir = target.join("debug/deps");
    let _ = DEPS.set(Deps { mabo, dynval, dir });
    Ok(())
}

/// Compile the text of a library.
fn rustc(text: &str) -> Result<(), String> {
    let deps = DEPS.get().unwrap();
    let dir = Scratch::new();
    let file = dir.0.join("lib.rs");
    fs::write(&file, text).map_err(|e| e.to_string())?;
    let ext = |n: &str, p: &PathBuf| format!("{n}={}", p.display());
    let mut child = Command::new("rustc")
        .args(["--edition=2024", "--crate-type=lib", "--crate-name=generated", "--emit=metadata", "-Awarnings", "--error-format=short", "--extern"])
        .arg(ext("mabo", &deps.mabo))
        .arg("--extern")
        .arg(ext("dynval", &deps.dynval))
        .arg("-L")
        .arg(format!("dependency={}", deps.dir.display()))
        .arg("--out-dir")
        .arg(&dir.0)
        .arg(&file)
        .current_dir(&dir.0)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(fs::File::create(dir.0.join("stderr")).map_err(|e| e.to_string())?)
        .spawn()
        .map_err(|e| e.to_string())?;
    let start = Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().map_err(|e| e.to_string())? {
            break s;
        }
        if start.elapsed() > Duration::from_secs(120) {
            let _ = child.kill();
            let _ = child.wait();
            return Err("compiling the generated code takes longer than two minutes".into());
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    if status.success() {
        return Ok(());
    }
    let err = fs::read_to_string(dir.0.join("stderr")).unwrap_or_default();
    Err(format!("the generated code does not compile: {}", err.lines().filter(|l| l.contains("error")).take(4).collect::<Vec<_>>().join("\n")))
}

/// Whether the code of these schemas is generated and compiles (without looking at what is in it).
pub fn try_text(schemas: &[(&str, &str)], bytes: bool) -> Result<(), String> {
    let schemas: Vec<(String, String)> = schemas.iter().map(|(n, s)| ((*n).to_owned(), (*s).to_owned())).collect();
    let files = text::generate_text(&schemas, bytes)?;
    rustc(&files.iter().map(|(n, c)| format!("pub mod {} {{ {c} }}\n", n.trim_end_matches(".rs"))).collect::<String>())
}

/// Each on its own.
fn all(texts: &[&str]) -> Result<(), String> {
    texts.iter().try_for_each(|t| try_text(&[("one", t)], false).map_err(|e| format!("{t}: {e}")))
}

pub fn gen_set(s: &mut Src) -> (Set, bool) {
    let bytes = s.chance(1, 3);
    let decls = 1 + s.below(6);
    let schemas = 1 + s.below(3);
    (valid::set(s, valid::Opts { decls, schemas, ..valid::CODE }), bytes)
}

fn show(set: &Set, bytes: bool) -> String {
    let mut text = format!("with_bytes_type: {}\n", if bytes { "Bytes" } else { "VecU8" });
    for (n, s) in &set.schemas {
        text += &format!("--- {n}.mabo\n{}\n", render::plain(s));
    }
    text
}

fn classify(set: &Set, c: &mut Case) {
    let features = valid::features(set);
    c.nontrivial(features.get("struct").unwrap_or(&0) + features.get("enum").unwrap_or(&0) >= 2);
    for f in features.keys() {
        c.label(f);
    }
}

fn compiles(s: &mut Src, c: &mut Case) -> Ret {
    let (set, bytes) = gen_set(s);
    classify(&set, c);
    c.show(|| show(&set, bytes));
    c.key(&show(&set, bytes));
    let code = text::generate(&set, bytes)?;
    let w = World::of(&set);
    let seed = s.raw128() as u64;
    let roots = dynval::sets::roots(&w, seed, 0);
    rustc(&text::module(&set, &code, "crate", bytes, 0, &roots))?;
    Ok(())
}

fn docs(attrs: &[syn::Attribute]) -> Vec<String> {
    attrs
        .iter()
        .filter_map(|a| match &a.meta {
            syn::Meta::NameValue(m) if m.path.is_ident("doc") => match &m.value {
                syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Some(s.value()),
                _ => None,
            },
            _ => None,
        })
        .collect()
}

fn same_docs(what: &str, attrs: &[syn::Attribute], comment: &[String]) -> Result<(), String> {
    let got = docs(attrs);
    // common indentation doesn't matter
    let trim = |l: &[String]| {
        let l: Vec<String> = l.iter().map(|l| l.replace('\r', " ").trim_end().to_owned()).collect();
        let n = l.iter().filter(|l| !l.is_empty()).map(|l| l.len() - l.trim_start_matches([' ', '\t']).len()).min().unwrap_or(0);
        l.iter().map(|l| l.get(n..).unwrap_or_default().to_owned()).collect::<Vec<_>>()
    };
    // several lines may be given at once
    let got: Vec<String> = got.iter().flat_map(|d| d.split('\n').map(str::to_owned)).collect();
    ensure_eq(&format!("the documentation of {what}"), &trim(&got), &trim(comment))
}

fn ensure_eq<T: PartialEq + std::fmt::Debug>(what: &str, got: &T, want: &T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what} is {got:?}, expected {want:?}")) }
}

fn plain(i: &syn::Ident) -> String {
    let s = i.to_string();
    s.strip_prefix("r#").unwrap_or(&s).to_owned()
}

fn is_pub(v: &syn::Visibility) -> bool {
    matches!(v, syn::Visibility::Public(_))
}

fn params(g: &syn::Generics) -> Vec<String> {
    g.params
        .iter()
        .map(|p| match p {
            syn::GenericParam::Type(t) => t.ident.to_string(),
            _ => "?".into(),
        })
        .collect()
}

fn same_fields(what: &str, got: &syn::Fields, want: &Fields, public: bool) -> Result<(), String> {
    let kind = |f: &Fields| match f {
        Fields::Named(_) => "named",
        Fields::Unnamed(_) => "unnamed",
        Fields::Unit => "unit",
    };
    let got_kind = match got {
        syn::Fields::Named(_) => "named",
        syn::Fields::Unnamed(_) => "unnamed",
        syn::Fields::Unit => "unit",
    };
    ensure_eq(&format!("the kind of fields of {what}"), &got_kind, &kind(want))?;
    ensure_eq(&format!("the number of fields of {what}"), &got.len(), &want.list().len())?;
    for (g, w) in got.iter().zip(want.list()) {
        let name = format!("field {:?} of {what}", w.name);
        ensure_eq(&format!("the name of {name}"), &g.ident.as_ref().map(plain).unwrap_or_default(), &w.name)?;
        if public && !is_pub(&g.vis) {
            return Err(format!("{name} is not public"));
        }
        same_docs(&name, &g.attrs, &w.comment)?;
    }
    Ok(())
}

pub fn same_defs(at: &str, items: &[syn::Item], defs: &[Def]) -> Result<(), String> {
    let mut items = items.iter().filter(|i| match i {
        syn::Item::Impl(_) => false,
        // imports of the runtime
        syn::Item::Use(u) => u.leading_colon.is_none(),
        _ => true,
    });
    for d in defs {
        let what = format!("{at}{}", d.name());
        let Some(item) = items.next() else { return Err(format!("{what} is missing")) };
        match (d, item) {
            (Def::Mod { comment, name, defs }, syn::Item::Mod(m)) => {
                ensure_eq("the name of a module", &plain(&m.ident), name)?;
                ensure_eq("the visibility of a module", &is_pub(&m.vis), &true)?;
                same_docs(&what, &m.attrs, comment)?;
                let inner = m.content.as_ref().map(|c| &c.1[..]).unwrap_or_default();
                same_defs(&format!("{what}::"), inner, defs)?;
            }
            (Def::Struct { comment, name, generics, fields, .. }, syn::Item::Struct(s)) => {
                ensure_eq("the name of a struct", &s.ident.to_string(), name)?;
                ensure_eq("the visibility of a struct", &is_pub(&s.vis), &true)?;
                ensure_eq(&format!("the list of type parameters of {what}"), &params(&s.generics), generics)?;
                same_docs(&what, &s.attrs, comment)?;
                same_fields(&what, &s.fields, fields, true)?;
            }
            (Def::Enum { comment, name, generics, variants, .. }, syn::Item::Enum(e)) => {
                ensure_eq("the name of an enum", &e.ident.to_string(), name)?;
                ensure_eq("the visibility of an enum", &is_pub(&e.vis), &true)?;
                ensure_eq(&format!("the list of type parameters of {what}"), &params(&e.generics), generics)?;
                same_docs(&what, &e.attrs, comment)?;
                ensure_eq(&format!("the number of variants of {what}"), &e.variants.len(), &variants.len())?;
                for (g, w) in e.variants.iter().zip(variants) {
                    let what = format!("{what}::{}", w.name);
                    ensure_eq("the name of a variant", &g.ident.to_string(), &w.name)?;
                    same_docs(&what, &g.attrs, &w.comment)?;
                    same_fields(&what, &g.fields, &w.fields, false)?;
                }
            }
            (Def::Alias { comment, name, generics, .. }, syn::Item::Type(t)) => {
                ensure_eq("the name of an alias", &t.ident.to_string(), name)?;
                ensure_eq("the visibility of an alias", &is_pub(&t.vis), &true)?;
                ensure_eq(&format!("the list of type parameters of {what}"), &params(&t.generics), generics)?;
                same_docs(&what, &t.attrs, comment)?;
            }
            (Def::Const { comment, name, .. }, syn::Item::Const(k)) => {
                ensure_eq("the name of a constant", &k.ident.to_string(), name)?;
                ensure_eq("the visibility of a constant", &is_pub(&k.vis), &true)?;
                same_docs(&what, &k.attrs, comment)?;
            }
            (Def::Use { .. }, syn::Item::Use(_)) => {}
            _ => return Err(format!("{what} becomes a different kind of item")),
        }
    }
    match items.next() {
        Some(_) => Err(format!("there are more items in {at:?} than the schema defines")),
        None => Ok(()),
    }
}

/// The code of each schema, without going through files.
fn direct(set: &Set) -> Result<Vec<syn::File>, String> {
    let texts: Vec<(String, String)> = set.schemas.iter().map(|(n, s)| (n.clone(), render::plain(s))).collect();
    let mut parsed = Vec::new();
    for (n, t) in &texts {
        let schema = mabo_parser::Schema::parse(t, None).map_err(|e| format!("{n} does not parse: {e:?}"))?;
        mabo_compiler::validate_schema(&schema).map_err(|e| format!("{n} is not valid: {e:?}"))?;
        parsed.push((&n[..], schema));
    }
    let list: Vec<_> = parsed.iter().map(|(n, s)| (*n, s)).collect();
    mabo_compiler::resolve_schemas(&list).map_err(|e| format!("the schemas do not resolve: {e:?}"))?;
    parsed
        .iter()
        .map(|(n, s)| {
            let simple = mabo_compiler::simplify_schema(s);
            let tokens = no_panic(|| mabo_build::compile_schema(&mabo_build::Opts::default(), &simple)).map_err(|e| format!("generating the code of {n} panics: {e}"))?;
            syn::parse2(tokens).map_err(|e| format!("the code of {n} is not valid: {e}"))
        })
        .collect()
}

fn shape(s: &mut Src, c: &mut Case) -> Ret {
    let (set, bytes) = gen_set(s);
    classify(&set, c);
    c.show(|| show(&set, false));
    c.key(&show(&set, false));
    let files = direct(&set)?;
    for ((name, schema), file) in set.schemas.iter().zip(&files) {
        same_defs("", &file.items, &schema.defs).map_err(|e| format!("schema {name}: {e}"))?;
    }
    if s.chance(1, 20) {
        c.label("as a project");
        // what a build script gets is the same thing, again and again
        let code = text::generate(&set, bytes)?;
        for ((name, schema), (_, text)) in set.schemas.iter().zip(&code) {
            let file = match syn::parse_file(text) {
                Ok(f) => f,
                Err(e) => fail!("the code of {name} is not valid: {e}"),
            };
            same_defs("", &file.items, &schema.defs).map_err(|e| format!("schema {name}, as part of a project: {e}"))?;
        }
        let again = text::generate(&set, bytes)?;
        ensure!(again == code, "generating the code a second time gives something else");
    }
    Ok(())
}

pub fn check(id: &str) -> Option<Check> {
    if id != "G05" {
        return None;
    }
    Some(
        Check::new("G05", "the schemas define at least two structs or enums")
            .assume(&["the schemas keep to what the findings about code generation leave out (see DESIGN.md)"])
            .probe("KF-generic-args", || all(&["struct B<T>(T) struct A(B<(u8, u8)>)", "struct B<T>(T) struct A(B<non_zero<u8>>)"]))
            .probe("KF-type-names", || all(&["struct Vec { a: vec<u8> }", "struct Option { a: option<u8> }", "struct String(string)", "struct Box(box<string>)", "struct Size(u8)", "struct Decode(u8)", "struct Encode(u8)"]))
            .probe("KF-non-zero-types", || all(&["struct A(non_zero<bool>)", "struct A(non_zero<f32>)", "struct A(non_zero<box<string>>)", "struct A(non_zero<option<u8>>)"]))
            .probe("KF-const-types", || all(&["const A: vec<u8> = 5;", "const A: u8 = \"a\";", "const A: f64 = 1;", "const A: u8 = 300;"]))
            .probe("KF-infinite-types", || all(&["struct A { a: A }", "struct A { a: option<A> }"]))
            .probe("KF-recursive-parameter", || all(&["struct A<T> { a: vec<A<T>> }"]))
            .probe("KF-hash-keys", || all(&["struct A(hash_set<f32>)", "struct B(u8) struct A(hash_map<B, u8>)", "struct A<T>(hash_set<T>)", "struct A(hash_set<non_zero<string>>)", "struct A(hash_set<hash_set<u8>>)"]))
            .probe("KF-keyword-names", || all(&["struct A { self: u8 }", "struct A { super: u8 }", "struct A { crate: u8 }", "struct Self(u8)"]))
            .probe("KF-parameter-shadows", || all(&["struct A<A>(A)"]))
            .probe("KF-nested-module-imports", || {
                let other = ("other", "struct B(u8)");
                try_text(&[("one", "use other::B; mod n { struct A(B) }"), other], false)?;
                try_text(&[("one", "mod n { use other::B; struct A(u8) }"), other], false)
            })
            .part("compiles", 800, 12_000, compiles)
            .part("shape", 20_000, 400_000, shape),
    )
}
