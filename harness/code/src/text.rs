//! Rust text: generated code of a set, the bridge to the reference model, and the tables.

use std::{
    fmt::Write,
    fs,
    path::PathBuf,
    sync::{
        Mutex,
        atomic::{AtomicUsize, Ordering},
    },
};

use pbt::no_panic;
use sk::{
    model::{Def, Ty},
    refs::Set,
    render,
    wire::{FieldsR, Kind, R, Shape, World},
};

/// Directory that is removed again.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Self {
        static N: AtomicUsize = AtomicUsize::new(0);
        let dir = std::env::temp_dir().join(format!("mabo-code-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        fs::create_dir(&dir).expect("scratch directory");
        Self(dir)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

/// Guards the environment of the process.
pub static ENV: Mutex<()> = Mutex::new(());

/// Run the code generator on a project of the given schemas: the files it writes, by name.
pub fn generate_text(schemas: &[(String, String)], bytes: bool) -> Result<Vec<(String, String)>, String> {
    // the output directory is given by the environment
    let dir = Scratch::new();
    let io = |e: std::io::Error| format!("cannot write the project: {e}");
    fs::create_dir(dir.0.join("schemas")).map_err(io)?;
    fs::write(dir.0.join("Mabo.toml"), "[package]\nname = \"test\"\nfiles = [\"schemas/*.mabo\"]\n").map_err(io)?;
    for (n, s) in schemas {
        fs::write(dir.0.join(format!("schemas/{n}.mabo")), s).map_err(io)?;
    }
    {
        let _guard = ENV.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
        // SAFETY: guarded against other calls; nothing else reads the environment meanwhile
        unsafe { std::env::set_var("OUT_DIR", dir.0.join("out")) };
        let mut c = mabo_build::Compiler::default();
        if bytes {
            c = c.with_bytes_type(mabo_build::BytesType::Bytes);
        }
        no_panic(|| c.compile(dir.0.to_str().unwrap())).map_err(|p| format!("generating the code panics: {p}"))?.map_err(|e| format!("generating the code fails: {e:?}"))?;
    }
    let mut out = Vec::new();
    for e in fs::read_dir(dir.0.join("out/mabo")).map_err(io)? {
        let e = e.map_err(io)?;
        out.push((e.file_name().to_string_lossy().into_owned(), fs::read_to_string(e.path()).map_err(io)?));
    }
    Ok(out)
}

/// Module name and code of each schema.
pub fn generate(set: &Set, bytes: bool) -> Result<Vec<(String, String)>, String> {
    let texts: Vec<(String, String)> = set.schemas.iter().map(|(n, s)| (n.clone(), render::plain(s))).collect();
    let mut files = generate_text(&texts, bytes)?;
    let mut out = Vec::new();
    for (n, _) in texts {
        let name = format!("{n}.rs");
        let at = files.iter().position(|f| f.0 == name).ok_or_else(|| format!("{name} is not generated"))?;
        out.push((n, files.remove(at).1));
    }
    if let Some((n, _)) = files.first() {
        return Err(format!("{n} is generated, but there is no such schema"));
    }
    Ok(out)
}

/// Keywords are given as raw identifiers.
pub fn ident(name: &str) -> String {
    const KEYWORDS: &[&str] = &["type", "match", "fn", "gen", "move"];
    if KEYWORDS.contains(&name) { format!("r#{name}") } else { name.to_owned() }
}

fn module_path(at: &[&str]) -> String {
    at.iter().map(|a| format!("{}::", ident(a))).collect()
}

pub fn path(w: &World, root: &str, def: usize) -> String {
    let d = &w.defs[def];
    let mut p = format!("{root}::{}::", w.schemas[d.schema]);
    p += &module_path(&d.path.iter().map(|m| &m[..]).collect::<Vec<_>>());
    p + &d.name
}

fn args(ts: impl IntoIterator<Item = String>) -> String {
    let ts: Vec<String> = ts.into_iter().collect();
    if ts.is_empty() { String::new() } else { format!("<{}>", ts.join(", ")) }
}

/// The Rust type a type is documented to become.
pub fn ty(w: &World, root: &str, params: &[String], bytes: bool, t: &R) -> String {
    let go = |t: &R| ty(w, root, params, bytes, t);
    let blob = if bytes { "::mabo::buf::Bytes" } else { "::std::vec::Vec<u8>" };
    match t {
        R::Prim(p) => match *p {
            "string" | "&string" => "::std::string::String".into(),
            "box<string>" => "::std::boxed::Box<str>".into(),
            "bytes" | "&bytes" => blob.into(),
            "box<bytes>" => "::std::boxed::Box<[u8]>".into(),
            p => p.into(),
        },
        R::Vec(t) => format!("::std::vec::Vec<{}>", go(t)),
        R::Map(k, v) => format!("::std::collections::HashMap<{}, {}>", go(k), go(v)),
        R::Set(t) => format!("::std::collections::HashSet<{}>", go(t)),
        R::Opt(t) => format!("::std::option::Option<{}>", go(t)),
        R::NonZero(t) => match &**t {
            R::Prim(p) if p.starts_with(['u', 'i']) => format!("::std::num::NonZero{}{}", p[..1].to_uppercase(), &p[1..]),
            t => format!("::mabo::NonZero<{}>", go(t)),
        },
        R::Tuple(ts) => format!("({},)", ts.iter().map(go).collect::<Vec<_>>().join(", ")),
        R::Array(t, n) => format!("[{}; {n}]", go(t)),
        R::Param(i) => params[*i].clone(),
        R::Def(i, a) => path(w, root, *i) + &args(a.iter().map(go)),
    }
}

/// `Dyn` for every struct and enum: names every type, field and variant the way the schema does.
pub fn bridge(w: &World, root: &str, bytes: bool) -> String {
    let mut o = String::new();
    for (i, d) in w.defs.iter().enumerate() {
        let p = path(w, root, i);
        let tys = |f: &FieldsR| -> Vec<String> { f.list.iter().map(|f| format!("<{} as ::dynval::Dyn>", ty(w, root, &d.generics, bytes, &f.ty))).collect() };
        let build = |f: &FieldsR| -> String {
            let parts: Vec<String> = f
                .list
                .iter()
                .zip(tys(f))
                .enumerate()
                .map(|(i, (f2, t))| if f.kind == Kind::Named { format!("{}: {t}::from_val(&f__[{i}])", ident(&f2.name)) } else { format!("{t}::from_val(&f__[{i}])") })
                .collect();
            match f.kind {
                Kind::Named => format!("{{ {} }}", parts.join(", ")),
                Kind::Unnamed => format!("({})", parts.join(", ")),
                Kind::Unit => String::new(),
            }
        };
        let take = |f: &FieldsR| -> (String, String) {
            let vals: Vec<String> = tys(f).iter().enumerate().map(|(i, t)| format!("{t}::to_val(x__{i})")).collect();
            let pat = match f.kind {
                Kind::Named => format!("{{ {} }}", f.list.iter().enumerate().map(|(i, f)| format!("{}: x__{i}", ident(&f.name))).collect::<Vec<_>>().join(", ")),
                Kind::Unnamed => format!("({})", (0..f.list.len()).map(|i| format!("x__{i}")).collect::<Vec<_>>().join(", ")),
                Kind::Unit => String::new(),
            };
            (pat, vals.join(", "))
        };
        let decl = args(d.generics.iter().map(|g| format!("{g}: ::dynval::Dyn")));
        let name = p.clone() + &args(d.generics.clone());
        let _ = writeln!(o, "impl{decl} ::dynval::Dyn for {name} {{");
        match &d.shape {
            Shape::Struct(f) => {
                let (pat, vals) = take(f);
                let _ = writeln!(o, "fn from_val(v__: &::dynval::Val) -> Self {{ let ::dynval::Val::Struct(f__) = v__ else {{ panic!() }}; let _ = f__; {p} {} }}", build(f));
                let _ = writeln!(o, "fn to_val(&self) -> ::dynval::Val {{ let {p} {pat} = self; ::dynval::Val::Struct(::std::vec![{vals}]) }}");
            }
            Shape::Enum(vs) => {
                let _ = writeln!(o, "fn from_val(v__: &::dynval::Val) -> Self {{ let ::dynval::Val::Enum(i__, f__) = v__ else {{ panic!() }}; let _ = f__; match *i__ {{");
                for (i, v) in vs.iter().enumerate() {
                    let _ = writeln!(o, "{i} => {p}::{} {},", v.name, build(&v.fields));
                }
                let _ = writeln!(o, "_ => panic!() }} }}\nfn to_val(&self) -> ::dynval::Val {{ match self {{");
                for (i, v) in vs.iter().enumerate() {
                    let (pat, vals) = take(&v.fields);
                    let _ = writeln!(o, "{p}::{} {pat} => ::dynval::Val::Enum({i}, ::std::vec![{vals}]),", v.name);
                }
                let _ = writeln!(o, "}} }}");
            }
        }
        let _ = writeln!(o, "}}");
    }
    o
}

/// Every constant with its type, as expressions for values.
fn consts(set: &Set, root: &str) -> Vec<String> {
    let mut out = Vec::new();
    for (n, s) in &set.schemas {
        s.walk(&mut |at, d| {
            if let Def::Const { name, ty: Ty::Prim(p), .. } = d {
                let path = format!("{root}::{n}::{}{name}", module_path(at));
                out.push(match *p {
                    "string" | "&string" => format!("<&str as ::dynval::ConstVal>::const_val({path})"),
                    "bytes" | "&bytes" => format!("<&[u8] as ::dynval::ConstVal>::const_val({path})"),
                    p => format!("<{p} as ::dynval::Dyn>::to_val(&{path})"),
                });
            }
        });
    }
    out
}

/// Aliases name existing types.
fn aliases(set: &Set, root: &str, w: &World, bytes: bool) -> String {
    let mut o = String::new();
    for (i, (n, s)) in set.schemas.iter().enumerate() {
        s.walk(&mut |at, d| {
            if let Def::Alias { name, generics, target, .. } = d {
                let owned: Vec<String> = at.iter().map(|s| (*s).to_owned()).collect();
                let r = sk::wire::resolve(set, w, i, &owned, generics, target);
                let path = format!("{root}::{n}::{}{name}", module_path(at));
                // keys of maps and sets within need more than any type
                let decl = args(generics.iter().map(|g| format!("{g}: ::dynval::Dyn")));
                let _ = writeln!(o, "const _: () = {{ #[allow(dead_code)] fn same__{decl}(v: {path}{}) -> {} {{ v }} }};", args(generics.clone()), ty(w, root, generics, bytes, &r));
            }
        });
    }
    o
}

/// The whole file for one set that becomes module `root`.
pub fn module(set: &Set, code: &[(String, String)], root: &str, bytes: bool, index: usize, roots: &[R]) -> String {
    let w = World::of(set);
    let mut o = String::new();
    for (n, c) in code {
        let _ = writeln!(o, "pub mod {n} {{ {c} }}");
    }
    o += &bridge(&w, root, bytes);
    o += &aliases(set, root, &w, bytes);
    let _ = writeln!(o, "pub fn made() -> ::dynval::run::Made {{ ::dynval::run::Made {{ index: {index}, entries: ::std::vec![");
    for r in roots {
        let _ = writeln!(o, "::dynval::entry::<{}>(),", ty(&w, root, &[], bytes, r));
    }
    let _ = writeln!(o, "], consts: ::std::vec![{}] }} }}", consts(set, root).join(", "));
    o
}
