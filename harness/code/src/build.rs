//! B01: what build scripts get.

use std::{collections::BTreeMap, fs, path::Path};

use pbt::{Case, Check, Fail, Ret, Src, ensure, no_panic};
use sk::{
    refs::{self, Set, Verdict},
    render,
};

use crate::{
    accept,
    text::{ENV, Scratch},
};

pub fn check() -> Check {
    Check::new("B01", "the project has at least two schemas, or something is wrong with it")
        .assume(&["the schemas of a project have distinct names; they keep to what the findings about code generation leave out (see DESIGN.md)"])
        .part("projects", 6_000, 120_000, project)
}

type Tree = BTreeMap<String, Option<Vec<u8>>>;

fn tree(dir: &Path, at: &str, out: &mut Tree) -> std::io::Result<()> {
    if !dir.is_dir() {
        return Ok(());
    }
    for e in fs::read_dir(dir)? {
        let e = e?;
        let name = format!("{at}{}", e.file_name().to_string_lossy());
        if e.file_type()?.is_dir() {
            tree(&e.path(), &format!("{name}/"), out)?;
            out.insert(name, None);
        } else {
            out.insert(name, Some(fs::read(e.path())?));
        }
    }
    Ok(())
}

fn io<T>(r: std::io::Result<T>) -> Result<T, Fail> {
    r.map_err(|e| Fail::new(format!("scratch: {e}")))
}

fn project(s: &mut Src, c: &mut Case) -> Ret {
    let (mut set, bytes) = accept::gen_set(s);
    // schemas that no other imports can have any file name
    if s.chance(1, 3) {
        let texts: Vec<String> = set.schemas.iter().map(|(_, m)| render::plain(m)).collect();
        let at = s.below(set.schemas.len());
        let odd = *s.pick(&["Upper", "camelCase", "v1.2", "with blank", "dash-ed", "ünï", "a.mabo", "x.rs", "9", "UPPER"]);
        let own = &set.schemas[at].0;
        let imported = texts.iter().any(|t| t.lines().any(|l| l.trim_start().strip_prefix("use ").is_some_and(|p| p.split("::").next().is_some_and(|f| f.trim_end_matches(';').trim() == own))));
        if !imported {
            set.schemas[at].0 = odd.to_owned();
            c.label("odd file name");
        }
    }
    let mut files: Vec<(String, Vec<u8>)> = set.schemas.iter().map(|(n, m)| (n.clone(), render::plain(m).into_bytes())).collect();
    // which of them belong to the project
    let chosen: Vec<bool> = files.iter().map(|_| !s.chance(1, 8)).collect();
    let sub = *s.pick(&["", "schemas/", "a b/ü/"]);
    let one_by_one = chosen.contains(&false) || s.coin();
    // what is wrong
    let at = s.below(files.len());
    let mut shown = None;
    let mut fails = false;
    let defect = s.weighted(&[8, 1, 1, 1, 1, 1, 1, 1, 1, 1]);
    let more: &[u8] = match defect {
        1 => b"\nstruct {",
        2 => b"\nstruct Dup9(u8)\nstruct Dup9(u8)\n",
        3 => b"\nstruct Lost9(Gone9)\n",
        4 => b"\nuse gone9::Thing;\n",
        5 => b"\n\xff",
        6 => b"\nenum Ids9 { A @4, B @4 }\n",
        _ => b"",
    };
    if !more.is_empty() {
        files[at].1.extend_from_slice(more);
        if chosen[at] {
            fails = true;
            shown = Some(format!("{}.mabo", files[at].0));
        }
    }
    // what is imported from schemas that are not part of the project doesn't exist
    let part = Set { schemas: set.schemas.iter().zip(&chosen).filter(|(_, c)| **c).map(|(m, _)| m.clone()).collect() };
    let judged = refs::judge(&part);
    let open = judged.iter().any(|j| j.verdict == Verdict::Open);
    if judged.iter().any(|j| matches!(j.verdict, Verdict::Bad(_))) {
        fails = true;
        shown = None;
    }
    fails |= defect >= 7;
    let names: Vec<&str> = set.schemas.iter().map(|(n, _)| &n[..]).collect();
    c.show(|| {
        let all: String = files.iter().zip(&chosen).map(|((n, t), c)| format!("--- {sub}{n}.mabo{}\n{}\n", if *c { "" } else { " (not part of the project)" }, String::from_utf8_lossy(t))).collect();
        format!("bytes {bytes}, defect {defect}\n{all}")
    });
    c.key((bytes, defect, sub, &files, &chosen));
    c.nontrivial(part.schemas.len() >= 2 || fails);
    c.label(["no defect", "syntax", "duplicate", "missing type", "missing import", "not UTF-8", "identifiers", "no project", "no output directory", "output is taken"][defect]);

    let dir = Scratch::new();
    let root = dir.0.join("p");
    io(fs::create_dir_all(root.join(sub)))?;
    if defect != 7 {
        let globs = if one_by_one { files.iter().zip(&chosen).filter(|(_, c)| **c).map(|((n, _), _)| format!("{:?}", format!("{sub}{n}.mabo"))).collect::<Vec<_>>().join(", ") } else { "\"**/*.mabo\"".to_owned() };
        io(fs::write(root.join("Mabo.toml"), format!("[package]\nname = \"p\"\nfiles = [{globs}]\n")))?;
    }
    for (n, t) in &files {
        io(fs::write(root.join(format!("{sub}{n}.mabo")), t))?;
    }
    // files from before
    let out = dir.0.join("out");
    let target = out.join("mabo");
    let first = part.schemas.first().map(|(n, _)| n.clone());
    match s.below(3) {
        0 => {}
        k => {
            io(fs::create_dir_all(&target))?;
            io(fs::write(target.join("mine.rs"), "mine"))?;
            io(fs::write(out.join("other.txt"), "other"))?;
            if let Some(f) = first.as_ref().filter(|_| k == 1) {
                io(fs::write(target.join(format!("{f}.rs")), "struct Former;"))?;
            }
        }
    }
    if defect == 9 {
        match &first {
            Some(f) if s.coin() => {
                let _ = fs::remove_file(target.join(format!("{f}.rs")));
                io(fs::create_dir_all(target.join(format!("{f}.rs"))))?;
            }
            _ => {
                let _ = fs::remove_dir_all(&target);
                io(fs::create_dir_all(&out))?;
                io(fs::write(&target, "a file"))?;
            }
        }
    }
    let compile = || {
        let _guard = ENV.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
        // SAFETY: guarded against other calls; nothing else reads the environment meanwhile
        unsafe {
            if defect == 8 { std::env::remove_var("OUT_DIR") } else { std::env::set_var("OUT_DIR", &out) }
        }
        let mut b = mabo_build::Compiler::default();
        if bytes {
            b = b.with_bytes_type(mabo_build::BytesType::Bytes);
        }
        no_panic(|| b.compile(root.to_str().unwrap())).map_err(|p| Fail::new(format!("the build panics: {p}")))
    };
    // output of an earlier build, from other schemas of whatever size
    if !fails && s.chance(1, 4) && compile()?.is_ok() {
        for (n, _) in &part.schemas {
            let p = target.join(format!("{n}.rs"));
            let b = fs::read(&p).unwrap_or_default();
            let old = match s.below(5) {
                0 => vec![b' '; b.len()],
                1 if !b.is_empty() => {
                    let mut b = b;
                    let at = s.below(b.len());
                    b[at] = b[at].wrapping_add(1) & 0x7f;
                    b
                }
                2 => [b.as_slice(), b"\nstruct More;\n"].concat(),
                3 => b[..s.below(b.len() + 1)].to_vec(),
                _ => {
                    io(fs::remove_file(p).or(Ok(())))?;
                    continue;
                }
            };
            io(fs::write(p, old))?;
        }
        c.label("built before");
    }
    let mut before = Tree::new();
    io(tree(&dir.0, "", &mut before))?;
    let got = compile()?;
    let mut now = Tree::new();
    io(tree(&dir.0, "", &mut now))?;
    let mut rest = now.clone();
    match got {
        Err(e) => {
            ensure!(fails || open, "the build fails, although everything is valid: {e:?}");
            if let Some(f) = shown.filter(|_| fails) {
                let said = format!("{e:?}");
                ensure!(said.contains(&f), "the error does not say that {f} is wrong: {said}");
                let named = match &e {
                    mabo_build::Error::Read { file, .. } | mabo_build::Error::Parse { file, .. } | mabo_build::Error::Compile { file, .. } => Some(file),
                    _ => None,
                };
                if let Some(file) = named.filter(|p| **p != Path::new("")) {
                    ensure!(file.ends_with(&f), "the error is about {file:?}, but {f} is wrong: {said}");
                }
            }
            rest.retain(|p, _| before.contains_key(p) || !(p == "out" || p == "out/mabo"));
            if defect == 9 {
                // the other schemas may be written
                rest.retain(|p, _| before.contains_key(p) || !p.starts_with("out/mabo/"));
                rest.iter_mut().for_each(|(p, b)| if let (true, Some(o)) = (p.starts_with("out/mabo/"), before.get(p)) { b.clone_from(o) });
            }
            for (p, b) in &rest {
                ensure!(before.get(p) == Some(b), "the build fails, but {p} is written");
            }
        }
        Ok(()) => {
            ensure!(!fails, "the build succeeds in spite of what is wrong");
            rest.remove("out");
            rest.remove("out/mabo");
            for (name, schema) in &part.schemas {
                let p = format!("out/mabo/{name}.rs");
                let Some(Some(text)) = rest.remove(&p) else { return Err(Fail::new(format!("{p} is not written"))) };
                let text = String::from_utf8(text).map_err(|_| format!("{p} is not UTF-8"))?;
                let file = syn::parse_file(&text).map_err(|e| format!("{p} is not valid: {e}"))?;
                accept::same_defs("", &file.items, &schema.defs).map_err(|e| format!("{p}: {e}"))?;
                let blob = text.contains("::mabo::buf::Bytes");
                ensure!(bytes || !blob, "{p} uses bytes::Bytes, which nobody asked for");
            }
            for (p, b) in &rest {
                ensure!(before.get(p) == Some(b), "{p} is written, but belongs to no schema of the project ({names:?})");
            }
        }
    }
    match before.keys().find(|p| !now.contains_key(*p)) {
        Some(p) => Err(Fail::new(format!("{p} is gone"))),
        None => Ok(()),
    }
}
