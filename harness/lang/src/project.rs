//! J01: projects and their files.

use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    path::{Path, PathBuf},
    sync::atomic::{AtomicUsize, Ordering},
};

use pbt::{Case, Check, Ret, Src, ensure, fail, no_panic};

pub fn check(id: &str) -> Option<Check> {
    Some(match id {
        "J01" => Check::new("J01", "at least one file is part of the project and at least one is not")
            .assume(&["hidden files and ignore files are not generated: the documentation does not mention them", "symbolic links never form a loop", "negated character classes are not generated: the glob library lets them match a path separator", "question marks are not matched against characters beyond ASCII: the glob library takes them for a byte"])
            .part("files", 12_000, 120_000, files)
            .part("metadata", 12_000, 120_000, metadata)
            .part("discovery", 4_500, 40_000, discovery)
            .part("malformed_globs", 2_000, 20_000, malformed)
            .part("dangling_links", 2_000, 20_000, dangling),
        _ => return None,
    })
}

/// Directory that is removed again.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Self {
        static N: AtomicUsize = AtomicUsize::new(0);
        let base = std::env::temp_dir().canonicalize().expect("temp dir");
        let dir = base.join(format!("mabo-verif-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        fs::create_dir(&dir).expect("scratch directory");
        Self(dir)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

// ---- globs ----

#[derive(Clone, Debug)]
enum G {
    Lit(String),
    Any,
    One,
    Class(Vec<char>),
    Alt(Vec<Vec<G>>),
}

/// Pattern: path components, `None` stands for any number of directories.
type Pattern = Vec<Option<Vec<G>>>;

const NAMES: &[&str] = &["a", "b", "schemas", "types", "v1", "v2", "user", "a-b", "x.y", "über", "User", "A", "V1", "SCHEMAS"];
const EXTS: &[&str] = &[".mabo", ".mabo", ".mabo", ".mabo", ".mabo", ".txt", "", ".mabo.bak", ".MABO", "mabo", ".xmabo"];

fn comp(s: &mut Src, last: bool, depth: usize) -> Vec<G> {
    let mut g = Vec::new();
    for _ in 0..1 + s.below(3) {
        g.push(match s.weighted(&[5, 5, 1, 1, if depth > 0 { 1 } else { 0 }]) {
            0 => G::Lit((*s.pick(NAMES)).to_owned()),
            1 => G::Any,
            2 => G::One,
            3 => G::Class((0..1 + s.below(3)).map(|_| *s.pick(&['a', 'b', 'v', '1', '2', 'u', '.'])).collect()),
            _ => G::Alt((0..1 + s.below(3)).map(|_| if s.chance(1, 5) { vec![] } else { comp(s, false, 0) }).collect()),
        });
    }
    // two stars in a row mean something else
    g.dedup_by(|a, b| matches!((a, b), (G::Any, G::Any)));
    if last && s.chance(4, 5) {
        g.push(G::Lit(".mabo".to_owned()));
    }
    g
}

fn pattern(s: &mut Src) -> Pattern {
    if s.chance(1, 5) {
        return vec![Some(vec![G::Lit((*s.pick(NAMES)).to_owned())]), None, Some(vec![G::Any, G::Lit(".mabo".into())])];
    }
    let n = s.below(3);
    let mut p: Pattern = (0..n).map(|_| if s.chance(1, 3) { None } else if s.coin() { Some(vec![G::Lit((*s.pick(NAMES)).to_owned())]) } else { Some(comp(s, false, 1)) }).collect();
    p.dedup_by(|a, b| a.is_none() && b.is_none());
    p.push(Some(comp(s, true, 1)));
    p
}

/// Without question marks if there are names beyond ASCII: the glob library takes them for a byte.
fn pattern_for(s: &mut Src, files: &[String]) -> Pattern {
    let mut p = pattern(s);
    if !files.iter().all(|f| f.is_ascii()) {
        for g in p.iter_mut().flatten() {
            plain(g);
        }
    }
    p
}

fn plain(g: &mut Vec<G>) {
    for g in &mut *g {
        match g {
            G::One => *g = G::Any,
            G::Alt(alts) => alts.iter_mut().for_each(plain),
            _ => {}
        }
    }
    g.dedup_by(|a, b| matches!((a, b), (G::Any, G::Any)));
}

fn g_text(g: &[G], out: &mut String) {
    for g in g {
        match g {
            G::Lit(l) => out.push_str(l),
            G::Any => out.push('*'),
            G::One => out.push('?'),
            G::Class(cs) => {
                out.push('[');
                out.extend(cs);
                out.push(']');
            }
            G::Alt(alts) => {
                out.push('{');
                for (i, a) in alts.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    g_text(a, out);
                }
                out.push('}');
            }
        }
    }
}

fn p_text(p: &Pattern) -> String {
    let comps: Vec<String> = p
        .iter()
        .map(|c| match c {
            None => "**".to_owned(),
            Some(g) => {
                let mut t = String::new();
                g_text(g, &mut t);
                t
            }
        })
        .collect();
    comps.join("/")
}

fn g_match(g: &[G], t: &str, done: &dyn Fn(&str) -> bool) -> bool {
    let Some((first, rest)) = g.split_first() else { return done(t) };
    let mut chars = t.chars();
    match first {
        G::Lit(l) => t.strip_prefix(l.as_str()).is_some_and(|t| g_match(rest, t, done)),
        G::Any => (0..=t.len()).filter(|i| t.is_char_boundary(*i)).any(|i| g_match(rest, &t[i..], done)),
        G::One => chars.next().is_some() && g_match(rest, chars.as_str(), done),
        G::Class(cs) => chars.next().is_some_and(|c| cs.contains(&c)) && g_match(rest, chars.as_str(), done),
        G::Alt(alts) => alts.iter().any(|a| g_match(a, t, &|t| g_match(rest, t, done))),
    }
}

fn p_match(p: &[Option<Vec<G>>], path: &[&str]) -> bool {
    match p.split_first() {
        None => path.is_empty(),
        Some((None, rest)) => (0..=path.len()).any(|i| p_match(rest, &path[i..])),
        Some((Some(g), rest)) => path.split_first().is_some_and(|(f, tail)| g_match(g, f, &str::is_empty) && p_match(rest, tail)),
    }
}

// ---- trees ----

/// Fill a directory; the result are the files below it, by the names they are reached by.
fn grow(s: &mut Src, dir: &Path, rel: &str, depth: usize, outside: &Path, out: &mut Vec<String>) -> std::io::Result<()> {
    let mut used = BTreeSet::new();
    for _ in 0..1 + s.below(4) {
        let name = format!("{}{}", s.pick(NAMES), s.pick(EXTS));
        if !used.insert(name.clone()) {
            continue;
        }
        let rel = if rel.is_empty() { name.clone() } else { format!("{rel}/{name}") };
        let path = dir.join(&name);
        match s.weighted(&[6, if depth > 0 { 2 } else { 0 }, 1, if depth > 0 { 1 } else { 0 }]) {
            0 => {
                fs::write(&path, "")?;
                out.push(rel);
            }
            1 => {
                fs::create_dir(&path)?;
                grow(s, &path, &rel, depth - 1, outside, out)?;
            }
            2 => {
                let target = outside.join(format!("file{}", out.len()));
                fs::write(&target, "")?;
                std::os::unix::fs::symlink(&target, &path)?;
                out.push(rel);
            }
            _ => {
                let target = outside.join(format!("dir{}-{}", out.len(), rel.replace('/', "-")));
                fs::create_dir(&target)?;
                std::os::unix::fs::symlink(&target, &path)?;
                grow(s, &target, &rel, depth - 1, outside, out)?;
            }
        }
    }
    Ok(())
}

fn toml_string(t: &str) -> String {
    let mut o = String::from("\"");
    for c in t.chars() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c);
            }
            c if c.is_control() => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o + "\""
}

fn wanted<'a>(found: &'a [String], patterns: &[Pattern]) -> BTreeSet<&'a str> {
    found
        .iter()
        .filter(|f| f.ends_with(".mabo") && !f.ends_with("/.mabo") && f.as_str() != ".mabo")
        .filter(|f| {
            let comps: Vec<&str> = f.split('/').collect();
            patterns.iter().any(|p| p_match(p, &comps))
        })
        .map(String::as_str)
        .collect()
}

fn manifest(patterns: &[Pattern]) -> String {
    let list: Vec<String> = patterns.iter().map(|p| toml_string(&p_text(p))).collect();
    format!("[package]\nname = \"test\"\nfiles = [{}]\n", list.join(", "))
}

fn compare(project: &mabo_project::Project, dir: &Path, want: &BTreeSet<&str>) -> Ret {
    let mut got = BTreeSet::new();
    for f in &project.files {
        let rel = f.strip_prefix(dir).map_err(|_| format!("{} is not below {}", f.display(), dir.display()))?;
        let rel = rel.to_str().unwrap();
        ensure!(got.insert(rel), "{rel} is listed twice");
    }
    for f in want {
        ensure!(got.contains(f), "{f} is missing in the project, which has {got:?}");
    }
    for f in &got {
        ensure!(want.contains(f), "{f} does not belong to the project");
    }
    ensure!(project.project_path == dir.join("Mabo.toml"), "the project file is given as {}", project.project_path.display());
    Ok(())
}

fn files(s: &mut Src, c: &mut Case) -> Ret {
    let scratch = Scratch::new();
    let (dir, outside) = (scratch.0.join("base"), scratch.0.join("outside"));
    fs::create_dir(&dir).and_then(|()| fs::create_dir(&outside)).map_err(|e| e.to_string())?;
    let mut found = Vec::new();
    grow(s, &dir, "", 3, &outside, &mut found).map_err(|e| format!("cannot write: {e}"))?;
    let patterns: Vec<Pattern> = (0..if s.chance(1, 30) { s.below(40) } else { s.weighted(&[1, 6, 3, 1, 1, 1]) }).map(|_| pattern_for(s, &found)).collect();
    let text = manifest(&patterns);
    fs::write(dir.join("Mabo.toml"), &text).map_err(|e| e.to_string())?;
    let want = wanted(&found, &patterns);
    c.show(|| format!("{text}\nfiles: {found:?}"));
    c.key(&(&text, &found));
    c.nontrivial(!want.is_empty() && want.len() < found.len());
    c.count("files", want.len() as u64);
    let project = no_panic(|| mabo_project::load(&dir)).map_err(|p| format!("loading panics: {p}"))?.map_err(|e| format!("loading fails: {e:?}"))?;
    compare(&project, &dir, &want)
}

/// Files that are named but can't be had are no reason to go on without them.
fn dangling(s: &mut Src, c: &mut Case) -> Ret {
    let scratch = Scratch::new();
    let (dir, outside) = (scratch.0.join("base"), scratch.0.join("outside"));
    fs::create_dir(&dir).and_then(|()| fs::create_dir(&outside)).map_err(|e| e.to_string())?;
    let mut found = Vec::new();
    grow(s, &dir, "", 2, &outside, &mut found).map_err(|e| format!("cannot write: {e}"))?;
    let patterns: Vec<Pattern> = (0..1 + s.below(3)).map(|_| pattern_for(s, &found)).collect();
    let text = manifest(&patterns);
    fs::write(dir.join("Mabo.toml"), &text).map_err(|e| e.to_string())?;
    let want: Vec<&str> = wanted(&found, &patterns).into_iter().collect();
    let gone = (!want.is_empty()).then(|| *s.pick(&want));
    if let Some(f) = gone {
        let path = dir.join(f);
        fs::remove_file(&path).and_then(|()| std::os::unix::fs::symlink(outside.join("nothing"), &path)).map_err(|e| e.to_string())?;
    }
    c.show(|| format!("{text}\nfiles: {found:?}\nleads nowhere: {gone:?}"));
    c.key(&(&text, &found, gone));
    c.nontrivial(gone.is_some() && found.len() > 1);
    let loaded = no_panic(|| mabo_project::load(&dir)).map_err(|p| format!("loading panics: {p}"))?;
    let discovered = no_panic(|| mabo_project::discover(&dir)).map_err(|p| format!("discovering panics: {p}"))?;
    match gone {
        Some(f) => {
            if let Ok(p) = loaded {
                fail!("the project is loaded without {f}, which leads nowhere: {:?}", p.files);
            }
            ensure!(discovered.is_err(), "the project is discovered without {f}, which leads nowhere");
        }
        None => compare(&loaded.map_err(|e| format!("loading fails: {e:?}"))?, &dir, &want.into_iter().collect())?,
    }
    Ok(())
}

const LICENSES: &[&str] = &["MIT", "Apache-2.0", "GPL-3.0-or-later", "BSD-3-Clause", "ISC", "MPL-2.0"];

fn metadata(s: &mut Src, c: &mut Case) -> Ret {
    let name = s.chance(9, 10).then(|| s.string(10));
    let description = s.coin().then(|| s.string(20));
    let (license, valid) = match s.below(4) {
        0 => (None, true),
        1 => (Some((*s.pick(LICENSES)).to_owned()), true),
        2 => {
            let n = 2 + s.below(2);
            let l: Vec<&str> = (0..n).map(|_| *s.pick(LICENSES)).collect();
            (Some(l.join(*s.pick(&[" OR ", " AND "]))), true)
        }
        _ => (Some((*s.pick(&["", "MIT OR", "Unknown-License-1", "MIT Apache-2.0", "(MIT", "AND"])).to_owned()), false),
    };
    let patterns = s.chance(9, 10).then(|| (0..s.below(4)).map(|_| p_text(&pattern(s))).collect::<Vec<_>>());
    let mut lines = Vec::new();
    if let Some(n) = &name {
        lines.push(format!("name = {}", toml_string(n)));
    }
    if let Some(d) = &description {
        lines.push(format!("description = {}", toml_string(d)));
    }
    if let Some(l) = &license {
        lines.push(format!("license = {}", toml_string(l)));
    }
    if let Some(p) = &patterns {
        lines.push(format!("files = [{}]", p.iter().map(|p| toml_string(p)).collect::<Vec<_>>().join(", ")));
    }
    s.shuffle(&mut lines);
    let text = format!("[package]\n{}\n", lines.join("\n"));
    let scratch = Scratch::new();
    fs::write(scratch.0.join("Mabo.toml"), &text).map_err(|e| e.to_string())?;
    c.show(|| text.clone());
    c.key(&text);
    let ok = name.is_some() && patterns.is_some() && valid;
    c.nontrivial(ok && (license.is_some() || description.is_some()));
    c.label(if ok { "valid" } else { "invalid" });
    match no_panic(|| mabo_project::load(&scratch.0)).map_err(|p| format!("loading panics: {p}"))? {
        Ok(p) => {
            ensure!(ok, "an invalid project file is accepted");
            let p = p.project_file.package;
            ensure!(Some(&p.name) == name.as_ref(), "the name is {:?}", p.name);
            ensure!(p.description == description, "the description is {:?}", p.description);
            ensure!(p.license.as_ref().map(ToString::to_string) == license, "the license is {:?}", p.license);
            ensure!(Some(&p.files) == patterns.as_ref(), "the files are {:?}", p.files);
        }
        Err(e) => ensure!(!ok, "a valid project file is rejected: {e:?}"),
    }
    Ok(())
}

fn discovery(s: &mut Src, c: &mut Case) -> Ret {
    let scratch = Scratch::new();
    let base = &scratch.0;
    let mut dirs = vec![String::new()];
    for i in 0..1 + s.below(5) {
        let at = s.pick(&dirs).clone();
        let d = format!("{at}{}{i}/", s.pick(NAMES));
        fs::create_dir(base.join(&d)).map_err(|e| e.to_string())?;
        dirs.push(d);
    }
    let mut files = Vec::new();
    let mut projects = BTreeSet::new();
    for d in &dirs {
        for _ in 0..s.below(3) {
            let f = format!("{d}{}.mabo", s.pick(NAMES));
            fs::write(base.join(&f), "").map_err(|e| e.to_string())?;
            if !files.contains(&f) {
                files.push(f);
            }
        }
        match s.weighted(&[3, 3, 1]) {
            0 => {
                projects.insert(d.clone());
            }
            1 => {}
            _ => fs::write(base.join(format!("{d}{}", s.pick(&["mabo.toml", "Mabo.toml.bak", "XMabo.toml"]))), "no project").map_err(|e| e.to_string())?,
        }
    }
    let globs: BTreeMap<&String, Vec<Pattern>> = projects.iter().map(|p| (p, (0..1 + s.below(2)).map(|_| pattern_for(s, &files)).collect())).collect();
    // one that can't be loaded on its own
    let broken = if s.chance(1, 6) && !projects.is_empty() { projects.iter().nth(s.below(projects.len())) } else { None };
    let mut text = String::new();
    for (p, g) in &globs {
        let t = if broken == Some(*p) { (*s.pick(&["", "[package]", "[package]\nname = \"a\"\n", "[package]\nname = \"a\"\nfiles = [\"[\"]\n", "\u{0}"])).to_owned() } else { manifest(g) };
        fs::write(base.join(format!("{p}Mabo.toml")), &t).map_err(|e| e.to_string())?;
        text += &format!("{p}Mabo.toml:\n{t}\n");
    }
    c.show(|| format!("projects {projects:?}, files {files:?}\n{text}"));
    c.key(&(&projects, &files, &text));
    c.nontrivial(!projects.is_empty() && !files.is_empty());
    let got = no_panic(|| mabo_project::discover(base)).map_err(|p| format!("discovery panics: {p}"))?;
    if let Some(b) = broken {
        c.label("a broken project");
        ensure!(got.is_err(), "discovery succeeds although {b}Mabo.toml can't be loaded");
        return Ok(());
    }
    let got = got.map_err(|e| format!("discovery fails: {e:?}"))?;
    let mut seen = BTreeSet::new();
    for p in &got {
        let dir = p.project_path.parent().unwrap();
        let rel = dir.strip_prefix(base).map_err(|_| format!("{} is not below the base", dir.display()))?;
        let mut rel = rel.to_str().unwrap().to_owned();
        if !rel.is_empty() {
            rel.push('/');
        }
        ensure!(projects.contains(&rel), "{rel:?} is no project");
        ensure!(seen.insert(rel.clone()), "{rel:?} is found twice");
        let below: Vec<String> = files.iter().filter_map(|f| f.strip_prefix(rel.as_str())).map(str::to_owned).collect();
        compare(p, dir, &wanted(&below, &globs[&rel]))?;
    }
    ensure!(seen == projects, "found are {seen:?} instead of {projects:?}");
    Ok(())
}

/// A project with a glob that has no meaning can't be loaded.
fn malformed(s: &mut Src, c: &mut Case) -> Ret {
    let mut globs: Vec<String> = (0..s.below(4)).map(|_| p_text(&pattern(s))).collect();
    let mut bad = p_text(&pattern(s));
    // (the generated ones contain closed braces and brackets only)
    match s.below(4) {
        0 => bad += "[",
        1 => bad += "{a",
        2 => bad += "[b-a]",
        _ => bad += "}",
    }
    let at = s.below(globs.len() + 1);
    globs.insert(at, bad.clone());
    let list: Vec<String> = globs.iter().map(|g| toml_string(g)).collect();
    let text = format!("[package]\nname = \"test\"\nfiles = [{}]\n", list.join(", "));
    let scratch = Scratch::new();
    let found = ["a.mabo", "b.mabo"];
    for f in found {
        fs::write(scratch.0.join(f), "").map_err(|e| e.to_string())?;
    }
    fs::write(scratch.0.join("Mabo.toml"), &text).map_err(|e| e.to_string())?;
    c.show(|| text.clone());
    c.key(&text);
    c.nontrivial(globs.len() > 1);
    match no_panic(|| mabo_project::load(&scratch.0)).map_err(|p| format!("loading panics: {p}"))? {
        Ok(_) => pbt::fail!("{bad:?} is accepted as a glob"),
        Err(_) => Ok(()),
    }
}
