//! K01–K03: the command line interface.

use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    path::{Path, PathBuf},
    process::{Command, Stdio},
    time::{Duration, SystemTime},
};

use mabo_parser::Schema as Ast;
use pbt::{Case, Check, Fail, Ret, Src, ensure, fail, no_panic};
use sk::{gen_, render::{self, Style}, valid};

use crate::Scratch;

const OLD: SystemTime = SystemTime::UNIX_EPOCH;

pub fn check(id: &str) -> Option<Check> {
    Some(match id {
        "K01" => Check::new("K01", "at least two files are selected, or at least one is invalid")
            .assume(&["no two selected files share a file stem"])
            .part("check", 24_000, 500_000, check_cmd),
        "K02" => Check::new("K02", "at least one selected file has to be rewritten, and one file has not").part("fmt", 16_000, 350_000, fmt_cmd),
        "K03" => Check::new("K03", "the project has at least two schemas or a module")
            .assume(&["no two files of the project share a file stem", "schemas are valid, or don't parse"])
            .part("doc", 19_200, 400_000, doc_cmd),
        _ => return None,
    })
}

// ---- files ----

/// Relative path to content.
type Tree = BTreeMap<PathBuf, Vec<u8>>;

const DIRS: &[&str] = &["", "", "schemas", "schemas/v1", "sub dir", "ü"];

/// Patterns with what they select.
fn selects(pattern: &str, path: &str) -> bool {
    let (dir, file) = path.rsplit_once('/').unwrap_or(("", path));
    if !file.ends_with(".mabo") {
        return false;
    }
    match pattern {
        "*" | "*.mabo" => dir.is_empty(),
        "**/*.mabo" | "**/*" => true,
        "schemas/*.mabo" => dir == "schemas",
        "schemas/**/*.mabo" => dir == "schemas" || dir.starts_with("schemas/"),
        "*/*.mabo" => !dir.is_empty() && !dir.contains('/'),
        "**/a*.mabo" => file.starts_with('a'),
        "a?.mabo" => dir.is_empty() && file.len() == 7 && file.starts_with('a'),
        "**/[ab]*.mabo" => file.starts_with(['a', 'b']),
        exact => exact == path,
    }
}

const PATTERNS: &[&str] = &["*", "*.mabo", "**/*.mabo", "**/*", "schemas/*.mabo", "schemas/**/*.mabo", "*/*.mabo", "**/a*.mabo", "a?.mabo", "**/[ab]*.mabo"];

struct Setup {
    dir: Scratch,
    /// All files below the project directory.
    files: Tree,
    /// The ones the command has to work on.
    selected: BTreeSet<PathBuf>,
    /// Arguments that select them, and the directory to run in.
    args: Vec<String>,
    cwd: PathBuf,
    /// Whether the project exists, with a valid project file.
    project: bool,
    shown: String,
}

fn io<T>(r: std::io::Result<T>) -> Result<T, Fail> {
    r.map_err(|e| Fail::new(format!("scratch: {e}")))
}

/// A project and files, with a way to select some of them.
fn setup(s: &mut Src, contents: Vec<(String, Vec<u8>)>, globs: bool) -> Result<Setup, Fail> {
    let dir = Scratch::new();
    let root = dir.0.join("p");
    io(fs::create_dir(&root))?;
    let mut files = Tree::new();
    for (name, content) in contents {
        let sub = *s.pick(DIRS);
        let ext = if s.chance(1, 8) { *s.pick(&[".txt", "", ".mabo.bak", ".MABO", "mabo", "_mabo", ".xmabo"]) } else { ".mabo" };
        files.insert(PathBuf::from(sub).join(format!("{name}{ext}")), content);
    }
    let all: Vec<String> = files.keys().map(|p| p.to_str().unwrap().to_owned()).collect();
    let patterns = |s: &mut Src| -> Vec<String> {
        let n = 1 + if s.chance(1, 6) { s.below(9) } else { s.len(2) };
        (0..n).map(|_| if s.chance(1, 4) { s.pick(&all).clone() } else { (*s.pick(PATTERNS)).to_owned() }).collect()
    };
    let mine = patterns(s);
    let broken = s.chance(1, 25);
    let project_file = if broken { (*s.pick(&["[package", "", "[package]\nname = 5\nfiles = []\n", "[package]\nname = \"p\"\n"])).to_owned() } else { format!("[package]\nname = \"p\"\nfiles = {mine:?}\n") };
    let missing = s.chance(1, 25);
    if !missing {
        files.insert("Mabo.toml".into(), project_file.into_bytes());
    }
    for (p, b) in &files {
        let path = root.join(p);
        io(fs::create_dir_all(path.parent().unwrap()))?;
        io(fs::write(&path, b))?;
        io(io(fs::File::options().write(true).open(&path))?.set_modified(OLD))?;
    }
    if s.chance(1, 4) {
        // never a schema file
        io(fs::create_dir_all(root.join("azdir.mabo/schemas")))?;
    }
    let (mut args, mut cwd, mut project) = (Vec::new(), root.clone(), !missing && !broken);
    let mut used = mine;
    if globs && s.coin() {
        used = patterns(s);
        project = true;
        for p in &used {
            args.push(match s.below(8) {
                0 => format!("./{p}"),
                1 => format!("../p/{p}"),
                2 => format!("{}/{p}", root.display()),
                _ => p.clone(),
            });
        }
        if s.chance(1, 25) {
            // no pattern at all, so that nothing is done
            let at = s.below(args.len() + 1);
            args.insert(at, (*s.pick(&["a***", "[", "**a/*.mabo", "schemas/[a"])).to_owned());
            project = false;
        }
    } else {
        match s.below(3) {
            0 => {}
            1 => {
                cwd.clone_from(&dir.0);
                args = vec!["--project-dir".into(), "p".into()];
            }
            _ => {
                cwd.clone_from(&dir.0);
                args = vec![format!("--project-dir={}", root.display())];
            }
        }
    }
    let selected = files.keys().filter(|f| used.iter().any(|p| selects(p, f.to_str().unwrap()))).cloned().collect();
    let shown = format!("in {:?}: {args:?}\n", cwd.strip_prefix(&dir.0).unwrap())
        + &files.iter().map(|(p, b)| format!("{}: {:?}\n", p.display(), String::from_utf8_lossy(b))).collect::<String>();
    Ok(Setup { dir, files, selected, args, cwd, project, shown })
}

/// What is below the directory now.
fn tree(root: &Path) -> Result<Tree, Fail> {
    let mut out = Tree::new();
    let mut todo = vec![root.to_owned()];
    while let Some(d) = todo.pop() {
        for e in io(fs::read_dir(&d))? {
            let e = io(e)?;
            if io(e.file_type())?.is_dir() {
                todo.push(e.path());
            } else {
                out.insert(e.path().strip_prefix(root).unwrap().to_owned(), io(fs::read(e.path()))?);
            }
        }
    }
    Ok(out)
}

fn written(root: &Path, path: &Path) -> Result<bool, Fail> {
    let t = io(io(fs::metadata(root.join(path)))?.modified())?;
    Ok(t > OLD + Duration::from_secs(1))
}

/// Run the program: whether it succeeded, and what it said.
fn mabo(u: &Setup, cmd: &str, more: &[String]) -> Result<(bool, String), Fail> {
    let out = Command::new(crate::program("mabo"))
        .arg(cmd)
        .args(&u.args)
        .args(more)
        .current_dir(&u.cwd)
        .env("HOME", &u.dir.0)
        .env_remove("RUST_BACKTRACE")
        .stdin(Stdio::null())
        .output()
        .map_err(|e| Fail::new(format!("mabo does not run: {e}")))?;
    let said = String::from_utf8_lossy(&out.stderr).into_owned() + &String::from_utf8_lossy(&out.stdout);
    match out.status.code() {
        Some(0) => Ok((true, said)),
        Some(101) => fail!("it panics: {said}"),
        Some(_) => Ok((false, said)),
        None => fail!("it is ended by a signal: {said}"),
    }
}

fn unchanged(before: &Tree, after: &Tree) -> Ret {
    for (p, b) in before {
        match after.get(p) {
            None => fail!("{} is gone", p.display()),
            Some(a) if a != b => fail!("{} has changed to {:?}", p.display(), String::from_utf8_lossy(a)),
            _ => {}
        }
    }
    match after.keys().find(|p| !before.contains_key(*p)) {
        Some(p) => fail!("{} was created", p.display()),
        None => Ok(()),
    }
}

// ---- contents ----

const NAMES: &[&str] = &["a", "ab", "b", "ba", "types", "x1", "über"];

fn text(s: &mut Src, m: &sk::model::Schema) -> String {
    if s.chance(1, 500) {
        let mut big = m.clone();
        sk::large::grow(s, &mut big, true);
        let t = text_of(s, &big);
        // see KF-long-lines
        if t.lines().all(|l| l.len() < 60_000) {
            return t;
        }
    }
    text_of(s, m)
}

fn text_of(s: &mut Src, m: &sk::model::Schema) -> String {
    match s.below(3) {
        0 => render::plain(m),
        1 => render::schema(m, Style::Free(s)),
        // formatted already
        _ => {
            let t = render::plain(m);
            Ast::parse(&t, None).map_or(t.clone(), |a| a.to_string())
        }
    }
}

fn spoil(s: &mut Src, t: &mut String) {
    let places: Vec<usize> = t.char_indices().map(|(i, _)| i).chain([t.len()]).collect();
    let at = places[s.below(places.len())];
    match s.below(6) {
        5 => t.insert(0, '\u{feff}'),
        0 => t.insert_str(at, s.pick(&["{", "}", "struct", ";", "@1", "é", "<"])),
        1 => t.truncate(at),
        2 => t.push_str("\nstruct Twice(u8)\nstruct Twice(u8)\n"),
        3 => t.push_str("\nstruct Unknown(Nowhere)\n"),
        _ => t.push_str("\nstruct Ids(u8 @1, u8 @1)\n"),
    }
}

/// Names with contents, most of them valid.
fn contents(s: &mut Src, spoiled: &mut usize, wild: bool) -> Vec<(String, Vec<u8>)> {
    let mut out: Vec<(String, Vec<u8>)> = Vec::new();
    let set = valid::set(s, valid::Opts { schemas: 3, decls: 3, ..valid::ANY });
    for (name, m) in &set.schemas {
        out.push((name.clone(), text(s, m).into_bytes()));
    }
    if wild && s.chance(1, 3) {
        let name = *s.pick(NAMES);
        if out.iter().all(|(n, _)| n != name) {
            let m = gen_::wild_schema(s, &gen_::FULL);
            out.push((name.to_owned(), text(s, &m).into_bytes()));
        }
    }
    if s.chance(1, 600) {
        for i in 0..s.range(100, 300) {
            out.push((format!("many{i}"), format!("struct S{i} {{\n    a: u{},\n}}\n", 8 << (i % 4)).into_bytes()));
        }
    }
    if s.chance(1, 2) {
        let i = s.below(out.len());
        *spoiled += 1;
        if s.chance(1, 8) {
            out[i].1 = s.bytes(20);
        } else {
            let mut t = String::from_utf8(out[i].1.clone()).unwrap();
            spoil(s, &mut t);
            out[i].1 = t.into_bytes();
        }
    }
    out
}

// ---- K01 ----

fn check_cmd(s: &mut Src, c: &mut Case) -> Ret {
    let mut spoiled = 0;
    let files = contents(s, &mut spoiled, true);
    let u = setup(s, files, true)?;
    c.show(|| u.shown.clone());
    c.key(&u.shown);
    // what the libraries say
    let want = u.project
        && no_panic(|| {
            let mut asts = Vec::new();
            for p in &u.selected {
                let t = std::str::from_utf8(&u.files[p]).map_err(|e| e.to_string())?;
                let ast = Ast::parse(t, None).map_err(|e| e.to_string())?;
                mabo_compiler::validate_schema(&ast).map_err(|e| e.to_string())?;
                asts.push((p.file_stem().unwrap().to_str().unwrap(), ast));
            }
            let refs: Vec<_> = asts.iter().map(|(n, a)| (*n, a)).collect();
            mabo_compiler::resolve_schemas(&refs).map_err(|e| e.to_string())
        })
        .unwrap_or(Err("panic".into()))
        .is_ok();
    c.label(if want { "valid" } else { "invalid" });
    c.nontrivial(u.selected.len() >= 2 || !want);
    let (ok, said) = mabo(&u, s.pick(&["check", "c"]), &[])?;
    let names: Vec<_> = u.selected.iter().map(|p| p.display().to_string()).collect();
    ensure!(ok == want, "mabo check reports {} for {names:?}, although {}: {said}", if ok { "success" } else { "failure" }, if want { "everything is valid" } else { "something is wrong" });
    ensure!(ok || !said.trim().is_empty(), "mabo check fails without saying why");
    unchanged(&u.files, &tree(&u.dir.0.join("p"))?)
}

// ---- K02 ----

fn fmt_cmd(s: &mut Src, c: &mut Case) -> Ret {
    let mut spoiled = 0;
    let mut files = contents(s, &mut spoiled, true);
    if s.chance(1, 3) {
        // equal names in different directories
        for _ in 0..1 + s.below(3) {
            let name = files[s.below(files.len())].0.clone();
            let content = files[s.below(files.len())].1.clone();
            files.push((name, content));
        }
    }
    let u = setup(s, files, true)?;
    c.show(|| u.shown.clone());
    c.key(&u.shown);
    let root = u.dir.0.join("p");
    let mut want = u.files.clone();
    let mut unreadable = !u.project;
    if u.project {
        for p in &u.selected {
            match std::str::from_utf8(&u.files[p]) {
                Err(_) => unreadable = true,
                Ok(t) => {
                    if let Ok(Ok(f)) = no_panic(|| Ast::parse(t, None).map(|a| a.to_string())) {
                        want.insert(p.clone(), f.into_bytes());
                    }
                }
            }
        }
    }
    let n = u.files.iter().filter(|(p, b)| want[*p] != **b).count();
    c.nontrivial(n > 0 && n < u.files.len());
    c.label_if(spoiled > 0, "with a broken file");
    let (ok, said) = mabo(&u, s.pick(&["fmt", "f", "format"]), &[])?;
    let now = tree(&root)?;
    if unreadable {
        // it may give up, but never does anything else to the files
        ensure!(!ok, "mabo fmt reports success, but can't read all files: {said}");
        for (p, b) in &now {
            ensure!(u.files.get(p) == Some(b) || want.get(p) == Some(b), "{} is now {:?}, which is neither its content nor the formatted one", p.display(), String::from_utf8_lossy(b));
        }
        ensure!(now.len() == u.files.len(), "files are lost");
    } else {
        let broken = u.selected.iter().any(|p| std::str::from_utf8(&u.files[p]).is_ok_and(|t| Ast::parse(t, None).is_err()));
        ensure!(ok || broken, "mabo fmt fails: {said}");
        ensure!(!broken || !said.trim().is_empty(), "mabo fmt says nothing about a file that doesn't parse");
        unchanged(&want, &now)?;
    }
    for p in u.files.keys() {
        ensure!(want[p] != u.files[p] || !written(&root, p)?, "{} was written, although nothing about it changes", p.display());
    }
    if !unreadable {
        // formatting again changes nothing
        for p in now.keys() {
            io(io(fs::File::options().write(true).open(root.join(p)))?.set_modified(OLD))?;
        }
        mabo(&u, "fmt", &[])?;
        let again = tree(&root)?;
        for (p, b) in &now {
            // see P04 for what the formatter itself gets wrong
            let stable = std::str::from_utf8(b).is_ok_and(|t| Ast::parse(t, None).map_or(true, |a| a.to_string() == t));
            ensure!(!stable || again.get(p) == Some(b), "{} is formatted, but changes when formatting again", p.display());
            ensure!(!stable || !written(&root, p)?, "{} is formatted, but written when formatting again", p.display());
        }
    }
    Ok(())
}

// ---- K03 ----

fn pages(out: &mabo_doc::Output<'_>, base: &Path, tree: &mut Tree) {
    let mut at = base.to_owned();
    let own = out.file.ends_with("/index.html");
    for seg in &out.path[..out.path.len() - usize::from(own)] {
        at.push(&**seg);
    }
    tree.insert(at.join(&out.file), out.content.clone().into_bytes());
    for m in &out.modules {
        pages(m, base, tree);
    }
}

fn doc_cmd(s: &mut Src, c: &mut Case) -> Ret {
    let set = valid::set(s, valid::Opts { schemas: 3, decls: 3, ..valid::ANY });
    let mut files: Vec<(String, Vec<u8>)> = set.schemas.iter().map(|(n, m)| (n.clone(), text(s, m).into_bytes())).collect();
    if s.chance(1, 5) {
        let i = s.below(files.len());
        files[i].1 = if s.coin() { b"\xff".to_vec() } else { b"struct {".to_vec() };
    }
    let u = setup(s, files, false)?;
    // never outside of the scratch directory
    let outside = if u.cwd == u.dir.0 { "p/../out" } else { "../out" };
    let out = *s.pick(&["out", "deep/er/out", ".", outside, "schemas"]);
    let to = u.cwd.join(out);
    // files that are there already
    let mut before = Tree::new();
    let mut stale = None;
    if s.coin() {
        io(fs::create_dir_all(&to))?;
        io(fs::write(to.join("unrelated.html"), b"mine"))?;
        if let Some(p) = u.selected.first().filter(|_| s.coin()) {
            let n = p.file_stem().unwrap();
            let old = to.join(n).join(n);
            io(fs::create_dir_all(&old))?;
            io(fs::write(old.join("index.html"), b"old"))?;
            io(fs::write(old.join("struct.Gone.html"), b"old"))?;
            stale = Some(());
        }
    }
    c.show(|| format!("out {out} {}", u.shown));
    c.key((out, &u.shown, stale));
    let modules = set.schemas.iter().any(|(_, m)| m.count() > 2);
    c.nontrivial(u.selected.len() >= 2 || (modules && !u.selected.is_empty()));
    let rel = to.strip_prefix(&u.dir.0).unwrap_or(&to);
    // without `..`
    let rel = rel.components().fold(PathBuf::new(), |mut p, c| {
        match c {
            std::path::Component::ParentDir => {
                p.pop();
            }
            std::path::Component::CurDir => {}
            c => p.push(c),
        }
        p
    });
    let mut want = Tree::new();
    let mut fails = !u.project;
    if u.project {
        for p in &u.selected {
            let Some(t) = std::str::from_utf8(&u.files[p]).ok() else {
                fails = true;
                continue;
            };
            let Ok(ast) = Ast::parse(t, Some(Path::new(p))) else {
                fails = true;
                continue;
            };
            let simple = mabo_compiler::simplify_schema(&ast);
            let opts = mabo_doc::Opts {};
            let d = mabo_doc::render_schema(&opts, &simple).map_err(|e| Fail::new(format!("documentation: {e}")))?;
            pages(&d, &rel.join(d.name), &mut want);
        }
    }
    c.label(if fails { "fails" } else { "documented" });
    // some pages are there from before: other contents, of whatever size
    if s.coin() {
        for (p, b) in &want {
            let old = match s.below(6) {
                0 => b.clone(),
                1 => vec![b' '; b.len()],
                2 => {
                    let mut b = b.clone();
                    let at = s.below(b.len());
                    b[at] ^= 1;
                    b
                }
                3 => [b.as_slice(), b"more"].concat(),
                4 => b[..s.below(b.len())].to_vec(),
                _ => continue,
            };
            let p = u.dir.0.join(p);
            io(fs::create_dir_all(p.parent().unwrap()))?;
            io(fs::write(p, old))?;
            c.label("pages before");
        }
    }
    before.extend(tree(&u.dir.0)?);
    let (ok, said) = mabo(&u, s.pick(&["doc", "d", "document"]), &[out.to_owned()])?;
    ensure!(ok != fails, "mabo doc reports {}: {said}", if ok { "success, although not all schemas are valid" } else { "failure" });
    let now = tree(&u.dir.0)?;
    if fails {
        for (p, b) in &now {
            ensure!(before.get(p) == Some(b) || want.get(p) == Some(b), "{} was written", p.display());
        }
        return match before.keys().find(|p| !now.contains_key(*p)) {
            Some(p) => fail!("{} is gone", p.display()),
            None => Ok(()),
        };
    }
    let mut all = before;
    all.extend(want);
    unchanged(&all, &now)
}
