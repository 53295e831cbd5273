//! O01, O02: the Go code generator.

use std::{
    collections::BTreeMap,
    fmt::Write as _,
    fs,
    io::Write as _,
    path::{Path, PathBuf},
    process::{Command, Stdio},
};

use heck::{ToLowerCamelCase, ToSnakeCase, ToUpperCamelCase};
use mabo_parser::Schema as Ast;
use pbt::{Case, Check, Ret, Src, ensure, fail, no_panic};
use sk::{model::*, render, valid};

use crate::Scratch;

pub fn check(id: &str) -> Option<Check> {
    Some(match id {
        "O01" => Check::new("O01", "the schema has a struct or enum with at least two fields")
            .assume(&[
                "arrays have 1 to 32 elements (see KF-go-arrays)",
                "string constants have no characters that Rust escapes in a way Go doesn't know (see KF-go-escapes)",
                "comments have neither NUL characters nor byte order marks, which Go doesn't allow anywhere",
                "the parts of a file that other known findings are about are compared with what they are now",
            ])
            .part("translation", 6_000, 150_000, translation)
            .part("large_schemas", 80, 600, large_translation)
            .probe("KF-go-arrays", || probe("struct A(\n[u8; 33])", |_| Ok(())))
            .probe("KF-go-escapes", || probe("const A: string = \"\\b\";", |t| if gofmt(t).is_ok() { Ok(()) } else { Err("the constant \"\\b\" is no valid Go string".into()) }))
            .probe("KF-go-optional", || probe("struct A(option<u8>)", |t| if t.contains("if !foundN0") { Err("decoding a struct fails without its optional field".into()) } else { Ok(()) }))
            .probe("KF-go-enums", || probe("enum A { B(u8) }", |t| if t.contains("return nil\n}\n\nvar _ buf.Decode") { Err("encoding an enum variant returns nothing".into()) } else { Ok(()) }))
            .probe("KF-go-end-marker", || probe("struct A(u8)", |t| if t.contains("case buf.EndMarker:\n\t\t\t\tbreak\n") { Err("decoding doesn't stop at the end marker: the break only leaves the switch".into()) } else { Ok(()) }))
            .probe("KF-go-tuples", || probe("struct A((u8, bool))", |t| if t.contains("tuple.F0 = value0") && !t.contains("var tuple") && !t.contains("tuple :=") { Err("decoding a tuple refers to an undeclared variable".into()) } else { Ok(()) }))
            .probe("KF-go-nested-decode", || probe("struct A(B)\nstruct B", |t| if t.contains("([]byte, B, error) {") && t.contains("return value.Decode(r)") { Err("the closure that decodes a B returns two of its three results".into()) } else { Ok(()) }))
            .probe("KF-go-bounds", || probe("struct A<T>(T)", |t| if t.contains("[T any]") && t.contains("v.N0.Encode(w)") { Err("Encode is called on a type parameter that is not known to have it".into()) } else { Ok(()) }))
            .probe("KF-go-big-constants", || probe("const A: u128 = 1;", |t| if t.contains("*big.Int = 1\n") { Err("the value of a *big.Int is a plain number".into()) } else { Ok(()) }))
            .probe("KF-go-method-names", || probe("struct A {\nsize: u8 }", |t| if t.contains("Size uint8") && t.contains(") Size() int") { Err("there is a field and a method of the name Size".into()) } else { Ok(()) }))
            .probe("KF-go-imports", || probe("struct A(u128)", |t| if t.contains("\"math/big\"") { Ok(()) } else { Err("math/big is used but not imported".into()) })),
        "O02" => Check::new("O02", "the project has at least one module or an invalid schema")
            .assume(&["the project has one schema (see KF-go-schemas)", "what O01 leaves out is left out here as well"])
            .part("project", 4_000, 120_000, project)
            .probe("KF-go-schemas", two_schemas),
        _ => return None,
    })
}

// ---- expected code ----

fn up(n: &str) -> String {
    n.to_upper_camel_case()
}

const KEYWORDS: &[&str] = &[
    "break", "case", "chan", "const", "continue", "default", "defer", "else", "fallthrough", "for", "func", "go", "goto", "if", "import", "interface", "map", "package", "range", "return", "select", "struct", "switch",
    "type", "var",
];

fn ident(n: String) -> String {
    if KEYWORDS.contains(&&n[..]) { n + "_" } else { n }
}

fn scalar(p: &str) -> (&'static str, &'static str) {
    match p {
        "bool" => ("bool", "Bool"),
        "u8" => ("uint8", "U8"),
        "u16" => ("uint16", "U16"),
        "u32" => ("uint32", "U32"),
        "u64" => ("uint64", "U64"),
        "u128" => ("*big.Int", "U128"),
        "i8" => ("int8", "I8"),
        "i16" => ("int16", "I16"),
        "i32" => ("int32", "I32"),
        "i64" => ("int64", "I64"),
        "i128" => ("*big.Int", "I128"),
        "f32" => ("float32", "F32"),
        "f64" => ("float64", "F64"),
        "string" | "&string" | "box<string>" => ("string", "String"),
        _ => ("[]byte", "Bytes"),
    }
}

fn args(ts: &[Ty]) -> String {
    if ts.is_empty() { String::new() } else { format!("[{}]", ts.iter().map(ty).collect::<Vec<_>>().join(", ")) }
}

fn ty(t: &Ty) -> String {
    match t {
        Ty::Prim(p) => scalar(p).0.to_owned(),
        Ty::Vec(t) => format!("[]{}", ty(t)),
        Ty::Map(k, v) => format!("map[{}]{}", ty(k), ty(v)),
        Ty::Set(t) => format!("map[{}]struct{{}}", ty(t)),
        Ty::Opt(t) => format!("*{}", ty(t)),
        Ty::NonZero(t) => match &**t {
            Ty::Prim(p) => format!("mabo.NonZero{}", scalar(p).1),
            Ty::Vec(t) => format!("mabo.NonZeroVec[{}]", ty(t)),
            Ty::Map(k, v) => format!("mabo.NonZeroHashMap[{}, {}]", ty(k), ty(v)),
            Ty::Set(t) => format!("mabo.NonZeroHashSet[{}]", ty(t)),
            t => panic!("non_zero<{t:?}>"),
        },
        Ty::Tuple(ts) => format!("mabo.Tuple{}{}", ts.len(), args(ts)),
        Ty::Array(t, n) => format!("[{n}]{}", ty(t)),
        Ty::Ext { path, name, generics } => match path.last() {
            Some(p) => format!("{}.{}{}", ident(p.clone()), up(name), args(generics)),
            None => format!("{}{}", up(name), args(generics)),
        },
    }
}

/// Encoding (`enc`) or size of a value.
fn put(t: &Ty, v: &str, enc: bool) -> String {
    let (verb, w, sig, ret) = if enc { ("Encode", "w, ", "w []byte, ", "[]byte") } else { ("Size", "", "", "int") };
    let each = |t: &Ty, n: &str| format!("func({sig}{n} {}) {ret} {{ return {} }}", ty(t), put(t, n, enc));
    match t {
        Ty::Prim(p) => format!("buf.{verb}{}({w}{v})", scalar(p).1),
        Ty::Vec(t) => format!("buf.{verb}Vec[{}]({w}{v}, {})", ty(t), each(t, "v")),
        Ty::Set(t) => format!("buf.{verb}HashSet[{}]({w}{v}, {})", ty(t), each(t, "v")),
        Ty::Opt(t) => format!("buf.{verb}Option[{}]({w}{v}, {})", ty(t), each(t, "v")),
        Ty::Array(t, n) => format!("buf.{verb}Array{n}[{}]({w}{v}, {})", ty(t), each(t, "v")),
        Ty::Map(k, x) => format!("buf.{verb}HashMap[{}, {}]({w}{v}, {}, {},)", ty(k), ty(x), each(k, "k"), each(x, "v")),
        Ty::NonZero(t) => put(t, &format!("{v}.Get()"), enc),
        Ty::Tuple(ts) if enc => format!("func (w []byte) []byte {{ {} return w }}(w)", ts.iter().enumerate().map(|(i, t)| format!("w = {} ", put(t, &format!("{v}.F{i}"), enc))).collect::<String>()),
        Ty::Tuple(ts) => format!("func() int {{ size := 0 {} return size }}(size)", ts.iter().enumerate().map(|(i, t)| format!("size += {} ", put(t, &format!("{v}.F{i}"), enc))).collect::<String>()),
        Ty::Ext { .. } => format!("{v}.{verb}({})", if enc { "w" } else { "" }),
    }
}

fn get(t: &Ty) -> String {
    let each = |t: &Ty| format!("func(r []byte) ([]byte, {}, error) {{ return {} }}", ty(t), get(t));
    let one = |name: &str, t: &Ty| format!("buf.Decode{name}[{}](r, {})", ty(t), each(t));
    let pair = |name: &str, k: &Ty, v: &Ty| format!("buf.Decode{name}[{}, {}](r, {}, {},)", ty(k), ty(v), each(k), each(v));
    match t {
        Ty::Prim(p) => format!("buf.Decode{}(r)", scalar(p).1),
        Ty::Vec(t) => one("Vec", t),
        Ty::Set(t) => one("HashSet", t),
        Ty::Opt(t) => one("Option", t),
        Ty::Array(t, n) => one(&format!("Array{n}"), t),
        Ty::Map(k, v) => pair("HashMap", k, v),
        Ty::NonZero(t) => match &**t {
            Ty::Prim(p) => format!("buf.DecodeNonZero{}(r)", scalar(p).1),
            Ty::Vec(t) => one("NonZeroVec", t),
            Ty::Set(t) => one("NonZeroHashSet", t),
            Ty::Map(k, v) => pair("NonZeroHashMap", k, v),
            t => panic!("non_zero<{t:?}>"),
        },
        Ty::Tuple(ts) => format!(
            "func (r []byte) ([]byte, buf.Tuple{}, error) {{ {} return r, tuple, nil }}(r)",
            ts.len(),
            ts.iter().enumerate().map(|(i, t)| format!("r2, value{i}, err := {} if err != nil {{ return nil, value, err }} r = r2 tuple.F{i} = value{i} ", get(t))).collect::<String>()
        ),
        Ty::Ext { .. } => format!("func(r []byte) ([]byte, {0}, error) {{ var value {0} return value.Decode(r) }}(r)", ty(t)),
    }
}

fn comment(c: &[String], out: &mut String) {
    for l in c {
        let _ = writeln!(out, "// {}", l);
    }
}

/// A struct, or the variant of an enum.
fn params(generics: &[String]) -> String {
    if generics.is_empty() { String::new() } else { format!("[{}]", generics.iter().map(|g| format!("{g} any")).collect::<Vec<_>>().join(", ")) }
}

fn data(name: &str, doc: &[String], generics: &[String], fields: &Fields, variant: bool, out: &mut String) {
    comment(doc, out);
    let l = fields.list();
    let names = if generics.is_empty() { String::new() } else { format!("[{}]", generics.join(", ")) };
    let decl = params(generics);
    let full = format!("{name}{names}");
    if l.is_empty() {
        let _ = writeln!(out, "type {name}{decl} struct{{}}");
    } else {
        let _ = writeln!(out, "type {name}{decl} struct {{");
        for f in l {
            comment(&f.comment, out);
            let _ = writeln!(out, "{} {}", up(&f.name), ty(&f.ty));
        }
        out.push_str("}\n");
    }
    if variant {
        let _ = writeln!(out, "func (v {full}) sealed() {{}}");
    }
    let params: String = l.iter().map(|f| format!("{} {},", ident(f.name.to_lower_camel_case()), ty(&f.ty))).collect();
    let inits: String = l.iter().map(|f| format!("{}: {},", up(&f.name), ident(f.name.to_lower_camel_case()))).collect();
    let _ = writeln!(out, "func New{name}{decl}({params}) {full} {{ return {full}{{{inits}}} }}");
    let unit = matches!(fields, Fields::Unit);
    let all = |enc: bool| -> String {
        let (w, call, sig, ret, eq) = if enc { ("w, ", "Encode", "w []byte", "[]byte", "w =") } else { ("", "Size", "", "int", "size +=") };
        let mut t = String::new();
        for f in l {
            let (n, id) = (up(&f.name), f.id.unwrap());
            match &f.ty {
                Ty::Opt(o) => {
                    let sep = if enc { ", " } else { "" };
                    let _ = writeln!(t, "{eq} buf.{call}FieldOption[{}]({w}{id}, &v.{n}, func ({sig}{sep}v {0}) {ret} {{ return {} }})", ty(o), put(o, "v", enc));
                }
                o => {
                    let _ = writeln!(t, "{eq} buf.{call}Field({w}{id}, func ({sig}) {ret} {{ return {} }})", put(o, &format!("v.{n}"), enc));
                }
            }
        }
        if !unit {
            t.push_str(if enc { "w = buf.EncodeU32(w, buf.EndMarker)\n" } else { "size += buf.EndMarkerSize\n" });
        }
        t
    };
    // see KF-go-enums
    let _ = writeln!(out, "var _ buf.Encode = (*{full})(nil)\nfunc (v *{full}) Encode(w []byte) []byte {{ {} return {} }}", all(true), if variant { "nil" } else { "w" });
    let found: String = l.iter().map(|f| format!("found{} := false\n", up(&f.name))).collect();
    let cases: String = l.iter().map(|f| format!("case {}: r2, value, err := {}\nif err != nil {{ return nil, err }} r = r2 v.{n} = value found{n} = true\n", f.id.unwrap(), get(&f.ty), n = up(&f.name))).collect();
    // see KF-go-optional
    let missing: String = l
        .iter()
        .map(|f| format!("if !found{} {{ return nil, buf.MissingFieldError{{ ID: {}, Field: \"{}\", }} }}\n", up(&f.name), f.id.unwrap(), if matches!(fields, Fields::Named(_)) { &f.name } else { "" }))
        .collect();
    // see KF-go-end-marker
    let _ = writeln!(
        out,
        "var _ buf.Decode = (*{full})(nil)\nfunc (v *{full}) Decode(r []byte) ([]byte, error) {{ {found} for len(r) > 0 {{ r2, id, err := buf.DecodeID(r) if err != nil {{ return nil, err }} r = r2 switch id {{ {cases} case buf.EndMarker: break }} }} {missing} return r, nil }}"
    );
    let _ = writeln!(out, "var _ buf.Size = (*{full})(nil)\nfunc (v *{full}) Size() int {{ size := 0 {} return size }}", all(false));
}

fn string(t: &str) -> String {
    format!("{t:?}")
}

fn file(package: &str, doc: &[String], defs: &[Def], dir: &Path, out: &mut BTreeMap<PathBuf, String>) {
    let mut t = String::from("// Code generated DO NOT EDIT.\n");
    comment(doc, &mut t);
    let _ = writeln!(t, "package {}\nimport ( mabo \"github.com/dnaka91/mabo-go\" buf \"github.com/dnaka91/mabo-go/buf\" )", ident(package.to_snake_case()));
    for d in defs {
        match d {
            Def::Mod { comment, name, defs } => file(name, comment, defs, &dir.join(name), out),
            Def::Struct { comment, name, generics, fields, .. } => data(&up(name), comment, generics, fields, false, &mut t),
            Def::Enum { comment: doc, name, generics, variants, .. } => {
                let n = up(name);
                let _ = writeln!(t, "type {n}Variant interface {{ sealed() }}");
                comment(doc, &mut t);
                let _ = writeln!(t, "type {n} {n}Variant");
                for v in variants {
                    let mine: Vec<String> = generics.iter().filter(|g| v.fields.list().iter().any(|f| uses(&f.ty, g))).cloned().collect();
                    data(&format!("{n}_{}", up(&v.name)), &v.comment, &mine, &v.fields, true, &mut t);
                }
            }
            Def::Alias { comment: doc, name, generics, target } => {
                comment(doc, &mut t);
                let _ = writeln!(t, "type {}{} {}", up(name), params(generics), ty(target));
            }
            Def::Const { comment: doc, name, ty: kind, value } => {
                comment(doc, &mut t);
                let word = if matches!(ty(kind).as_str(), "[]byte" | "*big.Int") { "var" } else { "const" };
                let value = match value {
                    Lit::Bool(b) => b.to_string(),
                    Lit::Int(i) => i.to_string(),
                    Lit::Float(f) => f.to_string(),
                    Lit::Str(s) => string(s),
                    Lit::Bytes(b) => format!("[]byte{{{}}}", b.iter().map(u8::to_string).collect::<Vec<_>>().join(", ")),
                };
                let _ = writeln!(t, "{word} {} {} = {value}", up(name), ty(kind));
            }
            Def::Use { .. } => {}
        }
    }
    out.insert(dir.join(format!("{}.go", dir.file_name().unwrap().to_str().unwrap())), t);
}

/// The parameter is used by the fields of a variant, at any depth.
fn uses(t: &Ty, g: &str) -> bool {
    match t {
        Ty::Ext { path, name, generics } if generics.is_empty() => path.is_empty() && name == g,
        t => t.children().iter().any(|c| uses(c, g)),
    }
}

// ---- Go source ----

/// Words of Go source code; constants are compared by value.
fn tokens(t: &str) -> Vec<String> {
    let mut out = Vec::new();
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < c.len() {
        let start = i;
        if c[i].is_whitespace() {
            i += 1;
            continue;
        }
        if c[i] == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
            let l: String = c[start..i].iter().collect();
            let l = l.trim_end();
            out.push(if l.starts_with("// Code generated") && l.ends_with("DO NOT EDIT.") { "// generated".into() } else { format!("// {}", l[2..].strip_prefix(' ').unwrap_or(&l[2..])) });
            continue;
        }
        if c[i] == '"' {
            i += 1;
            while i < c.len() && c[i] != '"' {
                i += if c[i] == '\\' { 2 } else { 1 };
            }
            i += 1;
        } else if c[i].is_alphanumeric() || c[i] == '_' {
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || (c[i] == '.' && c[start].is_ascii_digit())) {
                i += 1;
            }
        } else {
            i += 1;
        }
        out.push(c[start..i.min(c.len())].iter().collect());
    }
    // a comma before a closing bracket is a matter of layout
    let mut k = 0;
    while k + 1 < out.len() {
        if out[k] == "," && matches!(&out[k + 1][..], ")" | "}" | "]") {
            out.remove(k);
        } else {
            k += 1;
        }
    }
    out
}

/// Let Go's own parser have a look.
fn gofmt(t: &str) -> Result<(), String> {
    let mut p = Command::new("gofmt").arg("-e").env("HOME", "/nonexistent").env("XDG_CONFIG_HOME", "/nonexistent").stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::piped()).spawn().map_err(|e| format!("gofmt: {e}"))?;
    let mut stdin = p.stdin.take().unwrap();
    let text = t.to_owned();
    let w = std::thread::spawn(move || stdin.write_all(text.as_bytes()));
    let out = p.wait_with_output().map_err(|e| e.to_string())?;
    let _ = w.join();
    if out.status.success() { Ok(()) } else { Err(String::from_utf8_lossy(&out.stderr).into_owned()) }
}

fn probe(schema: &str, f: impl Fn(&str) -> Result<(), String>) -> Result<(), String> {
    let ast = Ast::parse(schema, None).map_err(|e| e.to_string())?;
    let simple = mabo_compiler::simplify_schema(&ast);
    let text = no_panic(|| mabo_go::render_schema(&mabo_go::Opts { package: "p" }, &simple).content)?;
    f(&text)
}

fn same(got: &str, want: &str, what: &str) -> Ret {
    let (a, b) = (tokens(got), tokens(want));
    if a == b {
        return Ok(());
    }
    let at = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let near = |v: &[String]| v[at.saturating_sub(12)..v.len().min(at + 12)].join(" ");
    fail!("{what}: expected `{}`, but found `{}`", near(&b), near(&a))
}

// ---- schemas ----

fn tame(s: &mut Src, t: &mut Ty) {
    match t {
        Ty::Array(t, n) => {
            if !(1..=32).contains(n) {
                *n = 1 + s.below(32) as u32;
            }
            tame(s, t);
        }
        Ty::Vec(t) | Ty::Set(t) | Ty::Opt(t) | Ty::NonZero(t) => tame(s, t),
        Ty::Map(k, v) => {
            tame(s, k);
            tame(s, v);
        }
        Ty::Tuple(ts) | Ty::Ext { generics: ts, .. } => ts.iter_mut().for_each(|t| tame(s, t)),
        Ty::Prim(_) => {}
    }
}

fn adapt(s: &mut Src, defs: &mut [Def]) {
    fn fields(s: &mut Src, f: &mut Fields) {
        let named = matches!(f, Fields::Named(_));
        let mut names: Vec<String> = f.list().iter().map(|f| f.name.clone()).collect();
        for (i, f) in f.list_mut().into_iter().flatten().enumerate() {
            tame(s, &mut f.ty);
            if named && s.chance(1, 12) {
                let n = (*s.pick(&["func", "range", "map", "go", "interface", "chan", "defer", "select", "var", "default", "package", "goto"])).to_owned();
                if !names.contains(&n) {
                    names[i].clone_from(&n);
                    f.name = n;
                }
            }
        }
    }
    for d in defs {
        match d {
            Def::Mod { defs, .. } => adapt(s, defs),
            Def::Struct { fields: f, .. } => fields(s, f),
            Def::Enum { variants, .. } => variants.iter_mut().for_each(|v| fields(s, &mut v.fields)),
            Def::Alias { target, .. } => tame(s, target),
            Def::Const { value: Lit::Str(t), .. } => t.retain(|c| !format!("{c:?}").contains(['{', '0']) || c == '0' || c == '{'),
            _ => {}
        }
    }
}

fn comments(defs: &mut [Def]) {
    let clean = |c: &mut Vec<String>| c.iter_mut().for_each(|l| l.retain(|c| c != '\0' && c != '\u{feff}'));
    let fields = |f: &mut Fields| f.list_mut().into_iter().flatten().for_each(|f| clean(&mut f.comment));
    for d in defs {
        match d {
            Def::Mod { comment, defs, .. } => {
                clean(comment);
                comments(defs);
            }
            Def::Struct { comment, fields: f, .. } => {
                clean(comment);
                fields(f);
            }
            Def::Enum { comment, variants, .. } => {
                clean(comment);
                for v in variants {
                    clean(&mut v.comment);
                    fields(&mut v.fields);
                }
            }
            Def::Alias { comment, .. } | Def::Const { comment, .. } => clean(comment),
            Def::Use { .. } => {}
        }
    }
}

fn schema(s: &mut Src) -> Schema {
    let mut m = valid::set(s, valid::Opts { schemas: 1, ..valid::CODE }).schemas.remove(0).1;
    if s.chance(1, 4) {
        let n = 1 + s.below(4);
        let mut more = valid::constants(s, n).schemas.remove(0).1;
        m.defs.append(&mut more.defs);
    }
    adapt(s, &mut m.defs);
    comments(&mut m.defs);
    m
}

fn biggest(m: &Schema) -> usize {
    let mut n = 0;
    m.walk(&mut |_, d| match d {
        Def::Struct { fields, .. } => n = n.max(fields.list().len()),
        Def::Enum { variants, .. } => n = variants.iter().map(|v| v.fields.list().len()).max().unwrap_or(0).max(n),
        _ => {}
    });
    n
}

// ---- O01 ----

fn collect(out: &mabo_go::Output<'_>, dir: &Path, files: &mut BTreeMap<PathBuf, String>) {
    let dir = dir.join(out.name);
    files.insert(dir.join(format!("{}.go", out.name)), out.content.clone());
    for m in &out.modules {
        collect(m, &dir, files);
    }
}

fn translation(s: &mut Src, c: &mut Case) -> Ret {
    let m = schema(s);
    translation_of(m, s, c)
}

fn large_translation(s: &mut Src, c: &mut Case) -> Ret {
    let mut m = schema(s);
    c.label(sk::large::grow(s, &mut m, true));
    for d in &mut m.defs {
        // see KF-go-escapes
        if let Def::Const { value: Lit::Str(t), .. } = d {
            t.retain(|ch| ch != '\u{3000}');
        }
    }
    translation_of(m, s, c)
}

fn translation_of(m: Schema, s: &mut Src, c: &mut Case) -> Ret {
    let package = *s.pick(&["p", "sample", "my_package", "type", "range"]);
    let text = render::plain(&m);
    c.show(|| format!("package {package}\n{text}"));
    c.key((package, &text));
    c.nontrivial(biggest(&m) >= 2);
    let ast = Ast::parse(&text, None).map_err(|e| format!("parse: {e}"))?;
    let simple = mabo_compiler::simplify_schema(&ast);
    let opts = mabo_go::Opts { package };
    let out = no_panic(|| mabo_go::render_schema(&opts, &simple)).map_err(|e| format!("the generator panics: {e}"))?;
    let mut files = BTreeMap::new();
    collect(&out, Path::new(""), &mut files);
    let mut want = BTreeMap::new();
    file(package, &[], &simplified(&m).defs, Path::new(package), &mut want);
    ensure!(files.keys().eq(want.keys()), "the files are {:?} instead of {:?}", files.keys(), want.keys());
    for (p, t) in &files {
        gofmt(t).map_err(|e| format!("{} is not valid Go: {e}", p.display()))?;
        same(t, &want[p], &p.display().to_string())?;
    }
    c.count("files", files.len() as u64);
    Ok(())
}

// ---- O02 ----

fn go(dir: &Path, args: &[&str]) -> Result<(bool, String), String> {
    let out = Command::new(crate::program("mabo-go")).args(args).current_dir(dir).env("HOME", "/nonexistent").env("XDG_CONFIG_HOME", "/nonexistent").env_remove("RUST_BACKTRACE").stdin(Stdio::null()).output().map_err(|e| e.to_string())?;
    Ok((out.status.success(), String::from_utf8_lossy(&out.stderr).into_owned()))
}

fn tree(dir: &Path) -> BTreeMap<PathBuf, String> {
    let mut out = BTreeMap::new();
    let mut todo = vec![dir.to_owned()];
    while let Some(d) = todo.pop() {
        for e in fs::read_dir(d).into_iter().flatten().flatten() {
            if e.path().is_dir() {
                todo.push(e.path());
            } else {
                out.insert(e.path().strip_prefix(dir).unwrap().to_owned(), fs::read_to_string(e.path()).unwrap_or_default());
            }
        }
    }
    out
}

fn project(s: &mut Src, c: &mut Case) -> Ret {
    let m = schema(s);
    let package = *s.pick(&["p", "sample", "my_package"]);
    let mut text = render::plain(&m);
    if s.chance(1, 4) {
        text.push_str(s.pick(&["struct", "\nstruct Twice(u8)\nstruct Twice(u8)\n", "\nstruct Unknown(Nowhere)\n", "\nstruct Ids(u8 @1, u8 @1)\n", "@"]));
    }
    let fmt = s.chance(1, 3);
    c.show(|| format!("package {package} gofmt {fmt}\n{text}"));
    c.key((package, fmt, &text));
    let io = |r: std::io::Result<()>| r.map_err(|e| e.to_string());
    let dir = Scratch::new();
    let root = dir.0.join("p");
    io(fs::create_dir(&root))?;
    io(fs::write(root.join("Mabo.toml"), format!("[package]\nname = {package:?}\nfiles = [\"a.mabo\"]\n")))?;
    io(fs::write(root.join("a.mabo"), &text))?;
    io(fs::write(root.join("other.mabo"), "struct ("))?;
    let want_ok = no_panic(|| {
        let ast = Ast::parse(&text, None).map_err(|e| e.to_string())?;
        mabo_compiler::validate_schema(&ast).map_err(|e| e.to_string())?;
        mabo_compiler::resolve_schemas(&[("a", &ast)]).map_err(|e| e.to_string())
    })?
    .is_ok();
    c.nontrivial(!want_ok || m.defs.iter().any(|d| matches!(d, Def::Mod { .. })));
    c.label(if want_ok { "valid" } else { "invalid" });
    // with a different place for input and output
    let out = *s.pick(&["out", "o/ut", "p"]);
    let mut args = vec!["--project-dir", "p", "--out-dir", out];
    if !fmt {
        args.push("--no-fmt");
    }
    let mut want = BTreeMap::new();
    if want_ok {
        file(package, &[], &simplified(&m).defs, Path::new(package), &mut want);
    }
    let places: Vec<PathBuf> = want.keys().map(|p| Path::new(out).join(p)).collect();
    // files from before, some of them at the place of the output
    if s.chance(1, 3) {
        if want_ok && s.coin() {
            go(&dir.0, &args)?;
        }
        for p in &places {
            let p = dir.0.join(p);
            let b = fs::read(&p).unwrap_or_default();
            let old = match s.below(5) {
                0 => vec![b' '; b.len()],
                1 if !b.is_empty() => {
                    let mut b = b;
                    let at = s.below(b.len());
                    b[at] ^= 1;
                    b
                }
                2 => [b.as_slice(), b"\ntype More struct{}\n"].concat(),
                3 => b[..s.below(b.len() + 1)].to_vec(),
                _ => continue,
            };
            io(fs::create_dir_all(p.parent().unwrap()))?;
            io(fs::write(p, old))?;
        }
        io(fs::create_dir_all(dir.0.join(out)))?;
        io(fs::write(dir.0.join(out).join("mine.txt"), "mine"))?;
        c.label("files before");
    }
    let mut before = tree(&dir.0);
    let (ok, said) = go(&dir.0, &args)?;
    ensure!(ok == want_ok, "mabo-go reports {}: {said}", if ok { "success for an invalid schema" } else { "failure" });
    let now = tree(&dir.0);
    before.retain(|p, _| !places.contains(p));
    for (p, t) in &before {
        ensure!(now.get(p) == Some(t), "{} has changed", p.display());
    }
    let new: BTreeMap<PathBuf, &String> = now.iter().filter(|(p, _)| !before.contains_key(*p)).map(|(p, t)| (p.clone(), t)).collect();
    ensure!(new.keys().eq(places.iter()), "the files {:?} are written instead of {places:?}", new.keys());
    if !fmt {
        for (p, t) in &want {
            same(new[&Path::new(out).join(p)], t, &p.display().to_string())?;
        }
    }
    Ok(())
}

/// All schemas of a project are translated.
fn two_schemas() -> Result<(), String> {
    let dir = Scratch::new();
    for (n, t) in [("Mabo.toml", "[package]\nname = \"p\"\nfiles = [\"*.mabo\"]\n"), ("a.mabo", "struct A(u8)"), ("b.mabo", "struct B(u8)")] {
        fs::write(dir.0.join(n), t).map_err(|e| e.to_string())?;
    }
    let (ok, said) = go(&dir.0, &["--no-fmt"])?;
    if !ok {
        return Err(said);
    }
    let all: String = tree(&dir.0).into_iter().filter(|(p, _)| p.extension().is_some_and(|e| e == "go")).map(|(_, t)| t).collect();
    if all.contains("type A ") && all.contains("type B ") { Ok(()) } else { Err("of two schemas only one is translated".into()) }
}
