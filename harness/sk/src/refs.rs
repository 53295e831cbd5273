//! Reference semantics of names: which definition a type reference means, across modules and
//! schemas, and what the compiler is expected to reject.

use crate::model::*;

/// A set of schemas that are compiled together.
#[derive(Clone, Debug, PartialEq)]
pub struct Set {
    pub schemas: Vec<(String, Schema)>,
}

/// Where a reference leads.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Target {
    Param(usize),
    Def { schema: usize, path: Vec<String>, name: String },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    Ok(Target),
    Bad(&'static str),
    /// The documentation does not say (imports within modules, imported names within modules).
    Open,
}

pub fn module<'a>(defs: &'a [Def], path: &[String]) -> Option<&'a [Def]> {
    let Some((first, rest)) = path.split_first() else { return Some(defs) };
    defs.iter().find_map(|d| match d {
        Def::Mod { name, defs, .. } if name == first => Some(defs),
        _ => None,
    })
    .and_then(|d| module(d, rest))
}

fn decl<'a>(defs: &'a [Def], name: &str) -> Option<&'a Def> {
    defs.iter().find(|d| !matches!(d, Def::Mod { .. } | Def::Use { .. }) && d.name() == name)
}

pub fn generics_of(d: &Def) -> Option<&[String]> {
    match d {
        Def::Struct { generics, .. } | Def::Enum { generics, .. } => Some(generics),
        _ => None,
    }
}

fn usable(d: Option<&Def>, count: usize) -> Result<(), &'static str> {
    match d {
        None => Err("missing definition"),
        Some(d) => match generics_of(d) {
            None => Err("neither a struct nor an enum"),
            Some(g) if g.len() != count => Err("wrong number of type arguments"),
            Some(_) => Ok(()),
        },
    }
}

/// What the import of a schema brings in, or why it is wrong.
pub enum Import<'a> {
    Module { name: &'a str, schema: usize, path: Vec<String> },
    Type { name: &'a str, schema: usize, path: Vec<String> },
}

pub fn import<'a>(set: &'a Set, d: &'a Def) -> Result<Import<'a>, &'static str> {
    let Def::Use { segments, element } = d else { unreachable!() };
    let schema = set.schemas.iter().position(|(n, _)| *n == segments[0]).ok_or("missing schema")?;
    let path = segments[1..].to_vec();
    let defs = module(&set.schemas[schema].1.defs, &path).ok_or("missing module")?;
    match element {
        None => Ok(Import::Module { name: segments.last().unwrap(), schema, path }),
        Some(e) => match decl(defs, e) {
            None => Err("missing definition"),
            Some(d) if generics_of(d).is_none() => Err("neither a struct nor an enum"),
            Some(_) => Ok(Import::Type { name: e, schema, path }),
        },
    }
}

/// What a reference within the module `at` of schema `schema` means.
pub fn lookup(set: &Set, schema: usize, at: &[String], params: &[String], path: &[String], name: &str, count: usize) -> Verdict {
    if path.is_empty() && count == 0 {
        if let Some(i) = params.iter().position(|p| p == name) {
            return Verdict::Ok(Target::Param(i));
        }
    }
    let root = &set.schemas[schema].1.defs;
    let here = module(root, at).expect("module exists");
    let local = match module(here, path) {
        None => Err("missing module"),
        Some(m) => usable(decl(m, name), count),
    };
    let why = match local {
        Ok(()) => {
            let mut full = at.to_vec();
            full.extend_from_slice(path);
            return Verdict::Ok(Target::Def { schema, path: full, name: name.to_owned() });
        }
        Err(why) => why,
    };
    // the name belongs to this module, but cannot be used like that
    let mut clash = false;
    if path.is_empty() {
        clash = decl(here, name).is_some();
    } else if module(here, &path[..1]).is_some() {
        clash = true;
    }
    let mut found: Option<Result<Target, &'static str>> = None;
    for d in root {
        if !matches!(d, Def::Use { .. }) {
            continue;
        }
        match import(set, d) {
            Err(_) => {}
            Ok(Import::Module { name: n, schema, path: base }) if !path.is_empty() && n == path[0] => {
                let mut full = base;
                full.extend_from_slice(&path[1..]);
                found.get_or_insert(match module(&set.schemas[schema].1.defs, &full) {
                    None => Err("missing module"),
                    Some(m) => usable(decl(m, name), count).map(|()| Target::Def { schema, path: full, name: name.to_owned() }),
                });
            }
            Ok(Import::Type { name: n, schema, path: base }) if path.is_empty() && n == name => {
                let m = module(&set.schemas[schema].1.defs, &base).unwrap();
                found.get_or_insert(usable(decl(m, name), count).map(|()| Target::Def { schema, path: base, name: name.to_owned() }));
            }
            Ok(_) => {}
        }
    }
    let nested_imports = !at.is_empty() && here.iter().any(|d| matches!(d, Def::Use { .. }));
    match found {
        // only sensible in the module that has the import, and without a competing local name
        Some(Ok(t)) if at.is_empty() && !clash => Verdict::Ok(t),
        Some(Ok(_)) => Verdict::Open,
        Some(Err(why)) => Verdict::Bad(why),
        None if nested_imports => Verdict::Open,
        None => Verdict::Bad(why),
    }
}

/// One reference or import that is judged.
pub struct Judged {
    pub schema: usize,
    pub at: Vec<String>,
    /// The texts an error about it may point at.
    pub names: Vec<String>,
    /// The whole path as written.
    pub written: String,
    pub verdict: Verdict,
}

pub fn field_types(d: &Def) -> Vec<&Ty> {
    match d {
        Def::Struct { fields, .. } => fields.list().iter().map(|f| &f.ty).collect(),
        Def::Enum { variants, .. } => variants.iter().flat_map(|v| v.fields.list()).map(|f| &f.ty).collect(),
        Def::Alias { target, .. } => vec![target],
        Def::Const { ty, .. } => vec![ty],
        _ => vec![],
    }
}

/// Every reference and import of the set.
pub fn judge(set: &Set) -> Vec<Judged> {
    let mut out = Vec::new();
    for (i, (_, schema)) in set.schemas.iter().enumerate() {
        schema.walk(&mut |at, d| {
            let at: Vec<String> = at.iter().map(|s| (*s).to_owned()).collect();
            if let Def::Use { segments, element } = d {
                let verdict = match import(set, d) {
                    _ if !at.is_empty() => Verdict::Open,
                    Ok(Import::Module { schema, path, .. } | Import::Type { schema, path, .. }) => Verdict::Ok(Target::Def { schema, path, name: element.clone().unwrap_or_default() }),
                    Err(why) => Verdict::Bad(why),
                };
                let names: Vec<String> = segments.iter().chain(element).cloned().collect();
                out.push(Judged { schema: i, at: at.clone(), written: names.join("::"), names, verdict });
            }
            let params: &[String] = match d {
                Def::Struct { generics, .. } | Def::Enum { generics, .. } | Def::Alias { generics, .. } => generics,
                _ => &[],
            };
            for t in field_types(d) {
                t.walk(&mut |t| {
                    if let Ty::Ext { path, name, generics } = t {
                        let verdict = lookup(set, i, &at, params, path, name, generics.len());
                        let written = path.iter().chain([name]).cloned().collect::<Vec<_>>().join("::");
                        out.push(Judged { schema: i, at: at.clone(), names: vec![name.clone()], written, verdict });
                    }
                });
            }
        });
    }
    out
}

/// A reason to reject a single schema.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Violation {
    VariantId { id: u32, name: String, other: String },
    NamedFieldId { id: u32, name: String, other: String },
    UnnamedFieldId { id: u32, position: usize, other: usize },
    VariantName(String),
    FieldName(String),
    DefName(String),
    DuplicateGeneric(String),
    UnusedGeneric(String),
    Tuple(usize),
}

/// All reasons to reject a schema. Every pair that clashes is listed with its first occurrence.
pub fn violations(s: &Schema) -> Vec<Violation> {
    let mut out = Vec::new();
    scope(&s.defs, &mut out);
    out
}

fn repeated<'a>(names: impl Iterator<Item = &'a str>) -> Vec<String> {
    let names: Vec<&str> = names.collect();
    let mut out = Vec::new();
    for (i, n) in names.iter().enumerate() {
        if names[..i].contains(n) {
            out.push((*n).to_owned());
        }
    }
    out
}

/// Positions `(earlier, later)` with the same identifier, by the documented derivation.
fn repeated_ids(ids: &[Option<u32>]) -> Vec<(u32, usize, usize)> {
    let ids = derive_ids(ids.iter().copied());
    // there is no identifier after the last one: such a schema cannot be valid, and the element
    // without one counts as repeating the last identifier
    let ids: Vec<u32> = ids.iter().map(|i| u32::try_from(*i).unwrap_or(u32::MAX)).collect();
    let mut out = Vec::new();
    for i in 0..ids.len() {
        for j in 0..i {
            if ids[i] == ids[j] {
                out.push((ids[i], j, i));
            }
        }
    }
    out
}

fn fields(f: &Fields, out: &mut Vec<Violation>) {
    let list = f.list();
    for (id, a, b) in repeated_ids(&list.iter().map(|f| f.id).collect::<Vec<_>>()) {
        out.push(match f {
            Fields::Named(_) => Violation::NamedFieldId { id, name: list[b].name.clone(), other: list[a].name.clone() },
            _ => Violation::UnnamedFieldId { id, position: b + 1, other: a + 1 },
        });
    }
    if let Fields::Named(l) = f {
        out.extend(repeated(l.iter().map(|f| f.name.as_str())).into_iter().map(Violation::FieldName));
    }
}

fn scope(defs: &[Def], out: &mut Vec<Violation>) {
    out.extend(repeated(defs.iter().map(Def::name)).into_iter().map(Violation::DefName));
    for d in defs {
        match d {
            Def::Mod { defs, .. } => scope(defs, out),
            Def::Struct { fields: f, .. } => fields(f, out),
            Def::Enum { variants, .. } => {
                for (id, a, b) in repeated_ids(&variants.iter().map(|v| v.id).collect::<Vec<_>>()) {
                    out.push(Violation::VariantId { id, name: variants[b].name.clone(), other: variants[a].name.clone() });
                }
                out.extend(repeated(variants.iter().map(|v| v.name.as_str())).into_iter().map(Violation::VariantName));
                for v in variants {
                    fields(&v.fields, out);
                }
            }
            _ => {}
        }
        if let Some(g) = generics_of(d) {
            out.extend(repeated(g.iter().map(String::as_str)).into_iter().map(Violation::DuplicateGeneric));
            for p in g {
                let used = field_types(d).iter().any(|t| t.any(|t| matches!(t, Ty::Ext { path, name, generics } if path.is_empty() && generics.is_empty() && name == p)));
                if !used {
                    out.push(Violation::UnusedGeneric(p.clone()));
                }
            }
        }
        for t in field_types(d) {
            t.walk(&mut |t| {
                if let Ty::Tuple(ts) = t {
                    if !(2..=12).contains(&ts.len()) {
                        out.push(Violation::Tuple(ts.len()));
                    }
                }
            });
        }
    }
}
