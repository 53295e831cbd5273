//! C05: the JSON form of simplified schemas and the JSON Schema that describes it.

use std::sync::OnceLock;

use mabo_compiler as mc;
use mabo_parser::Schema as Ast;
use pbt::{Case, Check, Ret, Src, ensure, fail, no_panic};
use sk::{gen_, model::*, refs, render, valid};

pub fn check(id: &str) -> Option<Check> {
    Some(match id {
        "C05" => Check::new("C05", "the schema has at least two definitions")
            .part("valid_schemas", 40_000, 400_000, |s, c| json(s, c, false))
            .part("unrestricted_schemas", 40_000, 400_000, |s, c| json(s, c, true))
            .part("large_schemas", 200, 2_000, |s, c| {
                let mut m = valid::alone(s, valid::ANY);
                c.label(sk::large::grow(s, &mut m, true));
                json_of(m, s, c)
            }),
        _ => return None,
    })
}

/// JSON with numbers as they are written: the usual libraries round 128-bit integers.
#[derive(Debug, Clone, PartialEq)]
enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

struct Reader<'a> {
    t: &'a [u8],
    at: usize,
}

impl Reader<'_> {
    fn ws(&mut self) {
        while self.t.get(self.at).is_some_and(u8::is_ascii_whitespace) {
            self.at += 1;
        }
    }
    fn eat(&mut self, b: u8) -> bool {
        self.ws();
        let hit = self.t.get(self.at) == Some(&b);
        self.at += usize::from(hit);
        hit
    }
    fn string(&mut self) -> Result<String, String> {
        let start = self.at;
        loop {
            match self.t.get(self.at) {
                Some(b'"') => break,
                Some(b'\\') => self.at += 2,
                Some(_) => self.at += 1,
                None => return Err("string without end".into()),
            }
        }
        self.at += 1;
        // escapes are left to the library
        serde_json::from_slice(&self.t[start - 1..self.at]).map_err(|e| e.to_string())
    }
    fn value(&mut self) -> Result<J, String> {
        self.ws();
        let start = self.at;
        match self.t.get(self.at).copied().ok_or("unexpected end")? {
            b'"' => {
                self.at += 1;
                self.string().map(J::Str)
            }
            b'[' => {
                self.at += 1;
                let mut l = Vec::new();
                if self.eat(b']') {
                    return Ok(J::Arr(l));
                }
                loop {
                    l.push(self.value()?);
                    if self.eat(b']') {
                        return Ok(J::Arr(l));
                    }
                    if !self.eat(b',') {
                        return Err("comma expected".into());
                    }
                }
            }
            b'{' => {
                self.at += 1;
                let mut l: Vec<(String, J)> = Vec::new();
                if self.eat(b'}') {
                    return Ok(J::Obj(l));
                }
                loop {
                    if !self.eat(b'"') {
                        return Err("key expected".into());
                    }
                    let k = self.string()?;
                    if l.iter().any(|(o, _)| *o == k) {
                        return Err(format!("key {k:?} repeated"));
                    }
                    if !self.eat(b':') {
                        return Err("colon expected".into());
                    }
                    l.push((k, self.value()?));
                    if self.eat(b'}') {
                        return Ok(J::Obj(l));
                    }
                    if !self.eat(b',') {
                        return Err("comma expected".into());
                    }
                }
            }
            _ => {
                while self.t.get(self.at).is_some_and(|b| b.is_ascii_alphanumeric() || b"+-.".contains(b)) {
                    self.at += 1;
                }
                match std::str::from_utf8(&self.t[start..self.at]).unwrap() {
                    "null" => Ok(J::Null),
                    "true" => Ok(J::Bool(true)),
                    "false" => Ok(J::Bool(false)),
                    n if n.parse::<f64>().is_ok() && !n.starts_with('+') => Ok(J::Num(n.to_owned())),
                    n => Err(format!("unexpected {n:?}")),
                }
            }
        }
    }
}

fn read(t: &str) -> Result<J, String> {
    let mut r = Reader { t: t.as_bytes(), at: 0 };
    let j = r.value()?;
    r.ws();
    if r.at == t.len() { Ok(j) } else { Err(format!("trailing data at {}", r.at)) }
}

impl J {
    fn get(&self, k: &str) -> Option<&J> {
        if let J::Obj(l) = self { l.iter().find(|(n, _)| n == k).map(|(_, v)| v) } else { None }
    }
    fn str(&self) -> Option<&str> {
        if let J::Str(s) = self { Some(s) } else { None }
    }
    fn arr(&self) -> Option<&[J]> {
        if let J::Arr(l) = self { Some(l) } else { None }
    }
    fn int<T: std::str::FromStr>(&self) -> Option<T> {
        if let J::Num(n) = self { n.parse().ok() } else { None }
    }
}

// ---- JSON Schema ----

/// Does the value conform? Only the keywords in use; any other one is an error of this check.
fn conforms(root: &J, schema: &J, v: &J) -> Result<(), String> {
    let J::Obj(keys) = schema else {
        return match schema {
            J::Bool(true) => Ok(()),
            _ => Err("nothing is allowed here".into()),
        };
    };
    let is = |t: &str| match (t, v) {
        ("null", J::Null) | ("boolean", J::Bool(_)) | ("number", J::Num(_)) | ("string", J::Str(_)) | ("array", J::Arr(_)) | ("object", J::Obj(_)) => true,
        ("integer", J::Num(n)) => !n.contains(['.', 'e', 'E']),
        _ => false,
    };
    for (k, s) in keys {
        match k.as_str() {
            "$schema" | "title" | "description" | "$defs" | "definitions" | "default" | "$comment" | "$id" | "examples" => {}
            "format" => {
                let ok = match (s.str().unwrap_or_default(), v) {
                    ("uint8", J::Num(n)) => n.parse::<u8>().is_ok(),
                    ("uint16", J::Num(n)) => n.parse::<u16>().is_ok(),
                    ("uint32", J::Num(n)) => n.parse::<u32>().is_ok(),
                    ("uint64" | "uint", J::Num(n)) => n.parse::<u64>().is_ok(),
                    ("int128", J::Num(n)) => n.parse::<i128>().is_ok(),
                    _ => true,
                };
                if !ok {
                    return Err(format!("{v:?} is no {s:?}"));
                }
            }
            "type" => {
                let ok = match s {
                    J::Str(t) => is(t),
                    J::Arr(l) => l.iter().filter_map(J::str).any(is),
                    _ => false,
                };
                if !ok {
                    return Err(format!("{v:?} is not of type {s:?}"));
                }
            }
            "const" if s != v => return Err(format!("{v:?} is not {s:?}")),
            "const" => {}
            "enum" if !s.arr().unwrap_or_default().contains(v) => return Err(format!("{v:?} is none of {s:?}")),
            "enum" => {}
            "$ref" => {
                let path = s.str().and_then(|s| s.strip_prefix("#/")).ok_or_else(|| format!("unsupported reference {s:?}"))?;
                let to = path.split('/').try_fold(root, |j, k| j.get(k)).ok_or_else(|| format!("dangling reference {path}"))?;
                conforms(root, to, v)?;
            }
            "oneOf" | "anyOf" | "allOf" => {
                let all = s.arr().unwrap_or_default();
                let hits = all.iter().filter(|s| conforms(root, s, v).is_ok()).count();
                let ok = match k.as_str() {
                    "oneOf" => hits == 1,
                    "anyOf" => hits > 0,
                    _ => hits == all.len(),
                };
                if !ok {
                    return Err(format!("{v:?} fits {hits} of the {k} alternatives"));
                }
            }
            "properties" => {
                if let (J::Obj(ps), J::Obj(_)) = (s, v) {
                    for (n, p) in ps {
                        if let Some(x) = v.get(n) {
                            conforms(root, p, x).map_err(|e| format!("{n}: {e}"))?;
                        }
                    }
                }
            }
            "required" => {
                if let J::Obj(_) = v {
                    for n in s.arr().unwrap_or_default() {
                        if v.get(n.str().unwrap_or_default()).is_none() {
                            return Err(format!("{n:?} is missing in {v:?}"));
                        }
                    }
                }
            }
            "additionalProperties" => {
                if let J::Obj(l) = v {
                    for (n, x) in l {
                        if schema.get("properties").and_then(|p| p.get(n)).is_none() {
                            conforms(root, s, x).map_err(|e| format!("{n}: {e}"))?;
                        }
                    }
                }
            }
            "items" => {
                if let J::Arr(l) = v {
                    let skip = schema.get("prefixItems").and_then(J::arr).map_or(0, <[J]>::len);
                    for x in l.iter().skip(skip) {
                        conforms(root, s, x)?;
                    }
                }
            }
            "prefixItems" => {
                if let J::Arr(l) = v {
                    for (x, s) in l.iter().zip(s.arr().unwrap_or_default()) {
                        conforms(root, s, x)?;
                    }
                }
            }
            "minItems" | "maxItems" => {
                if let J::Arr(l) = v {
                    let n: usize = s.int().ok_or("invalid limit")?;
                    if if k == "minItems" { l.len() < n } else { l.len() > n } {
                        return Err(format!("{} elements, {k} is {n}", l.len()));
                    }
                }
            }
            "minimum" | "maximum" => {
                if let J::Num(n) = v {
                    let (n, m) = (n.parse::<f64>().unwrap(), s.int::<f64>().ok_or("invalid limit")?);
                    if if k == "minimum" { n < m } else { n > m } {
                        return Err(format!("{n} is beyond the {k} {m}"));
                    }
                }
            }
            other => return Err(format!("unsupported keyword {other:?}")),
        }
    }
    Ok(())
}

// ---- back into the model ----

type R<T> = Result<T, String>;

fn field<'a>(j: &'a J, k: &str) -> R<&'a J> {
    j.get(k).ok_or_else(|| format!("{k:?} is missing in {j:?}"))
}
fn text(j: &J) -> R<String> {
    j.str().map(str::to_owned).ok_or_else(|| format!("no text: {j:?}"))
}
fn list<T>(j: &J, f: impl Fn(&J) -> R<T>) -> R<Vec<T>> {
    j.arr().ok_or_else(|| format!("no list: {j:?}"))?.iter().map(f).collect()
}
/// Name and content of a tagged value.
fn tagged(j: &J) -> R<(&str, &J)> {
    match j {
        J::Str(s) => Ok((s, &J::Null)),
        J::Obj(l) if l.len() == 1 => Ok((&l[0].0, &l[0].1)),
        j => Err(format!("no tagged value: {j:?}")),
    }
}

fn ty(j: &J) -> R<Ty> {
    let b = |j: &J| ty(j).map(Box::new);
    let two = |j: &J| -> R<(J, J)> {
        match j {
            J::Arr(l) if l.len() == 2 => Ok((l[0].clone(), l[1].clone())),
            j => Err(format!("no pair: {j:?}")),
        }
    };
    Ok(match tagged(j)? {
        ("Vec", t) => Ty::Vec(b(t)?),
        ("HashSet", t) => Ty::Set(b(t)?),
        ("Option", t) => Ty::Opt(b(t)?),
        ("NonZero", t) => Ty::NonZero(b(t)?),
        ("HashMap", t) => {
            let (k, v) = two(t)?;
            Ty::Map(b(&k)?, b(&v)?)
        }
        ("Array", t) => {
            let (t, n) = two(t)?;
            Ty::Array(b(&t)?, n.int().ok_or("no array size")?)
        }
        ("Tuple", t) => Ty::Tuple(list(t, ty)?),
        ("External", t) => Ty::Ext { path: list(field(t, "path")?, text)?, name: text(field(t, "name")?)?, generics: list(field(t, "generics")?, ty)? },
        (n, J::Null) => {
            let name = match n {
                "StringRef" => "&string".to_owned(),
                "BytesRef" => "&bytes".to_owned(),
                "BoxString" => "box<string>".to_owned(),
                "BoxBytes" => "box<bytes>".to_owned(),
                n => n.to_lowercase(),
            };
            Ty::Prim(PRIMS.iter().find(|p| **p == name).ok_or_else(|| format!("unknown type {n:?}"))?)
        }
        (n, _) => return Err(format!("unknown type {n:?}")),
    })
}

fn lit(j: &J) -> R<Lit> {
    let bad = || format!("unknown literal {j:?}");
    Ok(match tagged(j)? {
        ("Bool", J::Bool(b)) => Lit::Bool(*b),
        ("Int", n) => Lit::Int(n.int().ok_or_else(bad)?),
        ("Float", n) => Lit::Float(n.int().ok_or_else(bad)?),
        ("String", s) => Lit::Str(text(s)?),
        ("Bytes", l) => Lit::Bytes(list(l, |b| b.int().ok_or_else(bad))?),
        _ => return Err(bad()),
    })
}

fn fields(j: &J) -> R<Fields> {
    let l = list(field(j, "fields")?, |f| {
        Ok(Field { comment: list(field(f, "comment")?, text)?, name: text(field(f, "name")?)?, ty: ty(field(f, "ty")?)?, id: Some(field(f, "id")?.int().ok_or("no id")?) })
    })?;
    Ok(match field(j, "kind")?.str() {
        Some("Named") => Fields::Named(l),
        Some("Unnamed") => Fields::Unnamed(l),
        Some("Unit") if l.is_empty() => Fields::Unit,
        k => return Err(format!("unknown kind of fields {k:?}")),
    })
}

fn def(j: &J) -> R<Def> {
    let (tag, j) = tagged(j)?;
    let comment = || list(field(j, "comment")?, text);
    let name = || text(field(j, "name")?);
    let generics = || list(field(j, "generics")?, text);
    Ok(match tag {
        "Module" => Def::Mod { comment: comment()?, name: name()?, defs: list(field(j, "definitions")?, def)? },
        "Struct" => Def::Struct { comment: comment()?, attrs: vec![], name: name()?, generics: generics()?, fields: fields(field(j, "fields")?)? },
        "Enum" => Def::Enum {
            comment: comment()?,
            attrs: vec![],
            name: name()?,
            generics: generics()?,
            variants: list(field(j, "variants")?, |v| {
                Ok(Variant {
                    comment: list(field(v, "comment")?, text)?,
                    name: text(field(v, "name")?)?,
                    fields: fields(field(v, "fields")?)?,
                    id: Some(field(v, "id")?.int().ok_or("no id")?),
                })
            })?,
        },
        "TypeAlias" => Def::Alias { comment: comment()?, name: name()?, generics: generics()?, target: ty(field(j, "target")?)? },
        "Const" => Def::Const { comment: comment()?, name: name()?, ty: ty(field(j, "ty")?)?, value: lit(field(j, "value")?)? },
        "Import" => Def::Use {
            segments: list(field(j, "segments")?, text)?,
            element: match field(j, "element")? {
                J::Null => None,
                e => Some(text(e)?),
            },
        },
        t => return Err(format!("unknown definition {t:?}")),
    })
}

fn json_schema() -> &'static Result<J, String> {
    static S: OnceLock<Result<J, String>> = OnceLock::new();
    S.get_or_init(|| read(&mc::simplify::Schema::json_schema().map_err(|e| e.to_string())?))
}

fn json(s: &mut Src, c: &mut Case, wild: bool) -> Ret {
    let m = if wild {
        gen_::wild_schema(s, &gen_::FULL)
    } else {
        valid::alone(s, valid::ANY)
    };
    json_of(m, s, c)
}

fn json_of(m: Schema, s: &mut Src, c: &mut Case) -> Ret {
    if !refs::violations(&m).is_empty() {
        c.label("invalid");
        return Ok(());
    }
    let src = render::plain(&m);
    c.show(|| src.clone());
    c.key(&src);
    c.nontrivial(m.count() >= 2);
    let ast = Ast::parse(&src, None).map_err(|e| format!("does not parse: {e}"))?;
    let si = mc::simplify_schema(&ast);
    let out = match no_panic(|| serde_json::to_string(&si)).map_err(|p| format!("serialization panics: {p}"))? {
        Ok(o) => o,
        Err(e) => fail!("serialization fails: {e}"),
    };
    let j = read(&out).map_err(|e| format!("invalid JSON: {e}"))?;
    let js = json_schema().as_ref().map_err(|e| format!("the JSON Schema cannot be read: {e}"))?;
    conforms(js, js, &j).map_err(|e| format!("not as the JSON Schema describes it: {e}"))?;
    let back = Schema { comment: list(field(&j, "comment")?, text)?, defs: list(field(&j, "definitions")?, def)? };
    let want = simplified(&m);
    if back != want {
        let i = back.defs.iter().zip(&want.defs).position(|(a, b)| a != b);
        fail!("the JSON form says {:?} instead of {:?}", i.map(|i| &back.defs[i]), i.map(|i| &want.defs[i]));
    }
    // a description that accepts anything is of no use
    let damaged = damage(s, &j);
    if let Some(d) = damaged {
        ensure!(conforms(js, js, &d).is_err(), "the JSON Schema accepts {d:?}");
    }
    Ok(())
}

/// Remove a key or change the kind of a value somewhere.
fn damage(s: &mut Src, j: &J) -> Option<J> {
    let mut j = j.clone();
    let mut at = &mut j;
    loop {
        match at {
            J::Obj(l) if !l.is_empty() => {
                let i = s.below(l.len());
                if l[i].0 == "element" {
                    // may be left out
                    return None;
                }
                if s.chance(1, 3) || matches!(l[i].1, J::Null | J::Bool(_) | J::Num(_) | J::Str(_)) {
                    l.remove(i);
                    return Some(j);
                }
                at = &mut l[i].1;
            }
            J::Arr(l) => {
                if l.is_empty() {
                    l.push(J::Null);
                    return Some(j);
                }
                let i = s.below(l.len());
                if s.chance(1, 4) {
                    l[i] = J::Null;
                    return Some(j);
                }
                at = &mut l[i];
            }
            J::Obj(_) | J::Null | J::Bool(_) | J::Num(_) | J::Str(_) => return None,
        }
    }
}
