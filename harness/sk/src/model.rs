//! Owned, location-free model of a schema, the common language of all checks: generators produce
//! it, the renderer turns it into text, and the parser's and compiler's trees convert into it.

#[derive(Clone, Debug)]
pub enum Lit {
    Bool(bool),
    Int(i128),
    Float(f64),
    Str(String),
    Bytes(Vec<u8>),
}

impl PartialEq for Lit {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Lit::Bool(a), Lit::Bool(b)) => a == b,
            (Lit::Int(a), Lit::Int(b)) => a == b,
            (Lit::Float(a), Lit::Float(b)) => a.to_bits() == b.to_bits(),
            (Lit::Str(a), Lit::Str(b)) => a == b,
            (Lit::Bytes(a), Lit::Bytes(b)) => a == b,
            _ => false,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Prim(&'static str),
    Vec(Box<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Set(Box<Ty>),
    Opt(Box<Ty>),
    NonZero(Box<Ty>),
    Tuple(Vec<Ty>),
    Array(Box<Ty>, u32),
    Ext { path: Vec<String>, name: String, generics: Vec<Ty> },
}

pub const PRIMS: &[&str] = &[
    "bool", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "string",
    "&string", "bytes", "&bytes", "box<string>", "box<bytes>",
];

pub fn prim(name: &str) -> &'static str {
    PRIMS.iter().find(|p| **p == name).unwrap()
}

#[derive(Clone, Debug, PartialEq)]
pub struct Field {
    pub comment: Vec<String>,
    pub name: String,
    pub ty: Ty,
    pub id: Option<u32>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fields {
    Named(Vec<Field>),
    Unnamed(Vec<Field>),
    Unit,
}

impl Fields {
    pub fn list(&self) -> &[Field] {
        match self {
            Fields::Named(f) | Fields::Unnamed(f) => f,
            Fields::Unit => &[],
        }
    }
    pub fn list_mut(&mut self) -> Option<&mut Vec<Field>> {
        match self {
            Fields::Named(f) | Fields::Unnamed(f) => Some(f),
            Fields::Unit => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Variant {
    pub comment: Vec<String>,
    pub name: String,
    pub fields: Fields,
    pub id: Option<u32>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Attr {
    pub name: String,
    pub value: AttrVal,
}

#[derive(Clone, Debug, PartialEq)]
pub enum AttrVal {
    Unit,
    Single(Lit),
    Multi(Vec<Attr>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Def {
    Mod { comment: Vec<String>, name: String, defs: Vec<Def> },
    Struct { comment: Vec<String>, attrs: Vec<Attr>, name: String, generics: Vec<String>, fields: Fields },
    Enum { comment: Vec<String>, attrs: Vec<Attr>, name: String, generics: Vec<String>, variants: Vec<Variant> },
    Alias { comment: Vec<String>, name: String, generics: Vec<String>, target: Ty },
    Const { comment: Vec<String>, name: String, ty: Ty, value: Lit },
    Use { segments: Vec<String>, element: Option<String> },
}

impl Def {
    pub fn name(&self) -> &str {
        match self {
            Def::Mod { name, .. } | Def::Struct { name, .. } | Def::Enum { name, .. } | Def::Alias { name, .. } | Def::Const { name, .. } => name,
            Def::Use { segments, element } => element.as_ref().unwrap_or_else(|| segments.last().unwrap()),
        }
    }
    pub fn comment(&self) -> &[String] {
        match self {
            Def::Mod { comment, .. } | Def::Struct { comment, .. } | Def::Enum { comment, .. } | Def::Alias { comment, .. } | Def::Const { comment, .. } => comment,
            Def::Use { .. } => &[],
        }
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Schema {
    pub comment: Vec<String>,
    pub defs: Vec<Def>,
}

impl Schema {
    /// Visit every definition, together with the names of the modules around it.
    pub fn walk<'a>(&'a self, f: &mut impl FnMut(&[&'a str], &'a Def)) {
        fn go<'a>(path: &mut Vec<&'a str>, defs: &'a [Def], f: &mut impl FnMut(&[&'a str], &'a Def)) {
            for d in defs {
                f(path, d);
                if let Def::Mod { name, defs, .. } = d {
                    path.push(name);
                    go(path, defs, f);
                    path.pop();
                }
            }
        }
        go(&mut Vec::new(), &self.defs, f);
    }

    pub fn count(&self) -> usize {
        let mut n = 0;
        self.walk(&mut |_, _| n += 1);
        n
    }
}

impl Ty {
    pub fn children(&self) -> Vec<&Ty> {
        match self {
            Ty::Prim(_) => vec![],
            Ty::Vec(t) | Ty::Set(t) | Ty::Opt(t) | Ty::NonZero(t) | Ty::Array(t, _) => vec![t],
            Ty::Map(k, v) => vec![k, v],
            Ty::Tuple(ts) => ts.iter().collect(),
            Ty::Ext { generics, .. } => generics.iter().collect(),
        }
    }
    pub fn walk<'a>(&'a self, f: &mut impl FnMut(&'a Ty)) {
        f(self);
        for c in self.children() {
            c.walk(f);
        }
    }
    pub fn any(&self, f: impl Fn(&Ty) -> bool) -> bool {
        let mut hit = false;
        self.walk(&mut |t| hit |= f(t));
        hit
    }
    pub fn depth(&self) -> usize {
        1 + self.children().iter().map(|c| c.depth()).max().unwrap_or(0)
    }
}

// ---- identifiers ----

/// Documented rule: an omitted identifier is the previous one plus one, the first one is one.
pub fn derive_ids(ids: impl IntoIterator<Item = Option<u32>>) -> Vec<u64> {
    let mut next = 1u64;
    ids.into_iter()
        .map(|id| {
            let id = id.map_or(next, u64::from);
            next = id + 1;
            id
        })
        .collect()
}

/// The model as the compiler is expected to hand it to code generators.
pub fn simplified(s: &Schema) -> Schema {
    fn fields(f: &Fields) -> Fields {
        let ids = derive_ids(f.list().iter().map(|f| f.id));
        let with = |list: &[Field], unnamed: bool| {
            list.iter()
                .zip(&ids)
                .enumerate()
                .map(|(i, (f, id))| Field {
                    comment: f.comment.clone(),
                    name: if unnamed { format!("n{i}") } else { f.name.clone() },
                    ty: f.ty.clone(),
                    id: u32::try_from(*id).ok(),
                })
                .collect()
        };
        match f {
            Fields::Named(l) => Fields::Named(with(l, false)),
            Fields::Unnamed(l) => Fields::Unnamed(with(l, true)),
            Fields::Unit => Fields::Unit,
        }
    }
    fn def(d: &Def) -> Def {
        match d {
            Def::Mod { comment, name, defs } => Def::Mod { comment: comment.clone(), name: name.clone(), defs: defs.iter().map(def).collect() },
            Def::Struct { comment, name, generics, fields: f, .. } => {
                Def::Struct { comment: comment.clone(), attrs: vec![], name: name.clone(), generics: generics.clone(), fields: fields(f) }
            }
            Def::Enum { comment, name, generics, variants, .. } => {
                let ids = derive_ids(variants.iter().map(|v| v.id));
                Def::Enum {
                    comment: comment.clone(),
                    attrs: vec![],
                    name: name.clone(),
                    generics: generics.clone(),
                    variants: variants
                        .iter()
                        .zip(&ids)
                        .map(|(v, id)| Variant { comment: v.comment.clone(), name: v.name.clone(), fields: fields(&v.fields), id: u32::try_from(*id).ok() })
                        .collect(),
                }
            }
            other => other.clone(),
        }
    }
    Schema { comment: s.comment.clone(), defs: s.defs.iter().map(def).collect() }
}
