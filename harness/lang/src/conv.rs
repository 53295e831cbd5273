//! The parser's and compiler's trees as models.

use mabo_compiler::simplify as si;
use mabo_parser as mp;
use sk::model::*;

// ---- from the parser's tree ----

fn comment(c: &mp::Comment<'_>) -> Vec<String> {
    c.0.iter().map(|l| l.value.to_owned()).collect()
}

pub fn lit(l: &mp::LiteralValue) -> Lit {
    match l {
        mp::LiteralValue::Bool(v) => Lit::Bool(*v),
        mp::LiteralValue::Int(v) => Lit::Int(*v),
        mp::LiteralValue::Float(v) => Lit::Float(*v),
        mp::LiteralValue::String(v) => Lit::Str(v.clone()),
        mp::LiteralValue::Bytes(v) => Lit::Bytes(v.clone()),
    }
}

pub fn ty(t: &mp::Type<'_>) -> Ty {
    use mp::DataType as D;
    let b = |t: &mp::Type<'_>| Box::new(ty(t));
    match &t.value {
        D::Vec { ty, .. } => Ty::Vec(b(ty)),
        D::HashMap { key, value, .. } => Ty::Map(b(key), b(value)),
        D::HashSet { ty, .. } => Ty::Set(b(ty)),
        D::Option { ty, .. } => Ty::Opt(b(ty)),
        D::NonZero { ty, .. } => Ty::NonZero(b(ty)),
        D::Tuple { types, .. } => Ty::Tuple(types.values().map(ty).collect()),
        D::Array { ty, size, .. } => Ty::Array(b(ty), *size),
        D::External(e) => Ty::Ext {
            path: e.path.iter().map(|p| p.0.get().to_owned()).collect(),
            name: e.name.get().to_owned(),
            generics: e.generics.as_ref().map(|g| g.values().map(ty).collect()).unwrap_or_default(),
        },
        D::Bool => Ty::Prim("bool"),
        D::U8 => Ty::Prim("u8"),
        D::U16 => Ty::Prim("u16"),
        D::U32 => Ty::Prim("u32"),
        D::U64 => Ty::Prim("u64"),
        D::U128 => Ty::Prim("u128"),
        D::I8 => Ty::Prim("i8"),
        D::I16 => Ty::Prim("i16"),
        D::I32 => Ty::Prim("i32"),
        D::I64 => Ty::Prim("i64"),
        D::I128 => Ty::Prim("i128"),
        D::F32 => Ty::Prim("f32"),
        D::F64 => Ty::Prim("f64"),
        D::String => Ty::Prim("string"),
        D::StringRef => Ty::Prim("&string"),
        D::Bytes => Ty::Prim("bytes"),
        D::BytesRef => Ty::Prim("&bytes"),
        D::BoxString => Ty::Prim("box<string>"),
        D::BoxBytes => Ty::Prim("box<bytes>"),
    }
}

fn fields(f: &mp::Fields<'_>) -> Fields {
    match f {
        mp::Fields::Named(_, f) => Fields::Named(
            f.values()
                .map(|f| Field { comment: comment(&f.comment), name: f.name.get().to_owned(), ty: ty(&f.ty), id: f.id.map(|i| i.get()) })
                .collect(),
        ),
        mp::Fields::Unnamed(_, f) => Fields::Unnamed(
            f.values().map(|f| Field { comment: vec![], name: String::new(), ty: ty(&f.ty), id: f.id.map(|i| i.get()) }).collect(),
        ),
        mp::Fields::Unit => Fields::Unit,
    }
}

fn generics(g: Option<&mp::Generics<'_>>) -> Vec<String> {
    g.map(|g| g.types.values().map(|n| n.get().to_owned()).collect()).unwrap_or_default()
}

fn attrs(a: &[mp::Attribute<'_>]) -> Vec<Attr> {
    a.iter()
        .map(|a| Attr {
            name: a.name.to_owned(),
            value: match &a.value {
                mp::AttributeValue::Unit => AttrVal::Unit,
                mp::AttributeValue::Single(l) => AttrVal::Single(lit(&l.value)),
                mp::AttributeValue::Multi(m) => AttrVal::Multi(attrs(m)),
            },
        })
        .collect()
}

fn def(d: &mp::Definition<'_>) -> Def {
    match d {
        mp::Definition::Module(m) => Def::Mod { comment: comment(&m.comment), name: m.name.get().to_owned(), defs: m.definitions.iter().map(def).collect() },
        mp::Definition::Struct(s) => Def::Struct {
            comment: comment(&s.comment),
            attrs: attrs(&s.attributes.0),
            name: s.name.get().to_owned(),
            generics: generics(s.generics.as_ref()),
            fields: fields(&s.fields),
        },
        mp::Definition::Enum(e) => Def::Enum {
            comment: comment(&e.comment),
            attrs: attrs(&e.attributes.0),
            name: e.name.get().to_owned(),
            generics: generics(e.generics.as_ref()),
            variants: e
                .variants
                .values()
                .map(|v| Variant { comment: comment(&v.comment), name: v.name.get().to_owned(), fields: fields(&v.fields), id: v.id.map(|i| i.get()) })
                .collect(),
        },
        mp::Definition::TypeAlias(a) => Def::Alias {
            comment: comment(&a.comment),
            name: a.name.get().to_owned(),
            generics: generics(a.generics.as_ref()),
            target: ty(&a.target),
        },
        mp::Definition::Const(c) => Def::Const { comment: comment(&c.comment), name: c.name.get().to_owned(), ty: ty(&c.ty), value: lit(&c.value.value) },
        mp::Definition::Import(i) => Def::Use {
            segments: i.segments.iter().map(|s| s.get().to_owned()).collect(),
            element: i.element.as_ref().map(|e| e.1.get().to_owned()),
        },
    }
}

pub fn from_ast(s: &mp::Schema<'_>) -> Schema {
    Schema { comment: comment(&s.comment), defs: s.definitions.iter().map(def).collect() }
}

// ---- from the compiler's simplified tree ----

fn si_comment(c: &[&str]) -> Vec<String> {
    c.iter().map(|s| (*s).to_owned()).collect()
}

pub fn si_ty(t: &si::Type<'_>) -> Ty {
    use si::Type as T;
    let b = |t: &si::Type<'_>| Box::new(si_ty(t));
    match t {
        T::Bool => Ty::Prim("bool"),
        T::U8 => Ty::Prim("u8"),
        T::U16 => Ty::Prim("u16"),
        T::U32 => Ty::Prim("u32"),
        T::U64 => Ty::Prim("u64"),
        T::U128 => Ty::Prim("u128"),
        T::I8 => Ty::Prim("i8"),
        T::I16 => Ty::Prim("i16"),
        T::I32 => Ty::Prim("i32"),
        T::I64 => Ty::Prim("i64"),
        T::I128 => Ty::Prim("i128"),
        T::F32 => Ty::Prim("f32"),
        T::F64 => Ty::Prim("f64"),
        T::String => Ty::Prim("string"),
        T::StringRef => Ty::Prim("&string"),
        T::Bytes => Ty::Prim("bytes"),
        T::BytesRef => Ty::Prim("&bytes"),
        T::BoxString => Ty::Prim("box<string>"),
        T::BoxBytes => Ty::Prim("box<bytes>"),
        T::Vec(t) => Ty::Vec(b(t)),
        T::HashMap(kv) => Ty::Map(b(&kv.0), b(&kv.1)),
        T::HashSet(t) => Ty::Set(b(t)),
        T::Option(t) => Ty::Opt(b(t)),
        T::NonZero(t) => Ty::NonZero(b(t)),
        T::Tuple(ts) => Ty::Tuple(ts.iter().map(si_ty).collect()),
        T::Array(t, n) => Ty::Array(b(t), *n),
        T::External(e) => Ty::Ext {
            path: si_comment(&e.path),
            name: e.name.to_owned(),
            generics: e.generics.iter().map(si_ty).collect(),
        },
    }
}

fn si_fields(f: &si::Fields<'_>) -> Fields {
    let list = f
        .fields
        .iter()
        .map(|f| Field { comment: si_comment(&f.comment), name: f.name.to_string(), ty: si_ty(&f.ty), id: Some(f.id) })
        .collect();
    match f.kind {
        si::FieldKind::Named => Fields::Named(list),
        si::FieldKind::Unnamed => Fields::Unnamed(list),
        si::FieldKind::Unit => Fields::Unit,
    }
}

fn si_def(d: &si::Definition<'_>) -> Def {
    match d {
        si::Definition::Module(m) => Def::Mod { comment: si_comment(&m.comment), name: m.name.to_owned(), defs: m.definitions.iter().map(si_def).collect() },
        si::Definition::Struct(s) => Def::Struct {
            comment: si_comment(&s.comment),
            attrs: vec![],
            name: s.name.to_owned(),
            generics: si_comment(&s.generics),
            fields: si_fields(&s.fields),
        },
        si::Definition::Enum(e) => Def::Enum {
            comment: si_comment(&e.comment),
            attrs: vec![],
            name: e.name.to_owned(),
            generics: si_comment(&e.generics),
            variants: e
                .variants
                .iter()
                .map(|v| Variant { comment: si_comment(&v.comment), name: v.name.to_owned(), fields: si_fields(&v.fields), id: Some(v.id) })
                .collect(),
        },
        si::Definition::TypeAlias(a) => {
            Def::Alias { comment: si_comment(&a.comment), name: a.name.to_owned(), generics: si_comment(&a.generics), target: si_ty(&a.target) }
        }
        si::Definition::Const(c) => Def::Const {
            comment: si_comment(&c.comment),
            name: c.name.to_owned(),
            ty: si_ty(&c.ty),
            value: match &c.value {
                si::Literal::Bool(v) => Lit::Bool(*v),
                si::Literal::Int(v) => Lit::Int(*v),
                si::Literal::Float(v) => Lit::Float(*v),
                si::Literal::String(v) => Lit::Str(v.to_string()),
                si::Literal::Bytes(v) => Lit::Bytes(v.to_vec()),
            },
        },
        si::Definition::Import(i) => Def::Use { segments: si_comment(&i.segments), element: i.element.as_ref().map(ToString::to_string) },
    }
}

pub fn from_simplified(s: &si::Schema<'_>) -> Schema {
    Schema { comment: si_comment(&s.comment), defs: s.definitions.iter().map(si_def).collect() }
}

