//! Reference semantics of the wire format for whole schemas: resolved types, values, their
//! encoding, size, and a strict decoder.

use pbt::Src;

use crate::{
    model::*,
    refs::{self, Set, Target, Verdict},
};

/// Type with all names resolved.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum R {
    Prim(&'static str),
    Vec(Box<R>),
    Map(Box<R>, Box<R>),
    Set(Box<R>),
    Opt(Box<R>),
    NonZero(Box<R>),
    Tuple(Vec<R>),
    Array(Box<R>, u32),
    Param(usize),
    Def(usize, Vec<R>),
}

#[derive(Clone, Debug)]
pub struct FieldR {
    pub name: String,
    pub id: u32,
    pub ty: R,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Named,
    Unnamed,
    Unit,
}

#[derive(Clone, Debug)]
pub struct FieldsR {
    pub kind: Kind,
    pub list: Vec<FieldR>,
}

#[derive(Clone, Debug)]
pub struct VariantR {
    pub name: String,
    pub id: u32,
    pub fields: FieldsR,
}

#[derive(Clone, Debug)]
pub enum Shape {
    Struct(FieldsR),
    Enum(Vec<VariantR>),
}

#[derive(Clone, Debug)]
pub struct DefR {
    pub schema: usize,
    pub path: Vec<String>,
    pub name: String,
    pub generics: Vec<String>,
    pub shape: Shape,
}

/// All structs and enums of a set of schemas.
#[derive(Clone, Debug, Default)]
pub struct World {
    pub schemas: Vec<String>,
    pub defs: Vec<DefR>,
}

/// Resolve one type as written in a schema.
pub fn resolve(set: &Set, w: &World, schema: usize, at: &[String], params: &[String], t: &Ty) -> R {
    let go = |t: &Ty| resolve(set, w, schema, at, params, t);
    let bx = |t: &Ty| Box::new(go(t));
    match t {
        Ty::Prim(p) => R::Prim(p),
        Ty::Vec(t) => R::Vec(bx(t)),
        Ty::Map(k, v) => R::Map(bx(k), bx(v)),
        Ty::Set(t) => R::Set(bx(t)),
        Ty::Opt(t) => R::Opt(bx(t)),
        Ty::NonZero(t) => R::NonZero(bx(t)),
        Ty::Tuple(ts) => R::Tuple(ts.iter().map(go).collect()),
        Ty::Array(t, n) => R::Array(bx(t), *n),
        Ty::Ext { path, name, generics } => match refs::lookup(set, schema, at, params, path, name, generics.len()) {
            Verdict::Ok(Target::Param(i)) => R::Param(i),
            Verdict::Ok(Target::Def { schema, path, name }) => {
                let i = w.defs.iter().position(|d| d.schema == schema && d.path == path && d.name == name).expect("definition is known");
                R::Def(i, generics.iter().map(go).collect())
            }
            v => panic!("{name} does not resolve: {v:?}"),
        },
    }
}

impl World {
    pub fn of(set: &Set) -> Self {
        let mut w = World { schemas: set.schemas.iter().map(|s| s.0.clone()).collect(), defs: vec![] };
        let simple: Vec<Schema> = set.schemas.iter().map(|s| simplified(&s.1)).collect();
        let none = || Shape::Struct(FieldsR { kind: Kind::Unit, list: vec![] });
        for (i, s) in simple.iter().enumerate() {
            s.walk(&mut |at, d| {
                if let Def::Struct { name, generics, .. } | Def::Enum { name, generics, .. } = d {
                    let path = at.iter().map(|s| (*s).to_owned()).collect();
                    w.defs.push(DefR { schema: i, path, name: name.clone(), generics: generics.clone(), shape: none() });
                }
            });
        }
        let mut shapes = Vec::new();
        for (i, s) in simple.iter().enumerate() {
            s.walk(&mut |at, d| {
                let at: Vec<String> = at.iter().map(|s| (*s).to_owned()).collect();
                let fields = |f: &Fields, params: &[String]| FieldsR {
                    kind: match f {
                        Fields::Named(_) => Kind::Named,
                        Fields::Unnamed(_) => Kind::Unnamed,
                        Fields::Unit => Kind::Unit,
                    },
                    list: f
                        .list()
                        .iter()
                        .map(|f| FieldR { name: f.name.clone(), id: f.id.expect("valid identifier"), ty: resolve(set, &w, i, &at, params, &f.ty) })
                        .collect(),
                };
                match d {
                    Def::Struct { generics, fields: f, .. } => shapes.push(Shape::Struct(fields(f, generics))),
                    Def::Enum { generics, variants, .. } => shapes.push(Shape::Enum(
                        variants
                            .iter()
                            .map(|v| VariantR { name: v.name.clone(), id: v.id.expect("valid identifier"), fields: fields(&v.fields, generics) })
                            .collect(),
                    )),
                    _ => {}
                }
            });
        }
        for (d, s) in w.defs.iter_mut().zip(shapes) {
            d.shape = s;
        }
        w
    }
}

impl R {
    /// Replace the type parameters.
    pub fn subst(&self, args: &[R]) -> R {
        let bx = |t: &R| Box::new(t.subst(args));
        match self {
            R::Prim(p) => R::Prim(p),
            R::Vec(t) => R::Vec(bx(t)),
            R::Map(k, v) => R::Map(bx(k), bx(v)),
            R::Set(t) => R::Set(bx(t)),
            R::Opt(t) => R::Opt(bx(t)),
            R::NonZero(t) => R::NonZero(bx(t)),
            R::Tuple(ts) => R::Tuple(ts.iter().map(|t| t.subst(args)).collect()),
            R::Array(t, n) => R::Array(bx(t), *n),
            R::Param(i) => args[*i].clone(),
            R::Def(i, a) => R::Def(*i, a.iter().map(|t| t.subst(args)).collect()),
        }
    }
}

// ---- values ----

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Val {
    Bool(bool),
    U(u128),
    I(i128),
    F32(u32),
    F64(u64),
    Str(String),
    /// Bytes, and vectors of `u8`.
    Bytes(Vec<u8>),
    /// Vectors, arrays, tuples, and sets (sorted).
    List(Vec<Val>),
    /// Sorted by key.
    Map(Vec<(Val, Val)>),
    Opt(Option<Box<Val>>),
    Struct(Vec<Val>),
    Enum(usize, Vec<Val>),
}

impl Val {
    pub fn set(mut items: Vec<Val>) -> Val {
        items.sort();
        items.dedup();
        Val::List(items)
    }
    pub fn map(mut items: Vec<(Val, Val)>) -> Val {
        items.sort();
        items.dedup_by(|a, b| a.0 == b.0);
        Val::Map(items)
    }
}

/// Short description for reports.
pub fn show(v: &Val) -> String {
    let list = |vs: &[Val]| vs.iter().map(show).collect::<Vec<_>>().join(", ");
    match v {
        Val::Bool(b) => b.to_string(),
        Val::U(n) => n.to_string(),
        Val::I(n) => n.to_string(),
        Val::F32(b) => format!("{:?}", f32::from_bits(*b)),
        Val::F64(b) => format!("{:?}", f64::from_bits(*b)),
        Val::Str(s) if s.len() > 60 => format!("string of {} bytes", s.len()),
        Val::Str(s) => format!("{s:?}"),
        Val::Bytes(b) if b.len() > 30 => format!("{} bytes", b.len()),
        Val::Bytes(b) => format!("bytes {b:?}"),
        Val::List(l) => format!("[{}]", list(l)),
        Val::Map(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", show(k), show(v))).collect::<Vec<_>>().join(", ")),
        Val::Opt(None) => "none".into(),
        Val::Opt(Some(v)) => format!("some {}", show(v)),
        Val::Struct(f) => format!("({})", list(f)),
        Val::Enum(i, f) => format!("#{i}({})", list(f)),
    }
}

fn bits(p: &str) -> u32 {
    p[1..].parse().unwrap()
}

/// Random value of a type without parameters; `budget` limits its overall extent.
pub fn value(s: &mut Src, w: &World, t: &R, depth: usize, budget: &mut i64) -> Val {
    *budget -= 1;
    let some = depth > 0 && *budget > 0;
    let count = |s: &mut Src| if !some { 0 } else if s.chance(1, 40) { s.range(30, 150) } else { s.len(6) };
    match t {
        R::Prim(p) => match *p {
            "bool" => Val::Bool(s.coin()),
            "f32" => Val::F32(s.f32().to_bits()),
            "f64" => Val::F64(s.f64().to_bits()),
            "string" | "&string" | "box<string>" => {
                if s.chance(1, 30) {
                    let n = *s.pick(&[42usize, 63, 64, 127, 128, 5461]);
                    Val::Str(std::iter::repeat_n(s.char(), n).collect())
                } else {
                    Val::Str(s.string(12))
                }
            }
            "bytes" | "&bytes" | "box<bytes>" => Val::Bytes(blob(s)),
            p if p.starts_with('u') => Val::U(s.uint(bits(p))),
            p => Val::I(s.int(bits(p))),
        },
        R::Vec(t) if **t == R::Prim("u8") => Val::Bytes(blob(s)),
        R::Vec(t) => Val::List((0..count(s)).map(|_| value(s, w, t, depth - 1, budget)).collect()),
        R::Set(t) => Val::set((0..count(s)).map(|_| value(s, w, t, depth - 1, budget)).collect()),
        R::Map(k, v) => Val::map((0..count(s)).map(|_| (value(s, w, k, depth - 1, budget), value(s, w, v, depth - 1, budget))).collect()),
        R::Opt(t) => Val::Opt((some && s.chance(2, 3)).then(|| Box::new(value(s, w, t, depth - 1, budget)))),
        R::NonZero(t) => {
            let v = value(s, w, t, depth, budget);
            match v {
                Val::U(0) => Val::U(1),
                Val::I(0) => Val::I(-1),
                Val::Str(t) if t.is_empty() => Val::Str("x".into()),
                Val::Bytes(b) if b.is_empty() => Val::Bytes(vec![0]),
                Val::List(l) if l.is_empty() => {
                    let (R::Vec(e) | R::Set(e)) = &**t else { unreachable!() };
                    Val::List(vec![value(s, w, e, depth.saturating_sub(1), budget)])
                }
                Val::Map(m) if m.is_empty() => {
                    let R::Map(k, v) = &**t else { unreachable!() };
                    let d = depth.saturating_sub(1);
                    Val::Map(vec![(value(s, w, k, d, budget), value(s, w, v, d, budget))])
                }
                v => v,
            }
        }
        R::Tuple(ts) => Val::List(ts.iter().map(|t| value(s, w, t, depth, budget)).collect()),
        R::Array(t, n) => Val::List((0..*n).map(|_| value(s, w, t, depth, budget)).collect()),
        R::Param(_) => unreachable!("parameters are replaced"),
        R::Def(i, args) => {
            let mut all = |s: &mut Src, f: &FieldsR| f.list.iter().map(|f| value(s, w, &f.ty.subst(args), depth.saturating_sub(1), budget)).collect();
            match &w.defs[*i].shape {
                Shape::Struct(f) => Val::Struct(all(s, f)),
                Shape::Enum(vs) => {
                    let i = s.below(vs.len());
                    Val::Enum(i, all(s, &vs[i].fields))
                }
            }
        }
    }
}

fn blob(s: &mut Src) -> Vec<u8> {
    if s.chance(1, 30) {
        let n = *s.pick(&[127usize, 128, 129, 300, 16384]);
        let b = s.byte();
        (0..n).map(|i| b.wrapping_add(i as u8)).collect()
    } else {
        s.bytes(12)
    }
}

// ---- encoding ----

/// Seven bits per byte, least significant group first, by plain division.
pub fn leb(mut v: u128, out: &mut Vec<u8>) {
    loop {
        let digit = (v % 128) as u8;
        v /= 128;
        if v == 0 {
            out.push(digit);
            return;
        }
        out.push(digit + 128);
    }
}

pub fn leb_len(v: u128) -> usize {
    let mut o = Vec::new();
    leb(v, &mut o);
    o.len()
}

/// 0, -1, 1, -2, ... become 0, 1, 2, 3, ...
pub fn zigzag(v: i128) -> u128 {
    if v >= 0 { v as u128 * 2 } else { (-(v + 1)) as u128 * 2 + 1 }
}

/// How the content of a field can be skipped.
pub fn marker(t: &R) -> u32 {
    match t {
        R::Prim(p) => match *p {
            "bool" | "u8" | "i8" => 2,
            "f32" => 3,
            "f64" => 4,
            p if p.starts_with(['u', 'i']) => 0,
            _ => 1,
        },
        R::NonZero(t) => marker(t),
        _ => 1,
    }
}

/// Known deviations of the generated code from the format, as listed among the findings.
#[derive(Clone, Copy, Default, PartialEq, Eq, Debug)]
pub struct Quirks {
    /// The computed size of fields leaves out the prefix of a tuple (KF-tuple-size), so that
    /// length prefixes around such a field are too small.
    pub tuple_size: bool,
}

pub struct Codec<'w> {
    pub w: &'w World,
    pub q: Quirks,
}

/// A field with its encoding, for streams that are put together piece by piece.
pub struct Piece {
    pub id: u32,
    pub index: usize,
    /// Identifier included.
    pub bytes: Vec<u8>,
}

impl Codec<'_> {
    pub fn to_vec(&self, t: &R, v: &Val) -> Vec<u8> {
        let mut out = Vec::new();
        self.enc(t, v, &mut out);
        out
    }

    fn prefixed(&self, parts: &[(&R, &Val)], out: &mut Vec<u8>) {
        let n: usize = parts.iter().map(|(t, v)| self.size(t, v)).sum();
        leb(n as u128, out);
        for (t, v) in parts {
            self.enc(t, v, out);
        }
    }

    pub fn enc(&self, t: &R, v: &Val, out: &mut Vec<u8>) {
        match (t, v) {
            (R::Prim(p), v) => match v {
                Val::Bool(b) => out.push(u8::from(*b)),
                Val::U(n) if *p == "u8" => out.push(*n as u8),
                Val::I(n) if *p == "i8" => out.push(*n as u8),
                Val::U(n) => leb(*n, out),
                Val::I(n) => leb(zigzag(*n), out),
                Val::F32(b) => out.extend((0..4).rev().map(|i| (b >> (8 * i)) as u8)),
                Val::F64(b) => out.extend((0..8).rev().map(|i| (b >> (8 * i)) as u8)),
                Val::Str(s) => {
                    leb(s.len() as u128, out);
                    out.extend(s.bytes());
                }
                Val::Bytes(b) => {
                    leb(b.len() as u128, out);
                    out.extend(b);
                }
                v => panic!("{v:?} is no {p}"),
            },
            (R::Vec(_), Val::Bytes(b)) => {
                leb(b.len() as u128, out);
                out.extend(b);
            }
            (R::Vec(t) | R::Set(t) | R::Array(t, _), Val::List(l)) => self.prefixed(&l.iter().map(|v| (&**t, v)).collect::<Vec<_>>(), out),
            (R::Map(k, v), Val::Map(m)) => self.prefixed(&m.iter().flat_map(|(a, b)| [(&**k, a), (&**v, b)]).collect::<Vec<_>>(), out),
            (R::Opt(_), Val::Opt(None)) => out.push(0),
            (R::Opt(t), Val::Opt(Some(v))) => {
                out.push(1);
                self.enc(t, v, out);
            }
            (R::NonZero(t), v) => self.enc(t, v, out),
            (R::Tuple(ts), Val::List(l)) => ts.iter().zip(l).for_each(|(t, v)| self.enc(t, v, out)),
            (R::Def(i, args), v) => {
                if let Some(id) = self.variant_id(*i, v) {
                    leb(u128::from(id), out);
                }
                let (fields, _) = self.fields(*i, v);
                if fields.kind != Kind::Unit {
                    for p in self.pieces(*i, args, v) {
                        out.extend(p.bytes);
                    }
                    out.push(0);
                }
            }
            (t, v) => panic!("{v:?} is no {t:?}"),
        }
    }

    pub fn variant_id(&self, def: usize, v: &Val) -> Option<u32> {
        match (&self.w.defs[def].shape, v) {
            (Shape::Enum(vs), Val::Enum(i, _)) => Some(vs[*i].id),
            _ => None,
        }
    }

    /// The fields of a value.
    pub fn fields<'a>(&'a self, def: usize, v: &'a Val) -> (&'a FieldsR, &'a [Val]) {
        match (&self.w.defs[def].shape, v) {
            (Shape::Struct(f), Val::Struct(vals)) => (f, vals),
            (Shape::Enum(vs), Val::Enum(i, vals)) => (&vs[*i].fields, vals),
            (_, v) => panic!("{v:?} is no {}", self.w.defs[def].name),
        }
    }

    /// Fields that are written, each with its identifier.
    pub fn pieces(&self, def: usize, args: &[R], v: &Val) -> Vec<Piece> {
        let (fields, vals) = self.fields(def, v);
        let mut out = Vec::new();
        for (index, (f, v)) in fields.list.iter().zip(vals).enumerate() {
            if let Some(bytes) = self.piece(f, args, v) {
                out.push(Piece { id: f.id, index, bytes });
            }
        }
        out
    }

    fn piece(&self, f: &FieldR, args: &[R], v: &Val) -> Option<Vec<u8>> {
        let mut out = Vec::new();
        let declared = &f.ty;
        let (inner, v) = match (declared, v) {
            (R::Opt(_), Val::Opt(None)) => return None,
            (R::Opt(t), Val::Opt(Some(v))) => (&**t, &**v),
            (t, v) => (t, v),
        };
        leb(u128::from(f.id) * 8 + u128::from(marker(inner)), &mut out);
        let t = inner.subst(args);
        if let (R::Tuple(ts), Val::List(l)) = (&t, v) {
            // a parameter never stands for a tuple
            self.prefixed(&ts.iter().zip(l).collect::<Vec<_>>(), &mut out);
        } else {
            self.enc(&t, v, &mut out);
        }
        Some(out)
    }

    /// Number of bytes as the generated code computes it.
    pub fn size(&self, t: &R, v: &Val) -> usize {
        let sum = |parts: &[(&R, &Val)]| parts.iter().map(|(t, v)| self.size(t, v)).sum::<usize>();
        let pre = |n: usize| leb_len(n as u128) + n;
        match (t, v) {
            (R::Vec(_), Val::Bytes(b)) => pre(b.len()),
            (R::Prim(_), v) => self.to_vec(t, v).len(),
            (R::Vec(t) | R::Set(t) | R::Array(t, _), Val::List(l)) => pre(sum(&l.iter().map(|v| (&**t, v)).collect::<Vec<_>>())),
            (R::Map(k, v), Val::Map(m)) => pre(sum(&m.iter().flat_map(|(a, b)| [(&**k, a), (&**v, b)]).collect::<Vec<_>>())),
            (R::Opt(_), Val::Opt(None)) => 1,
            (R::Opt(t), Val::Opt(Some(v))) => 1 + self.size(t, v),
            (R::NonZero(t), v) => self.size(t, v),
            (R::Tuple(ts), Val::List(l)) => sum(&ts.iter().zip(l).collect::<Vec<_>>()),
            (R::Def(i, args), v) => {
                let (fields, vals) = self.fields(*i, v);
                let mut n = self.variant_id(*i, v).map_or(0, |id| leb_len(u128::from(id)));
                if fields.kind == Kind::Unit {
                    return n;
                }
                for (f, v) in fields.list.iter().zip(vals) {
                    let (inner, v) = match (&f.ty, v) {
                        (R::Opt(_), Val::Opt(None)) => continue,
                        (R::Opt(t), Val::Opt(Some(v))) => (&**t, &**v),
                        (t, v) => (t, v),
                    };
                    n += leb_len(u128::from(f.id) * 8);
                    let body = self.size(&inner.subst(args), v);
                    n += if matches!(inner, R::Tuple(_)) && !self.q.tuple_size { pre(body) } else { body };
                }
                n + 1
            }
            (t, v) => panic!("{v:?} is no {t:?}"),
        }
    }
}

/// What to write for the fields of a struct or variant (the end marker is added).
pub type Hook<'h> = dyn FnMut(usize, Option<usize>, Vec<Piece>) -> Vec<Vec<u8>> + 'h;

impl Codec<'_> {
    /// Encoding in which the fields are chosen by a hook.
    pub fn enc_with(&self, t: &R, v: &Val, out: &mut Vec<u8>, hook: &mut Hook<'_>) {
        match (t, v) {
            (R::Vec(_), Val::Bytes(_)) | (R::Prim(_), _) => self.enc(t, v, out),
            (R::Vec(t) | R::Set(t) | R::Array(t, _), Val::List(l)) => {
                let mut body = Vec::new();
                l.iter().for_each(|v| self.enc_with(t, v, &mut body, hook));
                leb(body.len() as u128, out);
                out.extend(body);
            }
            (R::Map(k, v), Val::Map(m)) => {
                let mut body = Vec::new();
                for (a, b) in m {
                    self.enc_with(k, a, &mut body, hook);
                    self.enc_with(v, b, &mut body, hook);
                }
                leb(body.len() as u128, out);
                out.extend(body);
            }
            (R::Opt(_), Val::Opt(None)) => out.push(0),
            (R::Opt(t), Val::Opt(Some(v))) => {
                out.push(1);
                self.enc_with(t, v, out, hook);
            }
            (R::NonZero(t), v) => self.enc_with(t, v, out, hook),
            (R::Tuple(ts), Val::List(l)) => ts.iter().zip(l).for_each(|(t, v)| self.enc_with(t, v, out, hook)),
            (R::Def(i, args), v) => {
                if let Some(id) = self.variant_id(*i, v) {
                    leb(u128::from(id), out);
                }
                let (fields, vals) = self.fields(*i, v);
                if fields.kind == Kind::Unit {
                    return;
                }
                let mut pieces = Vec::new();
                for (index, (f, v)) in fields.list.iter().zip(vals).enumerate() {
                    let (inner, v) = match (&f.ty, v) {
                        (R::Opt(_), Val::Opt(None)) => continue,
                        (R::Opt(t), Val::Opt(Some(v))) => (&**t, &**v),
                        (t, v) => (t, v),
                    };
                    let mut bytes = Vec::new();
                    leb(u128::from(f.id) * 8 + u128::from(marker(inner)), &mut bytes);
                    let mut body = Vec::new();
                    self.enc_with(&inner.subst(args), v, &mut body, hook);
                    if matches!(inner, R::Tuple(_)) {
                        leb(body.len() as u128, &mut bytes);
                    }
                    bytes.extend(body);
                    pieces.push(Piece { id: f.id, index, bytes });
                }
                let variant = if let Val::Enum(i, _) = v { Some(*i) } else { None };
                hook(*i, variant, pieces).into_iter().for_each(|p| out.extend(p));
                out.push(0);
            }
            (t, v) => panic!("{v:?} is no {t:?}"),
        }
    }
}

// ---- strict decoding ----

pub struct Reader<'a> {
    pub data: &'a [u8],
}

type Out<T> = Result<T, String>;

impl<'a> Reader<'a> {
    fn take(&mut self, n: usize) -> Out<&'a [u8]> {
        if n > self.data.len() {
            return Err(format!("{n} bytes are announced, {} are left", self.data.len()));
        }
        let (a, b) = self.data.split_at(n);
        self.data = b;
        Ok(a)
    }
    fn leb(&mut self) -> Out<u128> {
        let mut v = 0u128;
        for i in 0.. {
            let b = self.take(1)?[0];
            let digit = u128::from(b % 128);
            if i > 18 || (i == 18 && digit > 3) {
                return Err("integer of more than 128 bits".into());
            }
            v += digit << (7 * i);
            if b < 128 {
                if b == 0 && i > 0 {
                    return Err("integer with a needless byte".into());
                }
                return Ok(v);
            }
        }
        unreachable!()
    }
    fn blob(&mut self) -> Out<&'a [u8]> {
        let n = self.leb()?;
        self.take(usize::try_from(n).map_err(|_| "huge length")?)
    }
}

fn unzigzag(v: u128) -> i128 {
    if v % 2 == 0 { (v / 2) as i128 } else { -((v / 2) as i128) - 1 }
}

impl Codec<'_> {
    /// Decode exactly the format: every field once, known, in any order, smallest encodings.
    pub fn dec(&self, t: &R, r: &mut Reader<'_>) -> Out<Val> {
        Ok(match t {
            R::Prim(p) => match *p {
                "bool" => match r.take(1)?[0] {
                    0 => Val::Bool(false),
                    1 => Val::Bool(true),
                    b => return Err(format!("{b} as a bool")),
                },
                "u8" => Val::U(r.take(1)?[0].into()),
                "i8" => Val::I((r.take(1)?[0] as i8).into()),
                "f32" => Val::F32(r.take(4)?.iter().fold(0, |a, b| a << 8 | u32::from(*b))),
                "f64" => Val::F64(r.take(8)?.iter().fold(0, |a, b| a << 8 | u64::from(*b))),
                "string" | "&string" | "box<string>" => Val::Str(String::from_utf8(r.blob()?.to_vec()).map_err(|e| e.to_string())?),
                "bytes" | "&bytes" | "box<bytes>" => Val::Bytes(r.blob()?.to_vec()),
                p if p.starts_with('u') => Val::U(r.leb()?),
                _ => Val::I(unzigzag(r.leb()?)),
            },
            R::Vec(t) if **t == R::Prim("u8") => Val::Bytes(r.blob()?.to_vec()),
            R::Vec(t) => Val::List(self.all(t, r)?),
            R::Set(t) => {
                let l = self.all(t, r)?;
                let n = l.len();
                let s = Val::set(l);
                match &s {
                    Val::List(l) if l.len() == n => s,
                    _ => return Err("repeated element of a set".into()),
                }
            }
            R::Array(t, n) => {
                let l = self.all(t, r)?;
                // elements without any bytes cannot be counted
                if l.len() != *n as usize && !(l.is_empty() && self.empty(t)) {
                    return Err(format!("{} elements instead of {n}", l.len()));
                }
                if l.is_empty() && *n > 0 {
                    let mut e = Reader { data: &[] };
                    return Ok(Val::List((0..*n).map(|_| self.dec(t, &mut e)).collect::<Out<_>>()?));
                }
                Val::List(l)
            }
            R::Map(k, v) => {
                let mut b = Reader { data: r.blob()? };
                let mut out = Vec::new();
                while !b.data.is_empty() {
                    out.push((self.dec(k, &mut b)?, self.dec(v, &mut b)?));
                }
                let n = out.len();
                let m = Val::map(out);
                match &m {
                    Val::Map(l) if l.len() == n => m,
                    _ => return Err("repeated key of a map".into()),
                }
            }
            R::Opt(t) => match r.take(1)?[0] {
                0 => Val::Opt(None),
                1 => Val::Opt(Some(Box::new(self.dec(t, r)?))),
                b => return Err(format!("{b} as the state of an option")),
            },
            R::NonZero(t) => {
                let v = self.dec(t, r)?;
                match &v {
                    Val::U(0) | Val::I(0) => return Err("zero".into()),
                    Val::Str(s) if s.is_empty() => return Err("empty".into()),
                    Val::Bytes(b) if b.is_empty() => return Err("empty".into()),
                    Val::List(l) if l.is_empty() => return Err("empty".into()),
                    Val::Map(l) if l.is_empty() => return Err("empty".into()),
                    _ => v,
                }
            }
            R::Tuple(ts) => Val::List(ts.iter().map(|t| self.dec(t, r)).collect::<Out<_>>()?),
            R::Param(_) => unreachable!(),
            R::Def(i, args) => match &self.w.defs[*i].shape {
                Shape::Struct(f) => Val::Struct(self.dec_fields(f, args, r)?),
                Shape::Enum(vs) => {
                    let id = r.leb()?;
                    let at = vs.iter().position(|v| u128::from(v.id) == id).ok_or_else(|| format!("there is no variant {id}"))?;
                    Val::Enum(at, self.dec_fields(&vs[at].fields, args, r)?)
                }
            },
        })
    }

    fn empty(&self, t: &R) -> bool {
        match t {
            R::Def(i, _) => matches!(&self.w.defs[*i].shape, Shape::Struct(f) if f.kind == Kind::Unit),
            R::Tuple(ts) => ts.iter().all(|t| self.empty(t)),
            _ => false,
        }
    }

    fn all(&self, t: &R, r: &mut Reader<'_>) -> Out<Vec<Val>> {
        let mut b = Reader { data: r.blob()? };
        let mut out = Vec::new();
        while !b.data.is_empty() {
            out.push(self.dec(t, &mut b)?);
        }
        Ok(out)
    }

    fn dec_fields(&self, f: &FieldsR, args: &[R], r: &mut Reader<'_>) -> Out<Vec<Val>> {
        if f.kind == Kind::Unit {
            return Ok(vec![]);
        }
        let mut got: Vec<Option<Val>> = vec![None; f.list.len()];
        loop {
            let tag = r.leb()?;
            if tag == 0 {
                break;
            }
            let (id, m) = (tag / 8, (tag % 8) as u32);
            let at = f.list.iter().position(|f| u128::from(f.id) == id).ok_or_else(|| format!("there is no field {id}"))?;
            if got[at].is_some() {
                return Err(format!("field {id} is written twice"));
            }
            let inner = if let R::Opt(t) = &f.list[at].ty { t } else { &f.list[at].ty };
            if m != marker(inner) {
                return Err(format!("field {id} is marked {m} instead of {}", marker(inner)));
            }
            let t = inner.subst(args);
            let v = if matches!(inner, R::Tuple(_)) {
                let mut b = Reader { data: r.blob()? };
                let v = self.dec(&t, &mut b)?;
                if !b.data.is_empty() {
                    return Err(format!("{} bytes follow the tuple of field {id}", b.data.len()));
                }
                v
            } else {
                self.dec(&t, r)?
            };
            got[at] = Some(if matches!(f.list[at].ty, R::Opt(_)) { Val::Opt(Some(Box::new(v))) } else { v });
        }
        got.into_iter()
            .zip(&f.list)
            .map(|(v, f)| match v {
                Some(v) => Ok(v),
                None if matches!(f.ty, R::Opt(_)) => Ok(Val::Opt(None)),
                None => Err(format!("field {} is missing", f.id)),
            })
            .collect()
    }
}
