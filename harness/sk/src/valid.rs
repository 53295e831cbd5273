//! Generator of sets of schemas that the compiler has to accept.

use std::collections::{HashMap, HashSet};

use pbt::Src;

use crate::{
    gen_::{self, Cfg},
    model::*,
    refs::Set,
};

#[derive(Clone, Copy)]
pub struct Opts {
    /// Restrict the set to what code generators can be expected to translate (see `DESIGN.md`).
    pub codegen: bool,
    pub schemas: usize,
    pub decls: usize,
    pub comments: bool,
    pub attrs: bool,
    /// Allow imports between the schemas.
    pub imports: bool,
}

pub const ANY: Opts = Opts { codegen: false, schemas: 3, decls: 5, comments: true, attrs: true, imports: true };
pub const CODE: Opts = Opts { codegen: true, schemas: 2, decls: 6, comments: true, attrs: true, imports: true };

const SAFE_TYPES: &[&str] = &[
    "Foo", "Bar", "Item", "Account", "HttpRequest", "A", "B", "C", "Point2", "X1", "Entry", "Data", "Kind", "Shape", "Node", "Tree", "Value", "Message", "Id", "Unit",
    "Zed", "Q", "LongTypeNameThatGoesOnAndOn", "Error", "Result1", "Buf", "Config", "W", "R",
];
const SAFE_VARIANTS: &[&str] = &["One", "Two", "Three", "A", "B", "C", "Empty", "Full", "None1", "Red", "Variant", "X9", "Foo", "T", "Error", "Self1", "End"];
const SAFE_FIELDS: &[&str] = &[
    "a", "b", "c", "value", "name", "count", "k", "v", "n0", "n1", "x_y", "long_field_name_with_parts", "vec", "option", "bytes", "string", "item2", "data", "f", "t", "size", "kind", "enc", "buf", "len",
    "encode", "decode", "mabo", "u8x", "i", "e", "s", "none", "ok", "err", "some", "id", "r", "w", "type", "match", "fn", "gen", "n1_", "self_",
];
const SAFE_PARAMS: &[&str] = &["T", "K", "V", "U", "T1", "TKey", "P"];
const SAFE_MODS: &[&str] = &["inner", "nested", "m", "sub", "deep", "a1", "models", "types", "v2", "shapes", "type", "move", "gen"];
const SAFE_CONSTS: &[&str] = &["MAX", "MIN_SIZE", "LIMIT", "A0", "NAME", "BLOB", "FLAG", "PI_ISH", "C_1", "LONG_CONSTANT_NAME"];
const SCHEMAS: &[&str] = &["alpha", "beta", "gamma", "other", "third_one", "s2"];

/// A struct or enum that other definitions can refer to.
#[derive(Clone)]
struct Decl {
    schema: usize,
    path: Vec<String>,
    name: String,
    generics: Vec<String>,
    is_enum: bool,
    unit: bool,
    /// Position in the order of possible references.
    rank: usize,
    /// Two-digit marker of the variant with no fields only (no recursion needed).
    attrs: Vec<Attr>,
    comment: Vec<String>,
}

/// A definition, before its fields are known.
enum Skel {
    Decl(usize),
    Mod { comment: Vec<String>, name: String, items: Vec<Skel> },
    Alias(String),
    Const(String),
    Use { segments: Vec<String>, element: Option<String> },
}

/// How a reference is written and what it leads to.
#[derive(Clone)]
struct Ref {
    path: Vec<String>,
    decl: usize,
}

struct Gen<'s> {
    s: &'s mut Src,
    o: Opts,
    cfg: Cfg,
    decls: Vec<Decl>,
}

fn fresh(used: &mut HashSet<String>, mut make: impl FnMut() -> String) -> String {
    for _ in 0..20 {
        let n = make();
        if used.insert(n.clone()) {
            return n;
        }
    }
    let n = make();
    for i in 2.. {
        let m = format!("{n}{i}");
        if used.insert(m.clone()) {
            return m;
        }
    }
    unreachable!()
}

/// Unique identifiers, explicit or derived from the previous one.
pub fn ids(s: &mut Src, n: usize, codegen: bool, max: u64) -> Vec<Option<u32>> {
    let mut used = HashSet::new();
    let mut next = 1u64;
    let mut out = Vec::new();
    let style = s.below(3);
    for _ in 0..n {
        let derive = match style {
            0 => true,
            1 => false,
            _ => s.coin(),
        };
        if derive && next <= max && !used.contains(&next) {
            used.insert(next);
            next += 1;
            out.push(None);
            continue;
        }
        let id = loop {
            let id = match s.weighted(&[6, 2, 1]) {
                0 => 1 + s.below(20) as u64,
                1 => s.uint(29) as u64,
                _ if codegen => s.uint(29) as u64,
                _ => s.uint(32) as u64,
            };
            let id = id.min(max);
            let id = if codegen { id.max(1) } else { id };
            if used.insert(id) {
                break id;
            }
            // dense: step on to the next free one
            if let Some(f) = (1..=max).find(|f| !used.contains(f)) {
                used.insert(f);
                break f;
            }
        };
        next = id + 1;
        out.push(Some(id as u32));
    }
    out
}

pub fn set(s: &mut Src, o: Opts) -> Set {
    let n = 1 + s.below(o.schemas);
    let cfg = Cfg { defs: o.decls, depth: 2, attrs: o.attrs, comments: o.comments, imports: o.imports };
    let mut g = Gen { s, o, cfg, decls: vec![] };
    let mut names = HashSet::new();
    let mut schemas: Vec<(String, Vec<Skel>)> = Vec::new();
    for i in 0..n {
        let name = fresh(&mut names, || if g.o.codegen || g.s.coin() { (*g.s.pick(SCHEMAS)).to_owned() } else { gen_::lower(g.s) });
        let mut used = HashSet::new();
        let first = g.decls.len();
        let mut items = g.module(i, &mut Vec::new(), &mut used);
        // the order in which definitions may refer to each other
        let mut ranks: Vec<usize> = (first..g.decls.len()).collect();
        g.s.shuffle(&mut ranks);
        for (d, r) in g.decls[first..].iter_mut().zip(ranks) {
            d.rank = r;
        }
        if g.o.imports {
            g.imports(i, &schemas, &mut items, &mut used);
        }
        schemas.push((name, items));
    }
    let decls = g.decls.clone();
    let mut out = Vec::new();
    for (i, (name, items)) in schemas.iter().enumerate() {
        let imported = imported(items, &schemas, &decls);
        let comment = g.comment();
        out.push((name.clone(), Schema { comment, defs: g.defs(i, &mut Vec::new(), items, &imported) }));
    }
    Set { schemas: out }
}

/// Nothing but constants, some in modules.
pub fn constants(s: &mut Src, n: usize) -> Set {
    let o = Opts { attrs: false, comments: false, ..CODE };
    let cfg = Cfg { defs: 0, depth: 2, attrs: false, comments: false, imports: false };
    let mut g = Gen { s, o, cfg, decls: vec![] };
    let mut one = |k: usize| {
        let (ty, value) = g.constant();
        Def::Const { comment: vec![], name: format!("C{k}"), ty, value }
    };
    let (a, b, c) = ((0..n / 2).map(&mut one).collect::<Vec<_>>(), (0..n / 4).map(&mut one).collect(), (0..n / 4).map(&mut one).collect());
    let inner = Def::Mod { comment: vec![], name: "inner".to_owned(), defs: c };
    let mut outer: Vec<Def> = b;
    outer.push(inner);
    let mut defs = a;
    defs.push(Def::Mod { comment: vec![], name: "outer".to_owned(), defs: outer });
    Set { schemas: vec![("constants".to_owned(), Schema { comment: vec![], defs })] }
}

/// References through the imports of a schema.
fn imported(items: &[Skel], schemas: &[(String, Vec<Skel>)], decls: &[Decl]) -> Vec<Ref> {
    let mut out = Vec::new();
    for it in items {
        let Skel::Use { segments, element } = it else { continue };
        let schema = schemas.iter().position(|(n, _)| *n == segments[0]).unwrap();
        for (i, d) in decls.iter().enumerate().filter(|(_, d)| d.schema == schema) {
            match element {
                Some(e) => {
                    if d.name == *e && d.path == segments[1..] {
                        out.push(Ref { path: vec![], decl: i });
                    }
                }
                None => {
                    if let Some(rest) = d.path.strip_prefix(&segments[1..]) {
                        let mut path = vec![segments.last().unwrap().clone()];
                        path.extend_from_slice(rest);
                        out.push(Ref { path, decl: i });
                    }
                }
            }
        }
    }
    out
}

impl Gen<'_> {
    fn comment(&mut self) -> Vec<String> {
        gen_::comment(self.s, &self.cfg)
    }

    fn name(&mut self, safe: &[&str], wild: fn(&mut Src) -> String) -> String {
        if self.o.codegen || self.s.chance(1, 3) { (*self.s.pick(safe)).to_owned() } else { wild(self.s) }
    }

    fn module(&mut self, schema: usize, path: &mut Vec<String>, used: &mut HashSet<String>) -> Vec<Skel> {
        let mut items = Vec::new();
        let n = self.s.len(self.o.decls) + usize::from(path.is_empty());
        for _ in 0..n {
            match self.s.weighted(&[8, 6, if path.len() < 3 { 3 } else { u64::from(path.len() < 8) }, 2, 2]) {
                k @ (0 | 1) => {
                    let name = fresh(used, || self.name(SAFE_TYPES, gen_::upper));
                    let is_enum = k == 1;
                    let unit = !is_enum && self.s.chance(1, 8);
                    let generics = if !unit && self.s.chance(1, 4) {
                        let mut names = HashSet::new();
                        (0..1 + gen_::many(self.s, 3)).map(|_| fresh(&mut names, || (*self.s.pick(SAFE_PARAMS)).to_owned())).collect()
                    } else {
                        vec![]
                    };
                    let attrs = gen_::attrs(self.s, &self.cfg);
                    let comment = self.comment();
                    items.push(Skel::Decl(self.decls.len()));
                    self.decls.push(Decl { schema, path: path.clone(), name, generics, is_enum, unit, rank: 0, attrs, comment });
                }
                2 => {
                    let name = fresh(used, || self.name(SAFE_MODS, gen_::lower));
                    path.push(name.clone());
                    let inner = self.module(schema, path, &mut HashSet::new());
                    path.pop();
                    items.push(Skel::Mod { comment: self.comment(), name, items: inner });
                }
                3 => items.push(Skel::Alias(fresh(used, || self.name(SAFE_TYPES, gen_::upper)))),
                _ => items.push(Skel::Const(fresh(used, || self.name(SAFE_CONSTS, gen_::const_name)))),
            }
        }
        items
    }

    fn imports(&mut self, schema: usize, schemas: &[(String, Vec<Skel>)], items: &mut Vec<Skel>, used: &mut HashSet<String>) {
        for (i, (name, _)) in schemas.iter().enumerate() {
            let from: Vec<Decl> = self.decls.iter().filter(|d| d.schema == i).cloned().collect();
            debug_assert!(i < schema);
            for d in &from {
                if self.s.chance(1, 3) && used.insert(d.name.clone()) {
                    let mut segments = vec![name.clone()];
                    segments.extend_from_slice(&d.path);
                    items.push(Skel::Use { segments, element: Some(d.name.clone()) });
                }
            }
            let mut paths: Vec<Vec<String>> = from.iter().map(|d| d.path.clone()).collect();
            paths.push(vec![]);
            paths.sort();
            paths.dedup();
            for p in paths {
                let last = p.last().unwrap_or(name).clone();
                if self.s.chance(1, 3) && used.insert(last) {
                    let mut segments = vec![name.clone()];
                    segments.extend_from_slice(&p);
                    items.push(Skel::Use { segments, element: None });
                }
            }
        }
        if self.s.coin() {
            self.s.shuffle(items);
        }
    }

    fn defs(&mut self, schema: usize, path: &mut Vec<String>, items: &[Skel], imported: &[Ref]) -> Vec<Def> {
        // what can be named here
        let refs: Vec<Ref> = self
            .decls
            .iter()
            .enumerate()
            .filter(|(_, d)| d.schema == schema)
            .filter_map(|(i, d)| d.path.strip_prefix(&path[..]).map(|rest| Ref { path: rest.to_vec(), decl: i }))
            .chain(imported.iter().filter(|_| path.is_empty()).cloned())
            .collect();
        items
            .iter()
            .map(|it| match it {
                Skel::Decl(i) => self.decl(*i, &refs),
                Skel::Mod { comment, name, items } => {
                    path.push(name.clone());
                    let defs = self.defs(schema, path, items, imported);
                    path.pop();
                    Def::Mod { comment: comment.clone(), name: name.clone(), defs }
                }
                Skel::Alias(name) => {
                    let refs: Vec<Ref> = refs.clone();
                    let mut generics = Vec::new();
                    if self.s.chance(1, 4) {
                        let mut names = HashSet::new();
                        generics = (0..1 + self.s.len(1)).map(|_| fresh(&mut names, || (*self.s.pick(SAFE_PARAMS)).to_owned())).collect();
                    }
                    let mut target = self.ty(2, &refs, &generics, Flags::default());
                    let unused: Vec<Ty> = generics.iter().filter(|g| !uses(&target, g)).map(|g| param(g)).collect();
                    if !unused.is_empty() {
                        let mut parts = vec![target];
                        parts.extend(unused);
                        target = Ty::Tuple(parts);
                    }
                    Def::Alias { comment: self.comment(), name: name.clone(), generics, target }
                }
                Skel::Const(name) => {
                    let (ty, value) = self.constant();
                    Def::Const { comment: self.comment(), name: name.clone(), ty, value }
                }
                Skel::Use { segments, element } => Def::Use { segments: segments.clone(), element: element.clone() },
            })
            .collect()
    }

    fn constant(&mut self) -> (Ty, Lit) {
        if !self.o.codegen && self.s.chance(1, 4) {
            return (gen_::prim_ty(self.s), gen_::lit(self.s));
        }
        let s = &mut *self.s;
        match s.below(8) {
            0 => (Ty::Prim("bool"), Lit::Bool(s.coin())),
            1 => {
                let (t, bits) = *s.pick(&[("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("u128", 127)]);
                (Ty::Prim(t), Lit::Int(s.uint(bits) as i128))
            }
            2 => {
                let (t, bits) = *s.pick(&[("i8", 8), ("i16", 16), ("i32", 32), ("i64", 64), ("i128", 128)]);
                (Ty::Prim(t), Lit::Int(s.int(bits)))
            }
            3 | 4 => loop {
                let f = if s.coin() { s.f64() } else { s.int(20) as f64 / 8.0 };
                if f.is_finite() {
                    break (Ty::Prim("f64"), Lit::Float(f));
                }
            },
            5 => loop {
                let f = s.f32();
                if f.is_finite() {
                    break (Ty::Prim("f32"), Lit::Float(f64::from(f)));
                }
            },
            6 => {
                let t = *s.pick(&["string", "&string"]);
                (Ty::Prim(t), Lit::Str(gen_::string(s)))
            }
            _ => {
                let t = *s.pick(&["bytes", "&bytes"]);
                (Ty::Prim(t), Lit::Bytes(gen_::nonempty_bytes(s)))
            }
        }
    }

    fn decl(&mut self, i: usize, refs: &[Ref]) -> Def {
        let d = self.decls[i].clone();
        // no cycles: only what comes earlier, or (outside of code generation) anything
        let refs: Vec<Ref> = refs
            .iter()
            .filter(|r| !self.o.codegen || self.decls[r.decl].schema < d.schema || self.decls[r.decl].rank < d.rank)
            .cloned()
            .collect();
        let me = Ty::Ext { path: vec![], name: d.name.clone(), generics: d.generics.iter().map(|g| param(g)).collect() };
        if !d.is_enum {
            let mut fields = if d.unit { Fields::Unit } else { self.fields(&refs, &d.generics, &me, false) };
            self.use_all(&d.generics, &me, std::slice::from_mut(&mut fields));
            Def::Struct { comment: d.comment, attrs: d.attrs, name: d.name, generics: d.generics, fields }
        } else {
            let n = 1 + gen_::many(self.s, 4);
            let mut names = HashSet::new();
            let mut all: Vec<Fields> = (0..n).map(|_| self.fields(&refs, &d.generics, &me, true)).collect();
            self.use_all(&d.generics, &me, &mut all);
            let ids = ids(self.s, n, false, u64::from(u32::MAX));
            let variants = all
                .into_iter()
                .zip(ids)
                .map(|(fields, id)| Variant { comment: self.comment(), name: fresh(&mut names, || self.name(SAFE_VARIANTS, gen_::upper)), fields, id })
                .collect();
            Def::Enum { comment: d.comment, attrs: d.attrs, name: d.name, generics: d.generics, variants }
        }
    }

    /// Add fields so that every type parameter is used somewhere.
    fn use_all(&mut self, generics: &[String], me: &Ty, all: &mut [Fields]) {
        for g in generics {
            // parameters that are only passed on to the type itself are rejected by Rust
            let code = self.o.codegen;
            let used = all.iter().flat_map(Fields::list).any(|f| uses(&f.ty, g) && !(code && f.ty.any(|t| t == me)));
            if used {
                continue;
            }
            let at = self.s.below(all.len());
            let f = &mut all[at];
            if matches!(f, Fields::Unit) {
                *f = Fields::Unnamed(vec![]);
            }
            let named = matches!(f, Fields::Named(_));
            let list = f.list_mut().unwrap();
            let taken: HashSet<u64> = derive_ids(list.iter().map(|f| f.id)).into_iter().collect();
            let id = (1..).find(|i| !taken.contains(i)).unwrap();
            let mut name = String::new();
            if named {
                let mut used: HashSet<String> = list.iter().map(|f| f.name.clone()).collect();
                name = fresh(&mut used, || self.name(SAFE_FIELDS, gen_::lower));
            }
            let list = all[at].list_mut().unwrap();
            list.push(Field { comment: vec![], name, ty: param(g), id: Some(id as u32) });
        }
    }

    fn fields(&mut self, refs: &[Ref], generics: &[String], me: &Ty, units: bool) -> Fields {
        let kind = self.s.weighted(&[5, 3, if units { 3 } else { 0 }]);
        if kind == 2 {
            return Fields::Unit;
        }
        let n = 1 + gen_::many(self.s, 5);
        let max = if self.o.codegen { (1 << 29) - 1 } else { u64::from(u32::MAX) };
        let ids = ids(self.s, n, self.o.codegen, max);
        let mut names = HashSet::new();
        let list = ids
            .into_iter()
            .map(|id| {
                let ty = if self.s.chance(1, 16) { self.recursive(me) } else { self.ty(3, refs, generics, Flags::default()) };
                if kind == 0 {
                    Field { comment: self.comment(), name: fresh(&mut names, || self.name(SAFE_FIELDS, gen_::lower)), ty, id }
                } else {
                    Field { comment: vec![], name: String::new(), ty, id }
                }
            })
            .collect();
        if kind == 0 { Fields::Named(list) } else { Fields::Unnamed(list) }
    }

    fn recursive(&mut self, me: &Ty) -> Ty {
        let me = Box::new(me.clone());
        match self.s.below(3) {
            0 => Ty::Vec(me),
            1 => Ty::Map(Box::new(Ty::Prim("u32")), me),
            _ => Ty::Opt(Box::new(Ty::Vec(me))),
        }
    }

    fn ty(&mut self, depth: usize, refs: &[Ref], generics: &[String], f: Flags) -> Ty {
        let code = self.o.codegen;
        if depth == 0 {
            return self.prim(f);
        }
        let ext = if f.key && code { 0 } else { 5 };
        let par = if generics.is_empty() || (f.key && code) { 0 } else { 4 };
        let container = if f.key && code { 0 } else { 2 };
        let value = if f.argument && code { 0 } else { 2 };
        match self.s.weighted(&[9, 2, container, container, 2, value, value, 2, ext, par]) {
            1 => Ty::Vec(Box::new(self.ty(depth - 1, refs, generics, Flags { element: true, ..f }))),
            2 => {
                let k = Box::new(self.ty(depth - 1, refs, generics, Flags { key: true, element: true, ..f }));
                Ty::Map(k, Box::new(self.ty(depth - 1, refs, generics, Flags { element: true, ..f })))
            }
            3 => Ty::Set(Box::new(self.ty(depth - 1, refs, generics, Flags { key: true, element: true, ..f }))),
            4 => Ty::Opt(Box::new(self.ty(depth - 1, refs, generics, Flags { element: false, ..f }))),
            5 => self.non_zero(depth, refs, generics, f),
            6 => {
                let n = if self.s.chance(1, 10) { 2 + self.s.below(11) } else { 2 + self.s.len(2) };
                Ty::Tuple((0..n).map(|_| self.ty(depth - 1, refs, generics, f)).collect())
            }
            7 => {
                let t = Box::new(self.ty(depth - 1, refs, generics, Flags { element: false, ..f }));
                let n = match self.s.weighted(&[8, 1, if code { 0 } else { 1 }]) {
                    0 => self.s.below(5) as u32,
                    1 => self.s.below(33) as u32,
                    _ => self.s.uint(32) as u32,
                };
                Ty::Array(t, n)
            }
            8 => {
                let ok: Vec<&Ref> = refs.iter().filter(|r| !(code && self.decls[r.decl].unit && (f.element || f.argument))).collect();
                if ok.is_empty() {
                    return self.prim(f);
                }
                let r = (*self.s.pick(&ok)).clone();
                let d = self.decls[r.decl].clone();
                let args = d.generics.iter().map(|_| self.ty(depth - 1, refs, generics, Flags { argument: true, ..f })).collect();
                Ty::Ext { path: r.path, name: d.name, generics: args }
            }
            9 => param(&self.s.pick(generics).clone()),
            _ => self.prim(f),
        }
    }

    fn prim(&mut self, f: Flags) -> Ty {
        loop {
            let p = *self.s.pick(PRIMS);
            if self.o.codegen && f.key && p.starts_with('f') {
                continue;
            }
            return Ty::Prim(p);
        }
    }

    fn non_zero(&mut self, depth: usize, refs: &[Ref], generics: &[String], f: Flags) -> Ty {
        const INTS: &[&str] = &["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"];
        let more = if f.key && self.o.codegen { 0 } else { 2 };
        let inner = match self.s.weighted(&[6, more, more, more, more]) {
            0 => Ty::Prim(self.s.pick(INTS)),
            1 => Ty::Prim(self.s.pick(&["string", "&string", "bytes", "&bytes"])),
            2 => Ty::Vec(Box::new(self.ty(depth - 1, refs, generics, Flags { element: true, ..f }))),
            3 => {
                let k = Box::new(self.ty(depth - 1, refs, generics, Flags { key: true, element: true, ..f }));
                Ty::Map(k, Box::new(self.ty(depth - 1, refs, generics, Flags { element: true, ..f })))
            }
            _ => Ty::Set(Box::new(self.ty(depth - 1, refs, generics, Flags { key: true, element: true, ..f }))),
        };
        Ty::NonZero(Box::new(inner))
    }
}

#[derive(Clone, Copy, Default)]
struct Flags {
    /// Must be usable as the key of a map.
    key: bool,
    /// Must not be empty on the wire.
    element: bool,
    /// Is an argument for a type parameter.
    argument: bool,
}

pub fn param(name: &str) -> Ty {
    Ty::Ext { path: vec![], name: name.to_owned(), generics: vec![] }
}

/// Imports that lead nowhere, for tools that look at a single schema only.
pub fn with_imports(s: &mut Src, m: &mut Schema) {
    fn go(s: &mut Src, defs: &mut Vec<Def>, n: &mut u32) {
        for _ in 0..s.len(2) {
            *n += 1;
            let last = s.coin().then(|| format!("Imported{n}"));
            let mut segments: Vec<String> = (0..1 + gen_::many(s, 3)).map(|_| (*s.pick(SCHEMAS)).to_owned()).collect();
            if last.is_none() {
                *segments.last_mut().unwrap() = format!("imported_{n}");
            }
            let at = s.below(defs.len() + 1);
            defs.insert(at, Def::Use { segments, element: last });
        }
        for d in defs {
            if let Def::Mod { defs, .. } = d {
                go(s, defs, n);
            }
        }
    }
    if s.coin() {
        go(s, &mut m.defs, &mut 0);
    }
}

/// A single valid schema, possibly with imports from schemas that aren't there.
pub fn alone(s: &mut Src, o: Opts) -> Schema {
    let mut m = set(s, Opts { schemas: 1, ..o }).schemas.remove(0).1;
    with_imports(s, &mut m);
    m
}

fn uses(t: &Ty, name: &str) -> bool {
    t.any(|t| matches!(t, Ty::Ext { path, name: n, generics } if path.is_empty() && generics.is_empty() && n == name))
}

/// Where a set uses what: for classification only.
pub fn features(set: &Set) -> HashMap<&'static str, usize> {
    let mut out: HashMap<&'static str, usize> = HashMap::new();
    let mut hit = |k| *out.entry(k).or_default() += 1;
    for (_, s) in &set.schemas {
        s.walk(&mut |at, d| {
            if !at.is_empty() {
                hit("nested module");
            }
            match d {
                Def::Use { element: Some(_), .. } => hit("type import"),
                Def::Use { .. } => hit("module import"),
                Def::Alias { .. } => hit("alias"),
                Def::Const { .. } => hit("constant"),
                Def::Enum { .. } => hit("enum"),
                Def::Struct { .. } => hit("struct"),
                Def::Mod { .. } => {}
            }
        });
    }
    out
}
