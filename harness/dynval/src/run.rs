//! G01-G04, G06: properties of compiled generated code.

use std::{collections::BTreeSet, process::ExitCode, sync::OnceLock};

use pbt::{Case, Check, Ret, Src, ensure, fail, no_panic};
use sk::{
    model::{Def, Lit, Ty},
    refs::Set,
    wire::{self, Codec, Kind, Quirks, R, Reader, Shape, Val, World},
};

use crate::{DecErr, Entry, sets};

/// What was generated for one set.
pub struct Made {
    pub index: usize,
    pub entries: Vec<Entry>,
    pub consts: Vec<Val>,
}

struct Item {
    index: usize,
    set: Set,
    world: World,
    roots: Vec<R>,
    entries: Vec<Entry>,
    consts: Vec<Val>,
}

static ITEMS: OnceLock<Vec<Item>> = OnceLock::new();

pub fn main(seed: u64, made: Vec<Made>) -> ExitCode {
    let items = made
        .into_iter()
        .map(|m| {
            let (set, _) = sets::make(seed, m.index);
            let world = World::of(&set);
            let roots = sets::roots(&world, seed, m.index);
            assert_eq!(roots.len(), m.entries.len());
            Item { index: m.index, set, world, roots, entries: m.entries, consts: m.consts }
        })
        .filter(|i| !i.entries.is_empty() || !i.consts.is_empty())
        .collect();
    let _ = ITEMS.set(items);
    pbt::main_with(|id| {
        Some(match id {
            "G01" => Check::new("G01", "the value has at least two fields that are not empty")
                .assume(ASSUME)
                .probe("KF-zero-size", zero_size)
                .probe("KF-field-id-range", || rejected(&["struct A { a: u8 @0 }", "struct A { a: u8 @536870912 }"]))
                .part("encode", 900_000, 10_000_000, |s, c| encode(s, c, false))
                .part("decode", 900_000, 10_000_000, decode),
            "G02" => Check::new("G02", "the value has at least two fields that are not empty").assume(ASSUME).part("size", 1_500_000, 10_000_000, |s, c| encode(s, c, true)),
            "G03" => Check::new("G03", "at least one unknown field was written, or the fields are out of order")
                .assume(ASSUME_SKIP)
                .part("unknown_fields", 900_000, 10_000_000, unknown)
                .part("unknown_nested", 60_000, 500_000, unknown_nested)
                .part("absent_fields", 900_000, 10_000_000, absent),
            "G04" => Check::new("G04", "the damaged bytes differ from valid ones")
                .assume(ASSUME)
                .part("truncated", 900_000, 10_000_000, truncated)
                .part("damaged", 900_000, 10_000_000, damaged)
                .part("unknown_damaged", 600_000, 8_000_000, unknown_damaged),
            "G06" => Check::new("G06", "every constant").assume(ASSUME).part("constants", 60_000, 200_000, constants),
            _ => return None,
        })
    })
}

const KEPT: &str = "the schemas keep to what the findings about code generation leave out (see DESIGN.md): their code compiles";
const ASSUME: &[&str] = &[KEPT];
const ASSUME_SKIP: &[&str] = &[KEPT, "unknown fields are of types that carry their length (see KF-skip-nested)"];

fn items() -> &'static [Item] {
    ITEMS.get().unwrap()
}

struct Pick {
    item: &'static Item,
    root: usize,
    t: &'static R,
    v: Val,
}

fn pick(s: &mut Src, c: &mut Case) -> Option<Pick> {
    let item = &items()[s.below(items().len())];
    if item.roots.is_empty() {
        return None;
    }
    let root = s.below(item.roots.len());
    let t = &item.roots[root];
    let depth = 1 + s.below(5);
    let mut budget = 250;
    let v = wire::value(s, &item.world, t, depth, &mut budget);
    c.show(|| describe(item, t, &v));
    c.key(&(item.index, root, &v));
    Some(Pick { item, root, t, v })
}

fn rich(v: &Val) -> bool {
    fn full(v: &Val) -> bool {
        match v {
            Val::Str(s) => !s.is_empty(),
            Val::Bytes(b) => !b.is_empty(),
            Val::List(l) => !l.is_empty(),
            Val::Map(m) => !m.is_empty(),
            Val::Opt(o) => o.is_some(),
            _ => true,
        }
    }
    match v {
        Val::Struct(f) | Val::Enum(_, f) => f.iter().filter(|v| full(v)).count() >= 2,
        _ => false,
    }
}

fn describe(item: &Item, t: &R, v: &Val) -> String {
    let R::Def(i, args) = t else { unreachable!() };
    let d = &item.world.defs[*i];
    let mut text = format!("set {}: {}::{}{} with arguments {args:?} = {}\n", item.index, item.world.schemas[d.schema], d.path.iter().map(|p| format!("{p}::")).collect::<String>(), d.name, wire::show(v));
    for (n, s) in &item.set.schemas {
        text += &format!("--- {n}.mabo\n{}\n", sk::render::plain(s));
    }
    text
}

impl Pick {
    fn codec(&self, tuple_size: bool) -> Codec<'static> {
        Codec { w: &self.item.world, q: Quirks { tuple_size } }
    }
    fn entry(&self) -> &'static Entry {
        &self.item.entries[self.root]
    }
    fn name(&self) -> String {
        let R::Def(i, _) = self.t else { unreachable!() };
        format!("{} (set {})", self.item.world.defs[*i].name, self.item.index)
    }
    /// The length prefixes of this value are affected by the known deviation of sizes.
    fn tainted(&self) -> bool {
        self.codec(false).to_vec(self.t, &self.v) != self.codec(true).to_vec(self.t, &self.v)
    }
}

fn sorted(mut b: Vec<u8>) -> Vec<u8> {
    b.sort_unstable();
    b
}

fn encode(s: &mut Src, c: &mut Case, size_only: bool) -> Ret {
    let Some(p) = pick(s, c) else { return Ok(()) };
    c.nontrivial(rich(&p.v));
    let (bytes, size) = no_panic(|| (p.entry().enc)(&p.v)).map_err(|e| format!("encoding {} panics: {e}", p.name()))?;
    let good = p.codec(false);
    if size_only {
        if size == bytes.len() {
            return Ok(());
        }
        let (want, quirk) = (good.size(p.t, &p.v), p.codec(true).size(p.t, &p.v));
        if quirk != want && size == quirk {
            return c.known("KF-tuple-size", || format!("the size of {} is given as {size}, but it takes {want} bytes", p.name()));
        }
        fail!("the size of {} is given as {size}, but {} bytes are written", p.name(), bytes.len());
    }
    c.count("bytes", bytes.len() as u64);
    let mut r = Reader { data: &bytes };
    let why = match good.dec(p.t, &mut r) {
        Ok(v) if v == p.v && r.data.is_empty() => return Ok(()),
        Ok(v) if v == p.v => format!("{} bytes too much are written", r.data.len()),
        Ok(v) => format!("what is written stands for {}", wire::show(&v)),
        Err(e) => e,
    };
    if p.tainted() && sorted(p.codec(true).to_vec(p.t, &p.v)) == sorted(bytes.clone()) {
        return c.known("KF-tuple-prefix", || format!("{} is written with a wrong length: {why}", p.name()));
    }
    fail!("{} is written as {bytes:?}: {why}", p.name())
}

fn cuts(s: &mut Src, n: usize) -> Vec<usize> {
    if n == 0 || s.coin() { vec![] } else { (0..1 + s.below(6)).map(|_| s.below(n)).collect() }
}

fn dec(p: &Pick, bytes: &[u8], cuts: &[usize]) -> Result<Result<(Val, usize), DecErr>, pbt::Fail> {
    no_panic(|| (p.entry().dec)(bytes, cuts)).map_err(|e| format!("decoding {} from {bytes:?} panics: {e}", p.name()).into())
}

fn expect(p: &Pick, want: &Val, bytes: &[u8], cuts: &[usize], left: usize) -> Ret {
    match dec(p, bytes, cuts)? {
        Ok((v, rest)) => {
            ensure!(v == *want, "{} is read as {} from {bytes:?}, expected {}", p.name(), wire::show(&v), wire::show(want));
            ensure!(rest == left, "reading {} from {bytes:?} leaves {rest} bytes instead of {left}", p.name());
            Ok(())
        }
        Err(e) => fail!("reading {} from {bytes:?} fails: {e:?}, expected {}", p.name(), wire::show(want)),
    }
}

fn decode(s: &mut Src, c: &mut Case) -> Ret {
    let Some(p) = pick(s, c) else { return Ok(()) };
    c.nontrivial(rich(&p.v));
    let mut bytes = p.codec(false).to_vec(p.t, &p.v);
    c.count("bytes", bytes.len() as u64);
    let tail = if s.chance(1, 3) { s.bytes(5) } else { vec![] };
    bytes.extend(&tail);
    let cuts = cuts(s, bytes.len());
    c.label_if(!cuts.is_empty(), "in chunks");
    expect(&p, &p.v, &bytes, &cuts, tail.len())
}

/// Type whose values say how long they are.
fn skippable(s: &mut Src, depth: usize) -> R {
    let any = |s: &mut Src| R::Prim(*s.pick(sk::model::PRIMS));
    if depth == 0 {
        return any(s);
    }
    let bx = |s: &mut Src| Box::new(inner(s, depth - 1));
    match s.below(7) {
        0 => R::Vec(bx(s)),
        1 => R::Map(Box::new(any(s)), bx(s)),
        2 => R::Set(bx(s)),
        3 => {
            let n = s.below(4) as u32;
            R::Array(bx(s), n)
        }
        4 => R::Tuple((0..2 + s.below(3)).map(|_| inner(s, depth - 1)).collect()),
        5 => R::NonZero(Box::new(R::Prim(*s.pick(&["u8", "u16", "i64", "i8", "u128", "string", "bytes"])))),
        _ => any(s),
    }
}

/// Within another one, options are fine as well.
fn inner(s: &mut Src, depth: usize) -> R {
    if s.chance(1, 6) { R::Opt(Box::new(skippable(s, depth))) } else { skippable(s, depth) }
}

fn extra(s: &mut Src, used: &BTreeSet<u32>) -> Vec<u8> {
    let none = World::default();
    let codec = Codec { w: &none, q: Quirks::default() };
    let t = skippable(s, 2);
    let v = wire::value(s, &none, &t, 3, &mut 20);
    let id = loop {
        let id = match s.below(3) {
            0 => 1 + s.below(30) as u32,
            1 => used.iter().next_back().map_or(1, |m| m + 1),
            _ => s.uint(29) as u32,
        };
        if id > 0 && id < 1 << 29 && !used.contains(&id) {
            break id;
        }
        if let Some(id) = (1..).find(|i| !used.contains(i)) {
            break id;
        }
    };
    let mut out = Vec::new();
    wire::leb(u128::from(id) * 8 + u128::from(wire::marker(&t)), &mut out);
    let body = codec.to_vec(&t, &v);
    if matches!(t, R::Tuple(_)) {
        wire::leb(body.len() as u128, &mut out);
    }
    out.extend(body);
    out
}

fn unknown(s: &mut Src, c: &mut Case) -> Ret {
    let Some(p) = pick(s, c) else { return Ok(()) };
    let (mut added, mut moved) = (0, false);
    let mut bytes = Vec::new();
    let w = &p.item.world;
    let shuffle = s.coin();
    p.codec(false).enc_with(p.t, &p.v, &mut bytes, &mut |def, variant, pieces| {
        let fields = match (&w.defs[def].shape, variant) {
            (Shape::Struct(f), _) => f,
            (Shape::Enum(v), Some(i)) => &v[i].fields,
            _ => unreachable!(),
        };
        let used: BTreeSet<u32> = fields.list.iter().map(|f| f.id).collect();
        let mut parts: Vec<Vec<u8>> = pieces.into_iter().map(|p| p.bytes).collect();
        if shuffle && parts.len() > 1 {
            s.shuffle(&mut parts);
            moved = true;
        }
        for _ in 0..s.weighted(&[2, 3, 1]) {
            let at = s.below(parts.len() + 1);
            parts.insert(at, extra(s, &used));
            added += 1;
        }
        parts
    });
    c.nontrivial(added > 0 || moved);
    c.count("unknown fields", added);
    c.label_if(moved, "out of order");
    let cuts = cuts(s, bytes.len());
    expect(&p, &p.v, &bytes, &cuts, 0)
}

/// Unknown fields of types that don't say how long they are: structs, enums, options of options.
fn unknown_nested(s: &mut Src, c: &mut Case) -> Ret {
    let Some(p) = pick(s, c) else { return Ok(()) };
    let R::Def(def, args) = p.t else { unreachable!() };
    let codec = p.codec(false);
    let (fields, _) = codec.fields(*def, &p.v);
    if fields.kind == Kind::Unit {
        return Ok(());
    }
    let id = (1..).find(|i| fields.list.iter().all(|f| f.id != *i)).unwrap();
    let t = if s.chance(1, 4) { R::Opt(Box::new(R::Prim("string"))) } else { p.item.roots[s.below(p.item.roots.len())].clone() };
    let v = wire::value(s, &p.item.world, &t, 3, &mut 50);
    let mut bytes = Vec::new();
    if let Some(id) = codec.variant_id(*def, &p.v) {
        wire::leb(id.into(), &mut bytes);
    }
    wire::leb(u128::from(id) * 8 + u128::from(wire::marker(&t)), &mut bytes);
    bytes.extend(codec.to_vec(&t, &v));
    for piece in codec.pieces(*def, args, &p.v) {
        bytes.extend(piece.bytes);
    }
    bytes.push(0);
    c.nontrivial(true);
    if let Err(e) = expect(&p, &p.v, &bytes, &[], 0) {
        return c.known("KF-skip-nested", || e.msg.clone());
    }
    Ok(())
}

/// Elements that take no bytes.
fn zero_size() -> Result<(), String> {
    let mut w = Vec::new();
    mabo::buf::encode_vec(&mut w, &[(), ()], |()| 0, |_, ()| {});
    let v = mabo::buf::decode_vec(&mut &w[..], |_| Ok(())).map_err(|e| e.to_string())?;
    if v.len() == 2 { Ok(()) } else { Err(format!("vec of two unit structs is read as {} elements", v.len())) }
}

/// Schemas whose values can't be written have to be rejected.
fn rejected(texts: &[&str]) -> Result<(), String> {
    for t in texts {
        if mabo_parser::Schema::parse(t, None).is_ok_and(|s| mabo_compiler::validate_schema(&s).is_ok()) {
            return Err(format!("{t} is accepted"));
        }
    }
    Ok(())
}

fn absent(s: &mut Src, c: &mut Case) -> Ret {
    let Some(mut p) = pick(s, c) else { return Ok(()) };
    let codec = p.codec(false);
    let R::Def(def, args) = p.t else { unreachable!() };
    // another variant
    if let (Shape::Enum(vs), true) = (&p.item.world.defs[*def].shape, s.chance(1, 3)) {
        let id = loop {
            let id = match s.below(3) {
                0 => s.below(20) as u32,
                1 => vs[s.below(vs.len())].id.wrapping_add(1),
                _ => s.uint(32) as u32,
            };
            if vs.iter().all(|v| v.id != id) {
                break id;
            }
            if let Some(id) = (0..).find(|i| vs.iter().all(|v| v.id != *i)) {
                break id;
            }
        };
        let mut bytes = Vec::new();
        wire::leb(id.into(), &mut bytes);
        bytes.extend(s.bytes(6));
        c.nontrivial(true);
        c.label("unknown variant");
        let got = dec(&p, &bytes, &[])?;
        ensure!(got == Err(DecErr::Variant(id)), "reading variant {id} of {} gives {got:?}", p.name());
        return Ok(());
    }
    let (fields, _) = codec.fields(*def, &p.v);
    if fields.list.is_empty() {
        return Ok(());
    }
    let (kind, list) = (fields.kind, fields.list.clone());
    let gone: Vec<bool> = list.iter().map(|_| s.chance(1, 3)).collect();
    let mut bytes = Vec::new();
    if let Some(id) = codec.variant_id(*def, &p.v) {
        wire::leb(id.into(), &mut bytes);
    }
    for piece in codec.pieces(*def, args, &p.v) {
        if !gone[piece.index] {
            bytes.extend(piece.bytes);
        }
    }
    bytes.push(0);
    let missing: Vec<_> = list.iter().zip(&gone).filter(|(f, g)| **g && !matches!(f.ty, R::Opt(_))).map(|(f, _)| f).collect();
    c.nontrivial(gone.contains(&true));
    if missing.is_empty() {
        let (Val::Struct(vals) | Val::Enum(_, vals)) = &mut p.v else { unreachable!() };
        for (v, g) in vals.iter_mut().zip(&gone) {
            if *g {
                *v = Val::Opt(None);
            }
        }
        c.label("optional fields only");
        return expect(&p, &p.v, &bytes, &[], 0);
    }
    c.label("required fields");
    match dec(&p, &bytes, &[])? {
        Err(DecErr::Missing(id, name)) => {
            let Some(f) = missing.iter().find(|f| f.id == id) else { fail!("field {id} of {} is reported as missing, but that is {:?}", p.name(), missing.iter().map(|f| f.id).collect::<Vec<_>>()) };
            let want = (kind == Kind::Named).then(|| f.name.clone());
            ensure!(name == want, "missing field {id} of {} is called {name:?} instead of {want:?}", p.name());
            Ok(())
        }
        got => fail!("reading {} without the fields {:?} gives {got:?}", p.name(), missing.iter().map(|f| f.id).collect::<Vec<_>>()),
    }
}

fn truncated(s: &mut Src, c: &mut Case) -> Ret {
    let Some(p) = pick(s, c) else { return Ok(()) };
    let bytes = p.codec(false).to_vec(p.t, &p.v);
    if bytes.is_empty() {
        return Ok(());
    }
    let n = if s.chance(1, 3) { bytes.len() - 1 } else { s.below(bytes.len()) };
    let cuts = cuts(s, n);
    c.nontrivial(true);
    if let Ok((v, _)) = dec(&p, &bytes[..n], &cuts)? {
        fail!("{} is read as {} from the first {n} of {} bytes {bytes:?}", p.name(), wire::show(&v), bytes.len());
    }
    Ok(())
}

fn damaged(s: &mut Src, c: &mut Case) -> Ret {
    let Some(mut p) = pick(s, c) else { return Ok(()) };
    let valid = p.codec(false).to_vec(p.t, &p.v);
    let mut bytes = if s.chance(1, 12) { s.bytes(40) } else { valid.clone() };
    for _ in 0..1 + s.below(3) {
        let n = bytes.len();
        match s.below(5) {
            0 if n > 0 => bytes[s.below(n)] ^= 1 << s.below(8),
            1 if n > 0 => {
                let at = s.below(n);
                bytes[at] = *s.pick(&[0, 1, 2, 0x7f, 0x80, 0xff, 8, 9]);
            }
            2 => {
                let at = s.below(n + 1);
                let b = s.byte();
                bytes.insert(at, b);
            }
            3 if n > 0 => {
                bytes.remove(s.below(n));
            }
            4 if n > 2 => {
                let a = s.below(n);
                let len = 1 + s.below((n - a).min(8));
                let chunk = bytes[a..a + len].to_vec();
                let at = s.below(n);
                bytes.splice(at..at, chunk);
            }
            _ => {}
        }
    }
    c.nontrivial(bytes != valid);
    let cuts = cuts(s, bytes.len());
    match dec(&p, &bytes, &cuts)? {
        Err(_) => c.label("rejected"),
        Ok((v, _)) => {
            c.label("accepted");
            // whatever was read is an ordinary value
            p.v = v.clone();
            if p.tainted() {
                return Ok(());
            }
            let (again, _) = no_panic(|| (p.entry().enc)(&v)).map_err(|e| format!("encoding {} panics: {e}", p.name()))?;
            expect(&p, &v, &again, &[], 0)?;
        }
    }
    Ok(())
}

/// An unknown field that can't be skipped: it claims more data than there is, or is of no known kind.
fn unknown_damaged(s: &mut Src, c: &mut Case) -> Ret {
    let Some(p) = pick(s, c) else { return Ok(()) };
    let w = &p.item.world;
    let total = p.codec(false).to_vec(p.t, &p.v).len();
    let turn = s.below(4);
    let (mut calls, mut field) = (0, None);
    let mut bytes = Vec::new();
    p.codec(false).enc_with(p.t, &p.v, &mut bytes, &mut |def, variant, pieces| {
        let fields = match (&w.defs[def].shape, variant) {
            (Shape::Struct(f), _) => f,
            (Shape::Enum(v), Some(i)) => &v[i].fields,
            _ => unreachable!(),
        };
        let mut parts: Vec<Vec<u8>> = pieces.into_iter().map(|p| p.bytes).collect();
        calls += 1;
        // (the innermost ones come first)
        if field.is_some() || calls <= turn {
            return parts;
        }
        let id = (1 + s.below(40) as u32..).find(|i| fields.list.iter().all(|f| f.id != *i)).unwrap();
        let mut out = Vec::new();
        let what = match s.below(6) {
            0 => {
                wire::leb(u128::from(id) * 8 + 5 + u128::from(s.upto(2)), &mut out);
                out.extend(s.bytes(3));
                "no known kind"
            }
            1 => {
                // the upper bits of a field's number
                wire::leb((u128::from(id) * 8 + u128::from(s.upto(4))) | (1 << (35 + s.below(30))), &mut out);
                out.push(0);
                "number too large"
            }
            n => {
                wire::leb(u128::from(id) * 8 + 1, &mut out);
                let more = s.below(total + 20) as u128;
                let len = match n {
                    2 => (total + 1000) as u128 + more,
                    3 => (1u128 << (24 + s.below(40))) + more,
                    4 => u128::from(u64::MAX) - more,
                    _ => (1u128 << (70 + s.below(50))) + more,
                };
                wire::leb(len, &mut out);
                let data = s.below(8);
                out.extend(vec![0x55; data]);
                "too long"
            }
        };
        field = Some((what, out.clone()));
        let at = s.below(parts.len() + 1);
        parts.insert(at, out);
        parts
    });
    let Some((what, field)) = field else { return Ok(()) };
    c.nontrivial(true);
    c.label(what);
    let cuts = cuts(s, bytes.len());
    if let Ok((v, _)) = dec(&p, &bytes, &cuts)? {
        fail!("{} is read as {} from {bytes:?}, despite the unknown field {field:?} ({what})", p.name(), wire::show(&v));
    }
    Ok(())
}

pub fn const_of(ty: &Ty, value: &Lit) -> Val {
    let Ty::Prim(p) = ty else { unreachable!() };
    match value {
        Lit::Bool(b) => Val::Bool(*b),
        Lit::Int(n) if p.starts_with('u') => Val::U(*n as u128),
        Lit::Int(n) => Val::I(*n),
        Lit::Float(f) if *p == "f32" => Val::F32((*f as f32).to_bits()),
        Lit::Float(f) => Val::F64(f.to_bits()),
        Lit::Str(s) => Val::Str(s.clone()),
        Lit::Bytes(b) => Val::Bytes(b.clone()),
    }
}

fn constants(s: &mut Src, c: &mut Case) -> Ret {
    let item = &items()[s.below(items().len())];
    let mut all = Vec::new();
    for (n, schema) in &item.set.schemas {
        schema.walk(&mut |at, d| {
            if let Def::Const { name, ty, value, .. } = d {
                all.push((format!("{n}::{}{name}", at.iter().map(|a| format!("{a}::")).collect::<String>()), ty.clone(), const_of(ty, value)));
            }
        });
    }
    if all.is_empty() {
        return Ok(());
    }
    let i = s.below(all.len());
    let (name, ty, want) = &all[i];
    c.nontrivial(true);
    c.key(&(item.index, i));
    c.show(|| format!("const {name}: {ty:?} = {}", wire::show(want)));
    ensure!(item.consts.len() == all.len(), "{} constants are generated instead of {}", item.consts.len(), all.len());
    ensure!(item.consts[i] == *want, "constant {name} of set {} is {} instead of {}", item.index, wire::show(&item.consts[i]), wire::show(want));
    Ok(())
}
