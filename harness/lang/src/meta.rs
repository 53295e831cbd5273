//! M01: next free identifiers and size ranges.

use mabo_compiler as mc;
use mabo_parser::Schema as Ast;
use pbt::{Case, Check, Ret, Src, ensure, fail, no_panic};
use sk::{gen_, model::*, render};

pub fn check(id: &str) -> Option<Check> {
    Some(match id {
        "M01" => Check::new("M01", "the type has at least one container, or at least two identifiers are in use")
            .assume(&[
                "sizes are those of a value on its own: no field identifier, and no length prefix of a tuple that is directly the type of a field (see KF-tuple-range)",
                "within options and non-zero types the lower bound may be smaller than the smallest value",
            ])
            .part("size_ranges", 1_800_000, 5_000_000, sizes)
            .part("next_ids", 900_000, 2_000_000, next_ids)
            .probe("KF-tuple-range", || {
                let size = printed("(u8, u8)")?;
                // a field of this type is written as its length (1 byte) and two bytes
                if size.max.is_some_and(|m| m >= 3) { Ok(()) } else { Err(format!("a field of type (u8, u8) takes 3 bytes, but the range is {}..{:?}", size.min, size.max)) }
            }),
        _ => return None,
    })
}

/// A printed size range.
#[derive(Debug, PartialEq)]
pub struct Size {
    label: String,
    pub min: u128,
    pub max: Option<u128>,
    inner: Vec<(String, Option<Size>)>,
}

/// Read the Markdown that describes a size range.
fn read(text: &str) -> Result<Size, String> {
    let lines: Vec<&str> = text.lines().collect();
    let mut at = 0;
    let size = read_at(&lines, &mut at, lines.first().copied().unwrap_or_default(), 0)?;
    if at + 1 != lines.len() { Err(format!("line {:?} is not part of the tree", lines[at + 1])) } else { Ok(size) }
}

fn read_at(lines: &[&str], at: &mut usize, first: &str, indent: usize) -> Result<Size, String> {
    let bad = || format!("cannot read {first:?}");
    let rest = first.strip_prefix("**").ok_or_else(bad)?;
    let (label, rest) = rest.split_once("** `").ok_or_else(bad)?;
    let range = rest.strip_suffix('`').ok_or_else(bad)?;
    let num = |t: &str| t.parse::<u128>().map_err(|_| bad());
    let (min, max) = match range.split_once("..") {
        Some((min, "")) => (num(min)?, None),
        Some((min, max)) => (num(min)?, Some(num(max)?)),
        None => (num(range)?, Some(num(range)?)),
    };
    let mut size = Size { label: label.to_owned(), min, max, inner: vec![] };
    let prefix = format!("{:w$}- ", "", w = indent + 2);
    while let Some(line) = lines.get(*at + 1) {
        let Some(item) = line.strip_prefix(&prefix) else { break };
        *at += 1;
        let (name, rest) = item.split_once(": ").ok_or_else(|| format!("cannot read {line:?}"))?;
        let child = if rest == "_unknown_" { None } else { Some(read_at(lines, at, rest, indent + 2)?) };
        size.inner.push((name.to_owned(), child));
    }
    Ok(size)
}

fn printed(ty: &str) -> Result<Size, String> {
    let text = format!("struct A({ty})");
    let ast = Ast::parse(&text, None).map_err(|e| format!("does not parse: {e}"))?;
    let si = mc::simplify_schema(&ast);
    let mc::simplify::Definition::Struct(s) = &si.definitions[0] else { unreachable!() };
    let size = mabo_meta::wire_size(&s.fields.fields[0].ty).ok_or("no range")?;
    let mut out = String::new();
    size.print(&mut out, 0);
    read(&out)
}

/// Smallest and largest encoding of a value, and whether the lower bound must be exact.
struct Bounds {
    min: u128,
    max: Option<u128>,
    exact: bool,
}

fn varint(v: u128) -> u128 {
    u128::from((128 - v.leading_zeros()).div_ceil(7).max(1))
}

/// The bounds by the wire format: `None` for types defined elsewhere.
fn bounds(t: &Ty) -> Option<Bounds> {
    let b = |min, max| Some(Bounds { min, max, exact: true });
    match t {
        Ty::Prim(p) => match *p {
            "bool" | "u8" | "i8" => b(1, Some(1)),
            "u16" | "i16" => b(1, Some(3)),
            "u32" | "i32" => b(1, Some(5)),
            "u64" | "i64" => b(1, Some(10)),
            "u128" | "i128" => b(1, Some(19)),
            "f32" => b(4, Some(4)),
            "f64" => b(8, Some(8)),
            _ => b(1, None),
        },
        Ty::Vec(_) | Ty::Set(_) | Ty::Map(..) => b(1, None),
        Ty::Opt(t) => Some(Bounds { min: 1, max: bounds(t).and_then(|b| b.max).map(|m| m.saturating_add(1)), exact: false }),
        Ty::NonZero(t) => {
            let i = bounds(t);
            Some(Bounds { min: i.as_ref().map_or(0, |i| i.min), max: i.and_then(|i| i.max), exact: false })
        }
        Ty::Array(t, n) => {
            let i = bounds(t);
            let n = u128::from(*n);
            let exact = i.as_ref().is_some_and(|i| i.exact);
            let min = i.as_ref().map_or(0, |i| i.min).saturating_mul(n);
            let max = i.and_then(|i| i.max).map(|m| m.saturating_mul(n));
            Some(Bounds { min: min.saturating_add(varint(min)), max: max.map(|m| m.saturating_add(varint(m))), exact })
        }
        Ty::Tuple(ts) => {
            let mut all = Bounds { min: 0, max: Some(0), exact: true };
            for t in ts {
                match bounds(t) {
                    Some(i) => {
                        all.min = all.min.saturating_add(i.min);
                        all.max = all.max.and_then(|a| i.max.map(|b| a.saturating_add(b)));
                        all.exact &= i.exact;
                    }
                    None => {
                        all.max = None;
                        all.exact = false;
                    }
                }
            }
            Some(all)
        }
        Ty::Ext { .. } => None,
    }
}

/// Sizes beyond what fits into the machine's integers may be given as that limit.
const LIMIT: u128 = usize::MAX as u128;

fn judge(t: &Ty, size: Option<&Size>) -> Ret {
    let (want, size) = match (bounds(t), size) {
        (None, None) => return Ok(()),
        (Some(b), Some(s)) => (b, s),
        (None, Some(s)) => fail!("the size of {} cannot be known, but is given as {}..{:?}", render::ty_text(t), s.min, s.max),
        (Some(_), None) => fail!("no size is given for {}", render::ty_text(t)),
    };
    let text = || render::ty_text(t);
    ensure!(size.min <= want.min, "the smallest {} takes {} bytes, the range starts at {}", text(), want.min, size.min);
    match (want.max, size.max) {
        (Some(w), Some(m)) => ensure!(m >= w.min(LIMIT), "the largest {} takes {w} bytes, the range ends at {m}", text()),
        (None, Some(m)) => fail!("a {} can have any size, the range ends at {m}", text()),
        _ => {}
    }
    if want.exact {
        ensure!(size.min == want.min.min(LIMIT), "the smallest {} takes {} bytes, the range starts at {}", text(), want.min, size.min);
        ensure!(
            size.max == want.max.map(|m| m.min(LIMIT)),
            "the largest {} takes {:?} bytes, the range ends at {:?}",
            text(),
            want.max,
            size.max
        );
    }
    // the parts
    let label = match t {
        Ty::Prim(p) => p,
        Ty::Vec(_) => "vec",
        Ty::Map(..) => "hash_map",
        Ty::Set(_) => "hash_set",
        Ty::Opt(_) => "option",
        Ty::NonZero(_) => "non_zero",
        Ty::Array(..) => "array",
        Ty::Tuple(_) => "tuple",
        Ty::Ext { .. } => unreachable!(),
    };
    ensure!(size.label == label, "{} is called {:?}", text(), size.label);
    let names: Vec<&str> = size.inner.iter().map(|(n, _)| n.as_str()).filter(|n| *n != "length").collect();
    let has_length = size.inner.len() > names.len();
    let children = t.children();
    ensure!(names.len() == children.len(), "{} has the parts {names:?}", text());
    ensure!(has_length == matches!(t, Ty::Vec(_) | Ty::Map(..) | Ty::Set(_) | Ty::Array(..)), "{} has the parts {:?}", text(), size.inner);
    for (child, (_, s)) in children.into_iter().zip(size.inner.iter().filter(|(n, _)| n != "length")) {
        judge(child, s.as_ref())?;
    }
    if let Some((_, l)) = size.inner.iter().find(|(n, _)| n == "length") {
        let Some(l) = l else { fail!("the length of {} has no size", text()) };
        // the prefix that describes all elements
        let (min, max) = match (t, bounds(t)) {
            (Ty::Array(e, n), _) => {
                let e = bounds(e);
                let n = u128::from(*n);
                (varint(e.as_ref().map_or(0, |e| e.min).saturating_mul(n)), e.and_then(|e| e.max).map(|m| varint(m.saturating_mul(n))))
            }
            _ => (1, None),
        };
        let max = max.unwrap_or(10).min(10);
        ensure!(l.min <= min && l.max.is_none_or(|m| m >= max), "the length of {} takes {min}..{max} bytes, given is {}..{:?}", text(), l.min, l.max);
    }
    Ok(())
}

fn sizes(s: &mut Src, c: &mut Case) -> Ret {
    let depth = s.below(5);
    let t = gen_::wild_ty(s, depth);
    let text = render::ty_text(&t);
    c.show(|| text.clone());
    c.key(&text);
    c.nontrivial(t.depth() > 1);
    let src = format!("struct A({text})");
    let ast = Ast::parse(&src, None).map_err(|e| format!("does not parse: {e}"))?;
    let si = mc::simplify_schema(&ast);
    let mc::simplify::Definition::Struct(st) = &si.definitions[0] else { unreachable!() };
    let size = no_panic(|| mabo_meta::wire_size(&st.fields.fields[0].ty)).map_err(|p| format!("panics: {p}"))?;
    let read = match size {
        Some(size) => {
            let mut out = String::new();
            size.print(&mut out, 0);
            let indented = {
                let mut o = String::new();
                size.print(&mut o, 4);
                o
            };
            ensure!(indented.replace("\n    ", "\n") == out, "indentation changes the description");
            Some(read(&out)?)
        }
        None => None,
    };
    if let Some(r) = &read {
        c.label(if r.max.is_none() {
            "open range"
        } else if r.max == Some(r.min) {
            "fixed size"
        } else {
            "closed range"
        });
    } else {
        c.label("unknown");
    }
    judge(&t, read.as_ref())
}

fn next_ids(s: &mut Src, c: &mut Case) -> Ret {
    let unit = s.chance(1, 10);
    let n = 1 + s.len(8);
    let ids: Vec<Option<u32>> = (0..n)
        .map(|_| match s.weighted(&[6, 4, 1, 1]) {
            0 => None,
            1 => Some(s.below(20) as u32),
            2 => Some(u32::MAX - s.below(4) as u32),
            _ => Some(s.uint(32) as u32),
        })
        .collect();
    let derived = derive_ids(ids.iter().copied());
    if derived.iter().any(|i| *i > u64::from(u32::MAX)) || derived.iter().collect::<std::collections::HashSet<_>>().len() != derived.len() {
        // not a valid schema
        c.label("invalid");
        return Ok(());
    }
    let named = s.coin();
    let list: Vec<Field> = ids.iter().enumerate().map(|(i, id)| Field { comment: vec![], name: if named { format!("f{i}") } else { String::new() }, ty: Ty::Prim("u8"), id: *id }).collect();
    let fields = if unit {
        Fields::Unit
    } else if named {
        Fields::Named(list)
    } else {
        Fields::Unnamed(list)
    };
    let m = Schema {
        comment: vec![],
        defs: vec![
            Def::Struct { comment: vec![], attrs: vec![], name: "A".into(), generics: vec![], fields: fields.clone() },
            Def::Enum {
                comment: vec![],
                attrs: vec![],
                name: "B".into(),
                generics: vec![],
                variants: ids.iter().enumerate().map(|(i, id)| Variant { comment: vec![], name: format!("V{i}"), fields: fields.clone(), id: *id }).collect(),
            },
        ],
    };
    let text = render::plain(&m);
    c.show(|| text.clone());
    c.key(&text);
    c.nontrivial(n >= 2);
    let ast = Ast::parse(&text, None).map_err(|e| format!("does not parse: {e}"))?;
    let si = mc::simplify_schema(&ast);
    let max = *derived.iter().max().unwrap();
    if max == u64::from(u32::MAX) {
        // there is no larger identifier
        c.label("exhausted");
    }
    let want = |got: u32| max == u64::from(u32::MAX) || u64::from(got) == max + 1;
    let (mc::simplify::Definition::Struct(a), mc::simplify::Definition::Enum(b)) = (&si.definitions[0], &si.definitions[1]) else { unreachable!() };
    let variant = no_panic(|| mabo_meta::next_variant_id(&b.variants)).map_err(|p| format!("panics: {p}"))?;
    ensure!(want(variant), "the next variant is {variant}, in use are {derived:?}");
    for f in std::iter::once(&a.fields).chain(b.variants.iter().map(|v| &v.fields)) {
        match no_panic(|| mabo_meta::next_field_id(f)).map_err(|p| format!("panics: {p}"))? {
            Some(got) => ensure!(!unit && want(got), "the next field is {got}, in use are {derived:?}"),
            None => ensure!(unit, "there is no next field after {derived:?}"),
        }
    }
    Ok(())
}
