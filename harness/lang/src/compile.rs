//! C01–C04: what the compiler accepts and what it hands to code generators.

use mabo_compiler as mc;
use mabo_compiler::validate as v;
use mabo_parser::Schema as Ast;
use miette::Diagnostic;
use pbt::{Case, Check, Ret, Src, ensure, fail, no_panic};
use sk::{
    defects::{break_schema, nth, set_name, some_ty, types_mut},
    gen_::{self, FULL},
    model::*,
    refs::{self, Set, Verdict, Violation},
    render::{self, Style},
    valid,
};

use crate::conv;

pub fn check(id: &str) -> Option<Check> {
    Some(match id {
        "C01" => Check::new("C01", "the schema has at least two definitions and was parsed")
            .part("valid_schemas", 120_000, 800_000, valid_accepted)
            .part("valid_schemas_with_defects", 360_000, 2_500_000, |s, c| defects(s, c, false))
            .part("unrestricted_schemas", 180_000, 1_200_000, |s, c| defects(s, c, true))
            .part("large_schemas", 300, 3_000, |s, c| {
                let m = large(s, c);
                defects_of(m, s, c)
            }),
        "C02" => Check::new("C02", "at least one identifier is derived and one is written")
            .part("fields", 240_000, 1_500_000, |s, c| id_derivation(s, c, false, false))
            .part("variants", 240_000, 1_500_000, |s, c| id_derivation(s, c, true, false))
            .part("many", 300, 3_000, |s, c| {
                let variants = s.coin();
                id_derivation(s, c, variants, true)
            }),
        "C03" => Check::new("C03", "at least two references or imports are resolved")
            .assume(&[
                "imports inside of modules, and names imported by the root used inside of modules, are not judged: the documentation leaves them open (see KF-nested-imports)",
                "names of definitions in one module are unique (checked by C01)",
            ])
            .part("valid_sets", 120_000, 800_000, |s, c| resolution(s, c, false))
            .part("sets_with_defects", 360_000, 2_500_000, |s, c| resolution(s, c, true))
            .part("large_sets", 300, 3_000, |s, c| {
                let mut set = any_set(s);
                for (_, m) in &mut set.schemas {
                    c.label(sk::large::grow(s, m, true));
                }
                let broken = s.coin();
                resolution_of(set, s, c, broken)
            })
            .probe("KF-nested-imports", || {
                let b = Ast::parse("mod m {\n    use missing::Thing;\n}\n", None).map_err(|e| e.to_string())?;
                match mc::resolve_schemas(&[("b", &b)]) {
                    Err(_) => Ok(()),
                    Ok(()) => Err("an import of a missing schema inside of a module is accepted".into()),
                }
            }),
        "C04" => Check::new("C04", "the schema has at least two definitions")
            .part("valid_schemas", 120_000, 800_000, |s, c| simplify(s, c, false))
            .part("unrestricted_schemas", 120_000, 800_000, |s, c| simplify(s, c, true))
            .part("large_schemas", 400, 4_000, |s, c| {
                let m = large(s, c);
                simplify_of(m, s, c)
            }),
        _ => return None,
    })
}

fn large(s: &mut Src, c: &mut Case) -> Schema {
    let mut m = valid::alone(s, valid::ANY);
    c.label(sk::large::grow(s, &mut m, true));
    m
}

fn text_of(s: &mut Src, m: &Schema) -> String {
    if s.chance(1, 3) { render::schema(m, Style::Free(s)) } else { render::plain(m) }
}

fn any_set(s: &mut Src) -> Set {
    let o = valid::Opts { schemas: 1 + s.below(3), decls: 1 + s.below(6), ..valid::ANY };
    valid::set(s, o)
}

fn show(set: &Set, texts: &[String]) -> String {
    set.schemas.iter().zip(texts).map(|((n, _), t)| format!("---- {n}.mabo\n{t}")).collect()
}

fn valid_accepted(s: &mut Src, c: &mut Case) -> Ret {
    let set = any_set(s);
    let texts: Vec<String> = set.schemas.iter().map(|(_, m)| text_of(s, m)).collect();
    c.show(|| show(&set, &texts));
    c.key(&texts);
    c.nontrivial(set.schemas.iter().map(|(_, m)| m.count()).sum::<usize>() >= 2);
    for ((_, m), t) in set.schemas.iter().zip(&texts) {
        debug_assert!(refs::violations(m).is_empty());
        let ast = Ast::parse(t, None).map_err(|e| format!("does not parse: {e}"))?;
        mc::validate_schema(&ast).map_err(|e| format!("a valid schema is rejected: {e:?}"))?;
    }
    Ok(())
}

// ---- defects ----

/// The complaint of the compiler in the terms of the reference, after checking its locations.
fn translate(text: &str, e: &v::Error) -> Result<Violation, String> {
    let at = |r: &std::ops::Range<usize>| text.get(r.clone()).ok_or_else(|| format!("label {r:?} is not within the text"));
    let names = |name: &str, a: &std::ops::Range<usize>, b: &std::ops::Range<usize>| {
        if at(a)? == name && at(b)? == name && a.end <= b.start { Ok(()) } else { Err(format!("labels {a:?} and {b:?} do not show {name:?} and its repetition")) }
    };
    let ids = |id: u32, a: &std::ops::Range<usize>, b: &std::ops::Range<usize>, names: Option<(&str, &str)>| {
        for (r, n) in [(a, names.map(|n| n.0)), (b, names.map(|n| n.1))] {
            let t = at(r)?;
            let named = |n: &str| t.strip_prefix(n).is_some_and(|r| !r.starts_with(|c: char| c.is_ascii_alphanumeric() || c == '_'));
            let ok = if t.starts_with('@') { t == format!("@{id}") } else { n.map_or_else(|| Ast::parse(&format!("struct A({t})"), None).is_ok_and(|_| !t.is_empty()), named) };
            if !ok {
                return Err(format!("label {r:?} shows {t:?} for the repeated id {id}"));
            }
        }
        if a.end <= b.start { Ok(()) } else { Err(format!("labels {a:?} and {b:?} are out of order")) }
    };
    Ok(match e {
        v::Error::DuplicateId(v::DuplicateId::EnumVariant(d)) => {
            ids(d.id.get(), &d.first, &d.second, Some((&d.other_name, &d.name)))?;
            Violation::VariantId { id: d.id.get(), name: d.name.clone(), other: d.other_name.clone() }
        }
        v::Error::DuplicateId(v::DuplicateId::Field(v::DuplicateFieldId::Named(d))) => {
            ids(d.id.get(), &d.first, &d.second, Some((&d.other_name, &d.name)))?;
            Violation::NamedFieldId { id: d.id.get(), name: d.name.clone(), other: d.other_name.clone() }
        }
        v::Error::DuplicateId(v::DuplicateId::Field(v::DuplicateFieldId::Unnamed(d))) => {
            ids(d.id.get(), &d.first, &d.second, None)?;
            Violation::UnnamedFieldId { id: d.id.get(), position: d.position, other: d.other_position }
        }
        v::Error::DuplicateName(v::DuplicateName::EnumVariant(d)) => {
            names(&d.name, &d.first, &d.second)?;
            Violation::VariantName(d.name.clone())
        }
        v::Error::DuplicateName(v::DuplicateName::Field(d)) => {
            names(&d.name, &d.first, &d.second)?;
            Violation::FieldName(d.name.clone())
        }
        v::Error::DuplicateName(v::DuplicateName::InModule(d)) => {
            names(&d.name, &d.first, &d.second)?;
            Violation::DefName(d.name.clone())
        }
        v::Error::InvalidGeneric(v::InvalidGenericType::Duplicate(d)) => {
            names(&d.name, &d.first, &d.second)?;
            Violation::DuplicateGeneric(d.name.clone())
        }
        v::Error::InvalidGeneric(v::InvalidGenericType::Unused(d)) => {
            if at(&d.declared)? != d.name {
                return Err(format!("label {:?} does not show {:?}", d.declared, d.name));
            }
            Violation::UnusedGeneric(d.name.clone())
        }
        v::Error::TupleSize(d) => {
            let shown = at(&d.declared)?;
            let alone = format!("struct A({shown})");
            let ast = Ast::parse(&alone, None).map_err(|_| format!("label {:?} shows {shown:?}, which is no type", d.declared))?;
            let ok = |n: usize| match d.amount {
                v::InvalidTupleAmount::Empty => n == 0,
                v::InvalidTupleAmount::Single => n == 1,
                v::InvalidTupleAmount::TooLarge => n > 12,
            };
            let hit = refs::violations(&conv::from_ast(&ast)).into_iter().find(|v| matches!(v, Violation::Tuple(n) if ok(*n)));
            hit.ok_or_else(|| format!("label {:?} shows {shown:?}, which has no such tuple", d.declared))?
        }
    })
}

fn defects(s: &mut Src, c: &mut Case, wild: bool) -> Ret {
    let m = if wild {
        gen_::wild_schema(s, &FULL)
    } else {
        valid::alone(s, valid::ANY)
    };
    defects_of(m, s, c)
}

fn defects_of(mut m: Schema, s: &mut Src, c: &mut Case) -> Ret {
    for _ in 0..s.below(4) {
        break_schema(s, &mut m);
    }
    let text = text_of(s, &m);
    c.show(|| text.clone());
    c.key(&text);
    c.nontrivial(m.count() >= 2);
    let ast = Ast::parse(&text, None).map_err(|e| format!("does not parse: {e}"))?;
    let want = refs::violations(&m);
    let got = no_panic(|| mc::validate_schema(&ast)).map_err(|p| format!("validation panics: {p}"))?;
    c.label(if want.is_empty() {
        "valid"
    } else if want.len() == 1 {
        "one violation"
    } else {
        "several violations"
    });
    match got {
        Ok(()) => ensure!(want.is_empty(), "accepted in spite of {:?}", want[0]),
        Err(e) => {
            ensure!(!want.is_empty(), "rejected without a reason: {e:?}");
            let v = translate(&text, &e)?;
            ensure!(want.contains(&v), "{v:?} is reported, but the violations are {want:?}");
            c.label(match v {
                Violation::VariantId { .. } => "variant id",
                Violation::NamedFieldId { .. } => "field id",
                Violation::UnnamedFieldId { .. } => "positional field id",
                Violation::VariantName(_) => "variant name",
                Violation::FieldName(_) => "field name",
                Violation::DefName(_) => "definition name",
                Violation::DuplicateGeneric(_) => "duplicate type parameter",
                Violation::UnusedGeneric(_) => "unused type parameter",
                Violation::Tuple(_) => "tuple size",
            });
            crate::parse::report(None, &text, &e)?;
        }
    }
    Ok(())
}

// ---- C02 ----

fn id_derivation(s: &mut Src, c: &mut Case, variants: bool, many: bool) -> Ret {
    let n = if many { *s.pick(&[200, 255, 256, 257, 300, 1_000, 3_000]) } else { 1 + s.len(12) };
    // most of them derived, or nothing would be valid
    let derived = if many { 4_000 } else { 6 };
    let ids: Vec<Option<u32>> = (0..n)
        .map(|_| match s.weighted(&[derived, 4, 1, 1]) {
            0 => None,
            1 => Some(s.below(20) as u32),
            2 => Some(u32::MAX - s.below(4) as u32),
            _ => Some(s.uint(32) as u32),
        })
        .collect();
    let named = s.coin();
    let field = |i: usize, id| Field { comment: vec![], name: if named { format!("f{i}") } else { String::new() }, ty: Ty::Prim("u8"), id };
    let fields = |ids: &[Option<u32>]| {
        let l = ids.iter().enumerate().map(|(i, id)| field(i, *id)).collect();
        if named { Fields::Named(l) } else { Fields::Unnamed(l) }
    };
    let def = if variants {
        let inner = s.coin();
        Def::Enum {
            comment: vec![],
            attrs: vec![],
            name: "A".into(),
            generics: vec![],
            variants: if inner {
                // the fields of one variant, next to another one
                vec![
                    Variant { comment: vec![], name: "V".into(), fields: fields(&ids), id: None },
                    Variant { comment: vec![], name: "W".into(), fields: fields(&[None, None]), id: None },
                ]
            } else {
                ids.iter().enumerate().map(|(i, id)| Variant { comment: vec![], name: format!("V{i}"), fields: if s.coin() { Fields::Unit } else { fields(&[None]) }, id: *id }).collect()
            },
        }
    } else {
        Def::Struct { comment: vec![], attrs: vec![], name: "A".into(), generics: vec![], fields: fields(&ids) }
    };
    let m = Schema { comment: vec![], defs: vec![def] };
    let text = render::plain(&m);
    c.show(|| text.clone());
    c.key(&text);
    c.nontrivial(ids.iter().any(Option::is_some) && ids.iter().any(Option::is_none));
    let ast = Ast::parse(&text, None).map_err(|e| format!("does not parse: {e}"))?;
    let valid = refs::violations(&m).is_empty();
    c.label(if valid { "unique" } else { "repeated" });
    let got = no_panic(|| mc::validate_schema(&ast)).map_err(|p| format!("validation panics: {p}"))?;
    ensure!(got.is_ok() == valid, "identifiers {ids:?}: {got:?}");
    if valid {
        let si = conv::from_simplified(&no_panic(|| mc::simplify_schema(&ast)).map_err(|p| format!("simplification panics: {p}"))?);
        let want = simplified(&m);
        ensure!(si == want, "identifiers {ids:?} are derived as {si:?} instead of {want:?}");
    }
    Ok(())
}

// ---- C03 ----

fn break_set(s: &mut Src, set: &mut Set) {
    let which = s.below(set.schemas.len());
    let names: Vec<String> = set.schemas.iter().map(|(n, _)| n.clone()).collect();
    let mut types: Vec<String> = vec!["Missing".into()];
    let mut mods: Vec<String> = names.clone();
    mods.push("missing".into());
    for (_, m) in &set.schemas {
        m.walk(&mut |_, d| match d {
            Def::Mod { name, .. } => mods.push(name.clone()),
            Def::Struct { name, .. } | Def::Enum { name, .. } | Def::Alias { name, .. } => types.push(name.clone()),
            _ => {}
        });
    }
    let m = &mut set.schemas[which].1;
    let total = m.count();
    if total == 0 {
        return;
    }
    let mut n = s.below(total);
    nth(&mut m.defs, &mut n, &mut |defs, i| {
        let kind = s.below(12);
        if let Def::Use { segments, element } = &mut defs[i] {
            match kind {
                0 | 1 => {
                    let at = s.below(segments.len());
                    segments[at] = s.pick(&mods).clone();
                }
                2 => {
                    let at = 1 + s.below(segments.len());
                    segments.insert(at, s.pick(&mods).clone());
                }
                3 if segments.len() > 1 => {
                    let at = s.below(segments.len());
                    segments.remove(at);
                }
                4 | 5 => *element = Some(s.pick(&types).clone()),
                6 => *element = None,
                _ => {
                    defs.remove(i);
                }
            }
            return;
        }
        match kind {
            0 => {
                let to = s.pick(&types).clone();
                if !matches!(defs[i], Def::Mod { .. } | Def::Const { .. }) {
                    set_name(&mut defs[i], to);
                }
            }
            1 => {
                defs.remove(i);
            }
            2 => {
                // move into a module of its own
                let d = defs.remove(i);
                let name = s.pick(&mods).clone();
                defs.push(Def::Mod { comment: vec![], name, defs: vec![d] });
            }
            3 => {
                if let Def::Struct { generics, .. } | Def::Enum { generics, .. } = &mut defs[i] {
                    if s.coin() || generics.is_empty() { generics.push("Extra".into()) } else { generics.truncate(s.below(generics.len())) }
                }
            }
            4 => {
                if let Def::Mod { defs: inner, .. } = &mut defs[i] {
                    let inner = std::mem::take(inner);
                    defs.extend(inner);
                }
            }
            5 => {
                // the same name as something else than a type
                let name = defs[i].name().to_owned();
                if matches!(defs[i], Def::Struct { .. } | Def::Enum { .. }) {
                    defs[i] = Def::Alias { comment: vec![], name, generics: vec![], target: Ty::Prim("u8") };
                }
            }
            _ => {
                let mut ts = types_mut(&mut defs[i]);
                if ts.is_empty() {
                    return;
                }
                let at = s.below(ts.len());
                let t = some_ty(s, ts[at]);
                match t {
                    Ty::Ext { path, name, generics } => match s.below(6) {
                        0 => *name = s.pick(&types).clone(),
                        1 => path.insert(0, s.pick(&mods).clone()),
                        2 if !path.is_empty() => {
                            path.remove(s.below(path.len()));
                        }
                        3 if !path.is_empty() => {
                            let at = s.below(path.len());
                            path[at] = s.pick(&mods).clone();
                        }
                        4 => generics.push(Ty::Prim("u8")),
                        _ => {
                            generics.pop();
                        }
                    },
                    t => {
                        let path = (0..s.below(3)).map(|_| s.pick(&mods).clone()).collect();
                        *t = Ty::Ext { path, name: s.pick(&types).clone(), generics: vec![Ty::Prim("bool"); s.weighted(&[4, 1])] };
                    }
                }
            }
        }
    });
}

fn unique_names(defs: &[Def]) -> bool {
    let mut seen = std::collections::HashSet::new();
    defs.iter().all(|d| seen.insert(d.name().to_owned()) && if let Def::Mod { defs, .. } = d { unique_names(defs) } else { true })
}

/// Whether the error gives the reason for rejecting a path.
fn says(e: &mc::resolve::ResolveError, why: &str, path: &str) -> bool {
    use mc::resolve::{ResolveError as E, ResolveImport as I, ResolveLocal as L, ResolveRemote as R};
    let segments: Vec<&str> = path.split("::").collect();
    let module = |m: &mc::resolve::MissingModule| why == "missing module" && segments.contains(&m.name.as_str());
    let definition = |d: &mc::resolve::MissingDefinition| why == "missing definition" && segments.last() == Some(&d.name.as_str());
    let kind = |k: &str| why == "neither a struct nor an enum" && ["type alias", "constant"].contains(&k);
    let count = |a: usize, b: usize| why == "wrong number of type arguments" && a != b;
    match e {
        E::Local(e) => match &**e {
            L::MissingModule(m) => module(m),
            L::MissingDefinition(d) => definition(d),
            L::GenericsCount(c) => count(c.definition, c.usage),
            L::InvalidKind(k) => kind(k.kind),
        },
        E::Import(e) => match &**e {
            I::MissingSchema(m) => why == "missing schema" && segments[0] == m.name,
            I::MissingModule(m) => module(m),
            I::MissingDefinition(d) => definition(d),
            I::InvalidKind(k) => kind(k.kind) && kind(k.declaration[0].kind),
        },
        E::Remote(e) => match &**e {
            R::MissingImport(m) => m.ty == path,
            R::MissingModule(m) => module(m),
            R::MissingDefinition(d) => definition(d),
            R::GenericsCount(c) => count(c.amount, c.declaration[0].amount),
            R::InvalidKind(k) => kind(k.kind) && kind(k.declaration[0].kind),
        },
    }
}

fn resolution(s: &mut Src, c: &mut Case, broken: bool) -> Ret {
    let set = any_set(s);
    resolution_of(set, s, c, broken)
}

fn resolution_of(mut set: Set, s: &mut Src, c: &mut Case, broken: bool) -> Ret {
    if broken {
        for _ in 0..1 + s.below(3) {
            let before = set.clone();
            break_set(s, &mut set);
            if !set.schemas.iter().all(|(_, m)| unique_names(&m.defs)) {
                set = before;
            }
        }
    }
    let texts: Vec<String> = set.schemas.iter().map(|(_, m)| render::plain(m)).collect();
    c.show(|| show(&set, &texts));
    c.key(&texts);
    let files: Vec<String> = set.schemas.iter().map(|(n, _)| format!("{n}.mabo")).collect();
    let mut asts = Vec::new();
    for (t, f) in texts.iter().zip(&files) {
        asts.push(Ast::parse(t, Some(f.as_ref())).map_err(|e| format!("does not parse: {e}"))?);
    }
    let order: Vec<(&str, &Ast<'_>)> = set.schemas.iter().zip(&asts).map(|((n, _), a)| (n.as_str(), a)).collect();
    let judged = refs::judge(&set);
    c.nontrivial(judged.len() >= 2);
    c.count("references", judged.len() as u64);
    let bad: Vec<_> = judged.iter().filter(|j| matches!(j.verdict, Verdict::Bad(_))).collect();
    let open = judged.iter().any(|j| j.verdict == Verdict::Open);
    let got = no_panic(|| mc::resolve_schemas(&order)).map_err(|p| format!("resolution panics: {p}"))?;
    for (f, v) in sk::valid::features(&set) {
        c.label_if(v > 0, f);
    }
    match got {
        Ok(()) => {
            c.label("accepted");
            if let Some(b) = bad.first() {
                fail!("accepted although {:?} in {:?} of {} is a {:?}", b.names, b.at, set.schemas[b.schema].0, b.verdict);
            }
        }
        Err(e) => {
            c.label("rejected");
            if bad.is_empty() {
                ensure!(open, "rejected although every reference leads to something: {:?}", e.cause);
                c.label("left open");
                return Ok(());
            }
            let src = e.source_code().ok_or_else(|| "the error has no source".to_owned())?;
            let span = src.read_span(&(0, 0).into(), 0, 0).map_err(|e| e.to_string())?;
            let file = span.name().unwrap_or_default().to_owned();
            let at = files.iter().position(|f| *f == file).ok_or_else(|| format!("the error points at the unknown source {file:?}"))?;
            let shown: Vec<&str> = e.labels().into_iter().flatten().filter_map(|l| texts[at].get(l.offset()..l.offset() + l.len())).collect();
            ensure!(
                shown.iter().any(|t| judged.iter().any(|j| !matches!(j.verdict, Verdict::Ok(_)) && j.schema == at && j.names.iter().any(|n| n == t))),
                "the error {:?} in {file} points at {shown:?}, but what is wrong there is {:?}",
                e.cause,
                bad.iter().filter(|b| b.schema == at).map(|b| (&b.names, &b.verdict)).collect::<Vec<_>>()
            );
            ensure!(e.labels().into_iter().flatten().count() == shown.len(), "a label is not within the text");
            if !open {
                let here = judged.iter().filter(|j| j.schema == at && j.names.iter().any(|n| shown.contains(&n.as_str())));
                let why: Vec<(&str, &str)> = here.filter_map(|j| if let Verdict::Bad(w) = j.verdict { Some((w, j.written.as_str())) } else { None }).collect();
                ensure!(why.iter().any(|(w, path)| says(&e.cause, w, path)), "the error is {:?}, but what is wrong there is {why:?}", e.cause);
            }
            for r in e.related().into_iter().flatten() {
                let src = r.source_code().ok_or_else(|| "the related declaration has no source".to_owned())?;
                for l in r.labels().into_iter().flatten() {
                    let span = src.read_span(l.inner(), 0, 0).map_err(|e| format!("the related declaration is not within its source: {e}"))?;
                    let shown = String::from_utf8_lossy(span.data()).into_owned();
                    ensure!(
                        bad.iter().any(|b| b.names.contains(&shown)) || open,
                        "the related declaration shows {shown:?}, wrong are {:?}",
                        bad.iter().map(|b| &b.names).collect::<Vec<_>>()
                    );
                }
            }
            crate::parse::rendered(Some(&mut *c), &e)?;
        }
    }
    Ok(())
}

// ---- C04 ----

fn simplify(s: &mut Src, c: &mut Case, wild: bool) -> Ret {
    let m = if wild {
        gen_::wild_schema(s, &FULL)
    } else {
        valid::alone(s, valid::ANY)
    };
    simplify_of(m, s, c)
}

fn simplify_of(m: Schema, s: &mut Src, c: &mut Case) -> Ret {
    if !refs::violations(&m).is_empty() {
        // never handed to code generators
        c.label("invalid");
        return Ok(());
    }
    let text = text_of(s, &m);
    c.show(|| text.clone());
    c.key(&text);
    c.nontrivial(m.count() >= 2);
    let ast = Ast::parse(&text, None).map_err(|e| format!("does not parse: {e}"))?;
    let si = no_panic(|| mc::simplify_schema(&ast)).map_err(|p| format!("simplification panics: {p}"))?;
    let got = conv::from_simplified(&si);
    let want = simplified(&m);
    if got != want {
        let i = got.defs.iter().zip(&want.defs).position(|(a, b)| a != b);
        fail!("simplified differently: {:?} instead of {:?}", i.map(|i| &got.defs[i]), i.map(|i| &want.defs[i]));
    }
    ensure!(std::ptr::eq(si.source, &raw const ast), "the simplified schema does not refer to its source");
    Ok(())
}
