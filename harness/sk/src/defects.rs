//! Ways to spoil a schema.

use pbt::Src;

use crate::{gen_, model::*};

/// Call `f` with the `n`th definition and the list around it.
pub fn nth(defs: &mut Vec<Def>, n: &mut usize, f: &mut dyn FnMut(&mut Vec<Def>, usize)) -> bool {
    for i in 0..defs.len() {
        if *n == 0 {
            f(defs, i);
            return true;
        }
        *n -= 1;
        if let Def::Mod { defs, .. } = &mut defs[i] {
            if nth(defs, n, f) {
                return true;
            }
        }
    }
    false
}

pub fn set_name(d: &mut Def, to: String) {
    match d {
        Def::Mod { name, .. } | Def::Struct { name, .. } | Def::Enum { name, .. } | Def::Alias { name, .. } | Def::Const { name, .. } => *name = to,
        Def::Use { element: Some(e), .. } => *e = to,
        Def::Use { .. } => {}
    }
}

/// A random type within `t`, counted from the outside.
pub fn some_ty<'a>(s: &mut Src, t: &'a mut Ty) -> &'a mut Ty {
    let mut here = t;
    loop {
        let n = here.children().len();
        if n == 0 || s.coin() {
            return here;
        }
        let i = s.below(n);
        here = match here {
            Ty::Vec(t) | Ty::Set(t) | Ty::Opt(t) | Ty::NonZero(t) | Ty::Array(t, _) => t,
            Ty::Map(k, v) => {
                if i == 0 {
                    k
                } else {
                    v
                }
            }
            Ty::Tuple(ts) => &mut ts[i],
            Ty::Ext { generics, .. } => &mut generics[i],
            Ty::Prim(_) => unreachable!(),
        };
    }
}

pub fn types_mut(d: &mut Def) -> Vec<&mut Ty> {
    match d {
        Def::Struct { fields, .. } => fields.list_mut().into_iter().flatten().map(|f| &mut f.ty).collect(),
        Def::Enum { variants, .. } => variants.iter_mut().filter_map(|v| v.fields.list_mut()).flatten().map(|f| &mut f.ty).collect(),
        Def::Alias { target, .. } => vec![target],
        Def::Const { ty, .. } => vec![ty],
        _ => vec![],
    }
}

/// Change two identifiers or names of a list so that they may clash.
pub fn break_fields(s: &mut Src, f: &mut Fields) {
    let named = matches!(f, Fields::Named(_));
    let Some(list) = f.list_mut() else { return };
    if list.is_empty() {
        return;
    }
    let ids = derive_ids(list.iter().map(|f| f.id));
    let (i, j) = (s.below(list.len()), s.below(list.len()));
    match s.below(4) {
        0 => list[i].id = u32::try_from(ids[j]).ok(),
        1 => list[i].id = None,
        2 => list[i].id = gen_::opt_id(s),
        _ if named => list[i].name = list[j].name.clone(),
        _ => list[i].id = u32::try_from(ids[j]).ok(),
    }
}

pub fn break_schema(s: &mut Src, m: &mut Schema) {
    let total = m.count();
    if total == 0 {
        return;
    }
    let mut n = s.below(total);
    nth(&mut m.defs, &mut n, &mut |defs, i| match s.below(9) {
        0 => {
            // a second definition of the same name
            let j = s.below(defs.len());
            let name = defs[j].name().to_owned();
            // only where the grammar allows the name
            let same = std::mem::discriminant(&defs[i]) == std::mem::discriminant(&defs[j]);
            let types = |d: &Def| matches!(d, Def::Struct { .. } | Def::Enum { .. } | Def::Alias { .. });
            if same && !matches!(defs[i], Def::Use { element: None, .. }) || types(&defs[i]) && types(&defs[j]) {
                if let (Def::Use { element: None, .. }, _) | (_, Def::Use { element: None, .. }) = (&defs[i], &defs[j]) {
                    return;
                }
                set_name(&mut defs[i], name);
            }
        }
        1 => {
            let d = defs[i].clone();
            let at = s.below(defs.len() + 1);
            defs.insert(at, d);
        }
        2 | 3 => match &mut defs[i] {
            Def::Struct { fields, .. } => break_fields(s, fields),
            Def::Enum { variants, .. } => {
                let v = s.below(variants.len());
                break_fields(s, &mut variants[v].fields);
            }
            _ => {}
        },
        4 => {
            if let Def::Enum { variants, .. } = &mut defs[i] {
                let ids = derive_ids(variants.iter().map(|v| v.id));
                let (a, b) = (s.below(variants.len()), s.below(variants.len()));
                match s.below(4) {
                    0 => variants[a].id = u32::try_from(ids[b]).ok(),
                    1 => variants[a].id = None,
                    2 => variants[a].id = gen_::opt_id(s),
                    _ => variants[a].name = variants[b].name.clone(),
                }
            }
        }
        5 => {
            if let Def::Struct { generics, .. } | Def::Enum { generics, .. } = &mut defs[i] {
                match s.below(3) {
                    0 => generics.push("Unused".into()),
                    1 if !generics.is_empty() => {
                        let (a, b) = (s.below(generics.len()), s.below(generics.len()));
                        generics[a] = generics[b].clone();
                    }
                    _ if !generics.is_empty() => {
                        let a = s.below(generics.len());
                        let g = generics[a].clone();
                        let at = s.below(generics.len() + 1);
                        generics.insert(at, g);
                    }
                    _ => {}
                }
            }
        }
        6 => {
            // a type parameter loses its uses, or keeps none but unusual ones
            let g = match &defs[i] {
                Def::Struct { generics, .. } | Def::Enum { generics, .. } if !generics.is_empty() => s.pick(generics).clone(),
                _ => return,
            };
            let keep = s.chance(1, 3);
            for t in types_mut(&mut defs[i]) {
                replace(t, &mut |t| match t {
                    Ty::Ext { path, name, generics } if path.is_empty() && generics.is_empty() && *name == g => Some(match (keep, g.len() % 2) {
                        (true, 0) => Ty::Ext { path: vec!["m".into()], name: g.clone(), generics: vec![] },
                        (true, _) => Ty::Ext { path: vec![], name: g.clone(), generics: vec![Ty::Prim("u8")] },
                        _ => Ty::Prim("u8"),
                    }),
                    _ => None,
                });
            }
        }
        7 => {
            let mut ts = types_mut(&mut defs[i]);
            if ts.is_empty() {
                return;
            }
            let at = s.below(ts.len());
            let t = some_ty(s, ts[at]);
            let n = *s.pick(&[1usize, 1, 2, 12, 13, 13, 14, 20]);
            let old = t.clone();
            let mut all = vec![Ty::Prim("u8"); n - 1];
            all.insert(s.below(n), old);
            *t = Ty::Tuple(all);
        }
        _ => {
            let mut ts = types_mut(&mut defs[i]);
            if ts.is_empty() {
                return;
            }
            let at = s.below(ts.len());
            let t = some_ty(s, ts[at]);
            let old = Box::new(t.clone());
            *t = match s.below(5) {
                0 => Ty::NonZero(old),
                1 => Ty::Map(Box::new(Ty::Prim("u8")), old),
                2 => Ty::Map(old, Box::new(Ty::Prim("u8"))),
                3 => Ty::Array(old, 3),
                _ => Ty::Ext { path: vec![], name: "Wrapper".into(), generics: vec![*old] },
            };
        }
    });
}

pub fn replace(t: &mut Ty, f: &mut dyn FnMut(&Ty) -> Option<Ty>) {
    if let Some(n) = f(t) {
        *t = n;
        return;
    }
    match t {
        Ty::Vec(t) | Ty::Set(t) | Ty::Opt(t) | Ty::NonZero(t) | Ty::Array(t, _) => replace(t, f),
        Ty::Map(k, v) => {
            replace(k, f);
            replace(v, f);
        }
        Ty::Tuple(ts) => ts.iter_mut().for_each(|t| replace(t, f)),
        Ty::Ext { generics, .. } => generics.iter_mut().for_each(|t| replace(t, f)),
        Ty::Prim(_) => {}
    }
}
