//! Schemas that are large in one dimension.

use pbt::Src;

use crate::{gen_, model::*};

const COUNTS: &[usize] = &[255, 256, 257, 1_000, 4_096, 6_000];
const LENGTHS: &[usize] = &[32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 70_000, 131_073];

fn word(lead: &str, n: usize) -> String {
    let mut t = lead.to_owned();
    t.extend(std::iter::repeat_n('x', n));
    t
}

fn field(name: String, ty: Ty, id: Option<u32>) -> Field {
    Field { comment: vec![], name, ty, id }
}

/// Enlarges the schema in one way, which is returned. Names that are added are unique. `legal`:
/// only by what keeps a valid schema valid.
pub fn grow(s: &mut Src, m: &mut Schema, legal: bool) -> &'static str {
    let n = *s.pick(COUNTS);
    let l = *s.pick(LENGTHS);
    let odd = *s.pick(&["", "é", "😀", "\u{3000}"]);
    let at = s.below(m.defs.len() + 1);
    let put = |m: &mut Schema, d: Def| m.defs.insert(at, d);
    let one = |fields| Def::Struct { comment: vec![], attrs: vec![], name: "Grown".into(), generics: vec![], fields };
    let small = |s: &mut Src| if legal { Ty::Prim(s.pick(PRIMS)) } else { gen_::wild_ty(s, 2) };
    match s.below(if legal { 11 } else { 17 }) {
        0 => {
            m.comment = (0..n * 4).map(|i| format!("line {i}{odd}")).collect();
            "comment lines"
        }
        1 => {
            m.comment.insert(0, word("w", l) + odd);
            "long comment"
        }
        2 => {
            let t = [small(s), small(s), small(s)];
            put(m, one(Fields::Named((0..n).map(|i| field(format!("f{i}"), t[i % 3].clone(), None)).collect())));
            "named fields"
        }
        3 => {
            let t = [small(s), small(s)];
            put(m, one(Fields::Unnamed((0..n).map(|i| field(String::new(), t[i % 2].clone(), (!legal && i % 3 == 1).then_some(i as u32))).collect())));
            "unnamed fields"
        }
        4 => {
            put(
                m,
                Def::Enum {
                    comment: vec![],
                    attrs: vec![],
                    name: "Grown".into(),
                    generics: vec![],
                    variants: (0..n)
                        .map(|i| Variant {
                            comment: vec![],
                            name: format!("V{i}"),
                            fields: match i % 3 {
                                0 => Fields::Unit,
                                1 => Fields::Named(vec![field("a".into(), Ty::Prim("u8"), None)]),
                                _ => Fields::Unnamed(vec![field(String::new(), Ty::Prim("string"), None)]),
                            },
                            id: None,
                        })
                        .collect(),
                },
            );
            "variants"
        }
        5 => {
            put(m, Def::Const { comment: vec![], name: "GROWN".into(), ty: Ty::Prim("string"), value: Lit::Str(word("a", l) + odd) });
            "long string"
        }
        6 => {
            put(m, Def::Const { comment: vec![], name: "GROWN".into(), ty: Ty::Prim("bytes"), value: Lit::Bytes((0..l / 4).map(|i| (i * 7 % 251) as u8).collect()) });
            "many bytes"
        }
        7 => {
            for i in 0..n {
                m.defs.push(Def::Alias { comment: vec![], name: format!("Grown{i}"), generics: vec![], target: Ty::Prim(PRIMS[i % PRIMS.len()]) });
            }
            "definitions"
        }
        8 => {
            put(m, one(Fields::Named(vec![field(word("a", l), Ty::Prim("u8"), None)])));
            "long name"
        }
        9 => {
            let d = Def::Struct {
                comment: (0..n * 4).map(|i| format!("line {i}{odd}")).collect(),
                attrs: vec![],
                name: "Grown".into(),
                generics: vec![],
                fields: Fields::Named(vec![Field { comment: vec![word("w", l) + odd], name: "a".into(), ty: Ty::Vec(Box::new(Ty::Prim("u8"))), id: None }]),
            };
            put(m, d);
            "documentation"
        }
        10 => {
            let inner = std::mem::take(&mut m.defs);
            let mut d = inner;
            for i in 0..40 {
                d = vec![Def::Mod { comment: vec![], name: format!("grown{i}"), defs: d }];
            }
            // what is left on the top level is found by absolute paths no more
            m.defs = if legal { unwrap(d) } else { d };
            "modules"
        }
        11 => {
            put(m, one(Fields::Unnamed(vec![field(String::new(), Ty::Tuple((0..n).map(|i| Ty::Prim(PRIMS[i % PRIMS.len()])).collect()), None)])));
            "tuple elements"
        }
        12 => {
            put(m, Def::Use { segments: (0..n).map(|i| format!("s{i}")).collect(), element: Some("Thing".into()) });
            "import segments"
        }
        13 => {
            put(m, Def::Alias { comment: vec![], name: "Grown".into(), generics: (0..n).map(|i| format!("T{i}")).collect(), target: Ty::Prim("u8") });
            "parameters"
        }
        14 => {
            put(m, one(Fields::Unnamed(vec![field(String::new(), Ty::Ext { path: (0..n).map(|i| format!("p{i}")).collect(), name: "Thing".into(), generics: (0..n).map(|_| Ty::Prim("u8")).collect() }, None)])));
            "path"
        }
        15 => {
            let value = AttrVal::Multi((0..n).map(|i| Attr { name: format!("a{i}"), value: AttrVal::Unit }).collect());
            put(m, Def::Struct { comment: vec![], attrs: vec![Attr { name: "many".into(), value }], name: "Grown".into(), generics: vec![], fields: Fields::Unit });
            "attributes"
        }
        _ => {
            for i in 0..n {
                m.defs.push(Def::Use { segments: vec![format!("grown{i}")], element: None });
            }
            "imports"
        }
    }
}

fn unwrap(mut d: Vec<Def>) -> Vec<Def> {
    while let [Def::Mod { name, .. }] = &d[..] {
        if !name.starts_with("grown") {
            break;
        }
        let Some(Def::Mod { defs, .. }) = d.pop() else { unreachable!() };
        d = defs;
    }
    let mut inner = vec![];
    for i in 0..40 {
        inner = vec![Def::Mod { comment: vec![], name: format!("grown{i}"), defs: inner }];
    }
    d.append(&mut inner);
    d
}
