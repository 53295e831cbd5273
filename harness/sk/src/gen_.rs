//! Generators of schema models.

use pbt::Src;

use crate::model::*;

const LOWER: &[&str] = &[
    "a", "b1", "item", "value", "id", "r", "w", "k", "v", "n0", "n1", "type", "struct", "enum", "mod", "use", "self", "fn", "match", "vec",
    "vec2", "option1", "hash_map_ext", "hash_set", "non_zero", "u8", "u8_x", "string_utils", "bytes_util", "i128", "bool", "boolean",
    "box", "string", "bytes", "f32x", "x_", "a__b", "const", "true", "false", "t", "m", "s", "e", "c", "u",
];
const UPPER: &[&str] = &[
    "A", "B", "Foo", "FooBar", "T", "K", "V", "X1", "Vec", "Option", "String", "Some", "None", "Ok", "Err", "Self1", "Decode", "HTTP", "Z9z9", "Abc", "Struct",
    "Bool", "U8",
];
const CONSTS: &[&str] = &["A", "MAX", "MAX_SIZE", "X_", "A1", "T", "PI_2", "LONG__NAME", "Z9"];
const WORDS: &[&str] = &[
    "the", "Field", "`code`", "**bold**", "<b>", "&amp;", "üñî", "日本", "😀", "/", "//", "@1", "{", "}", "\"q\"", "\\", "#[x]", "*/", "[a](b)", ",", "struct A", "-", "# Title", "'",
];

/// What the generated schema may contain.
#[derive(Clone, Copy)]
pub struct Cfg {
    pub defs: usize,
    pub depth: usize,
    pub attrs: bool,
    pub comments: bool,
    pub imports: bool,
}

pub const FULL: Cfg = Cfg { defs: 5, depth: 3, attrs: true, comments: true, imports: true };

pub fn lower(s: &mut Src) -> String {
    if s.chance(3, 4) {
        (*s.pick(LOWER)).to_owned()
    } else {
        let mut n = String::new();
        n.push((b'a' + s.below(26) as u8) as char);
        for _ in 0..s.len(10) {
            n.push(*s.pick(b"abcxyz0189_") as char);
        }
        n
    }
}

pub fn upper(s: &mut Src) -> String {
    if s.chance(3, 4) {
        (*s.pick(UPPER)).to_owned()
    } else {
        let mut n = String::new();
        n.push((b'A' + s.below(26) as u8) as char);
        for _ in 0..s.len(10) {
            n.push(*s.pick(b"abcXYZ0189") as char);
        }
        n
    }
}

pub fn const_name(s: &mut Src) -> String {
    if s.chance(3, 4) {
        (*s.pick(CONSTS)).to_owned()
    } else {
        let mut n = String::new();
        n.push((b'A' + s.below(26) as u8) as char);
        for _ in 0..s.len(10) {
            n.push(*s.pick(b"ABXYZ0189_") as char);
        }
        n
    }
}

/// Text of a comment line: no line break, not starting with a blank.
pub fn comment_line(s: &mut Src) -> String {
    let mut t = String::new();
    for i in 0..s.len(6) {
        if i > 0 {
            t.push(' ');
        }
        if s.chance(4, 5) { t.push_str(s.pick(WORDS)) } else { t.push_str(&s.string(6)) }
    }
    let t: String = t.chars().filter(|c| *c != '\n').collect();
    let t = t.trim_start_matches([' ', '\t']);
    // indentation is part of the text
    if s.chance(1, 5) { format!("{}{t}", s.pick(&[" ", "  ", "    ", "\t", " \t "])) } else { t.to_owned() }
}

pub fn comment(s: &mut Src, cfg: &Cfg) -> Vec<String> {
    if cfg.comments && s.chance(1, 3) { (0..1 + s.len(3)).map(|_| comment_line(s)).collect() } else { vec![] }
}

pub fn lit(s: &mut Src) -> Lit {
    match s.below(6) {
        0 => Lit::Bool(s.coin()),
        1 | 2 => Lit::Int(s.int(128)),
        3 => loop {
            let f = if s.coin() { s.f64() } else { s.int(20) as f64 / 8.0 };
            if f.is_finite() {
                break Lit::Float(f);
            }
        },
        4 => Lit::Str(string(s)),
        _ => Lit::Bytes(nonempty_bytes(s)),
    }
}

pub fn string(s: &mut Src) -> String {
    let mut t = String::new();
    let most = if s.chance(1, 16) { 60 } else { 6 };
    for _ in 0..s.len(most) {
        match s.below(4) {
            0 => t.push_str(s.pick(WORDS)),
            1 => t.push(*s.pick(&['\0', '\n', '\r', '\t', '"', '\\', '/', '\u{8}', '\u{c}', '\u{7f}', ' ', '\u{1b}', '\u{10ffff}', '\u{301}', '\'', '\u{2028}'])),
            _ => t.push_str(&s.string(5)),
        }
    }
    t
}

pub fn nonempty_bytes(s: &mut Src) -> Vec<u8> {
    let most = if s.chance(1, 8) { 200 } else { 6 };
    let mut b = s.bytes(most);
    if b.is_empty() {
        b.push(s.byte());
    }
    b
}

pub fn prim_ty(s: &mut Src) -> Ty {
    Ty::Prim(s.pick(PRIMS))
}

/// Any type the grammar allows, with `ext` producing the references to other definitions.
pub fn ty(s: &mut Src, depth: usize, ext: &mut dyn FnMut(&mut Src, &mut dyn FnMut(&mut Src) -> Ty) -> Ty) -> Ty {
    if depth == 0 {
        return prim_ty(s);
    }
    match s.weighted(&[8, 2, 2, 1, 2, 1, 2, 2, 4]) {
        0 => prim_ty(s),
        1 => Ty::Vec(Box::new(ty(s, depth - 1, ext))),
        2 => {
            let k = Box::new(ty(s, depth - 1, ext));
            Ty::Map(k, Box::new(ty(s, depth - 1, ext)))
        }
        3 => Ty::Set(Box::new(ty(s, depth - 1, ext))),
        4 => Ty::Opt(Box::new(ty(s, depth - 1, ext))),
        5 => Ty::NonZero(Box::new(ty(s, depth - 1, ext))),
        6 => Ty::Tuple((0..1 + many(s, 3)).map(|_| ty(s, depth - 1, ext)).collect()),
        7 => {
            let t = Box::new(ty(s, depth - 1, ext));
            Ty::Array(t, if s.chance(1, 5) { s.uint(32) as u32 } else { s.below(40) as u32 })
        }
        _ => {
            // the arguments recurse through a shallower generator of the same kind
            let d = depth - 1;
            ext(s, &mut |s| if d == 0 || s.coin() { prim_ty(s) } else { ty(s, d - 1, &mut wild_ext) })
        }
    }
}

/// A reference to anything, whether it exists or not.
pub fn wild_ext(s: &mut Src, arg: &mut dyn FnMut(&mut Src) -> Ty) -> Ty {
    let path = (0..if s.chance(1, 24) { s.below(10) } else { s.weighted(&[6, 2, 1]) }).map(|_| lower(s)).collect();
    let mut name = upper(s);
    if s.chance(1, 10) {
        name.push('_');
    }
    let generics = (0..s.weighted(&[6, 2, 1, 1])).map(|_| arg(s)).collect();
    Ty::Ext { path, name, generics }
}

pub fn wild_ty(s: &mut Src, depth: usize) -> Ty {
    ty(s, depth, &mut wild_ext)
}

pub fn opt_id(s: &mut Src) -> Option<u32> {
    match s.weighted(&[2, 5, 1]) {
        0 => None,
        1 => Some(1 + s.below(20) as u32),
        _ => Some(s.uint(32) as u32),
    }
}

fn wild_fields(s: &mut Src, cfg: &Cfg) -> Fields {
    let n = 1 + many(s, 4);
    match s.weighted(&[5, 3, 2]) {
        0 => Fields::Named((0..n).map(|_| Field { comment: comment(s, cfg), name: lower(s), ty: wild_ty(s, cfg.depth), id: opt_id(s) }).collect()),
        1 => Fields::Unnamed((0..n).map(|_| Field { comment: vec![], name: String::new(), ty: wild_ty(s, cfg.depth), id: opt_id(s) }).collect()),
        _ => Fields::Unit,
    }
}

fn wild_generics(s: &mut Src) -> Vec<String> {
    if s.chance(1, 4) { (0..1 + many(s, 3)).map(|_| upper(s)).collect() } else { vec![] }
}

fn attr(s: &mut Src, depth: usize) -> Attr {
    Attr {
        name: lower(s),
        value: match s.below(if depth == 0 { 2 } else { 3 }) {
            0 => AttrVal::Unit,
            1 => AttrVal::Single(lit(s)),
            _ => AttrVal::Multi((0..1 + if s.chance(1, 10) { s.below(9) } else { s.len(2) }).map(|_| attr(s, depth - 1)).collect()),
        },
    }
}

/// Few, and now and then many.
pub fn many(s: &mut Src, n: usize) -> usize {
    if s.chance(1, 24) { s.below(20) } else { s.len(n) }
}

pub fn attrs(s: &mut Src, cfg: &Cfg) -> Vec<Attr> {
    if cfg.attrs && s.chance(1, 4) { (0..1 + if s.chance(1, 10) { s.below(9) } else { s.len(3) }).map(|_| attr(s, 2)).collect() } else { vec![] }
}

fn wild_def(s: &mut Src, cfg: &Cfg, level: usize) -> Def {
    match s.weighted(&[if level < 3 { 2 } else { 0 }, 5, 4, 2, 3, if cfg.imports { 2 } else { 0 }]) {
        0 => Def::Mod { comment: comment(s, cfg), name: lower(s), defs: (0..s.len(3)).map(|_| wild_def(s, cfg, level + 1)).collect() },
        1 => Def::Struct { comment: comment(s, cfg), attrs: attrs(s, cfg), name: upper(s), generics: wild_generics(s), fields: wild_fields(s, cfg) },
        2 => Def::Enum {
            comment: comment(s, cfg),
            attrs: attrs(s, cfg),
            name: upper(s),
            generics: wild_generics(s),
            variants: (0..1 + many(s, 4)).map(|_| Variant { comment: comment(s, cfg), name: upper(s), fields: wild_fields(s, cfg), id: opt_id(s) }).collect(),
        },
        3 => Def::Alias { comment: comment(s, cfg), name: upper(s), generics: wild_generics(s), target: wild_ty(s, cfg.depth) },
        4 => Def::Const { comment: comment(s, cfg), name: const_name(s), ty: wild_ty(s, 1), value: lit(s) },
        _ => Def::Use { segments: (0..1 + many(s, 3)).map(|_| lower(s)).collect(), element: s.coin().then(|| upper(s)) },
    }
}

/// Any schema the grammar allows; nothing needs to resolve or be unique.
pub fn wild_schema(s: &mut Src, cfg: &Cfg) -> Schema {
    Schema { comment: comment(s, cfg), defs: (0..s.len(cfg.defs)).map(|_| wild_def(s, cfg, 0)).collect() }
}
