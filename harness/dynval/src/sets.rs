//! The sets of schemas that are turned into code, and the types of each that are exercised.

use pbt::Src;
use sk::{
    refs::Set,
    valid,
    wire::{R, World},
};

/// How many sets, in how many crates.
pub fn extent(thorough: bool) -> (usize, usize) {
    if thorough { (400, 40) } else { (48, 8) }
}

/// A set and whether its code uses `bytes::Bytes`.
pub fn make(seed: u64, index: usize) -> (Set, bool) {
    let mut s = Src::seeded(seed ^ 0x6765_6e65, index as u64);
    let bytes = s.chance(1, 3);
    if index % 12 == 11 {
        return (valid::constants(&mut s, 400), bytes);
    }
    (valid::set(&mut s, valid::Opts { attrs: false, comments: false, ..valid::CODE }), bytes)
}

fn arg(s: &mut Src) -> R {
    const EASY: &[&str] = &["bool", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "string", "box<string>"];
    let p = |s: &mut Src| Box::new(R::Prim(s.pick(EASY)));
    match s.weighted(&[8, 2, 2, 1, 1, 1, 1]) {
        0 => R::Prim(s.pick(EASY)),
        1 => R::Vec(p(s)),
        2 => R::Opt(p(s)),
        3 => R::Map(Box::new(R::Prim("string")), p(s)),
        4 => R::Set(Box::new(R::Prim(s.pick(&["u8", "i32", "string", "bool"])))),
        5 => R::Array(p(s), s.below(4) as u32),
        _ => R::Prim(s.pick(&["bytes", "box<bytes>"])),
    }
}

/// Types of the set without parameters: what values are made of.
pub fn roots(w: &World, seed: u64, index: usize) -> Vec<R> {
    let mut s = Src::seeded(seed ^ 0x726f_6f74, index as u64);
    let mut out = Vec::new();
    for (i, d) in w.defs.iter().enumerate() {
        if d.generics.is_empty() {
            out.push(R::Def(i, vec![]));
        } else {
            for _ in 0..2 {
                let args = d.generics.iter().map(|_| arg(&mut s)).collect();
                out.push(R::Def(i, args));
            }
        }
    }
    out
}
