//! Bridge between values of the reference model and the Rust types of generated code, and the
//! checks that run on compiled generated code.

use std::{
    cell::Cell,
    collections::{HashMap, HashSet},
    fmt::Debug,
    hash::Hash,
};

use mabo::{
    Buf, Decode, Encode, NonZero,
    buf::{Bytes, Error, Size},
};
pub use sk::wire::Val;

pub mod run;
pub mod sets;

pub trait Dyn: Sized {
    fn from_val(v: &Val) -> Self;
    fn to_val(&self) -> Val;
    fn list_from(v: &Val) -> Vec<Self> {
        let Val::List(l) = v else { panic!("{v:?} is no list") };
        l.iter().map(Self::from_val).collect()
    }
    fn list_to(l: &[Self]) -> Val {
        Val::List(l.iter().map(Self::to_val).collect())
    }
}

impl Dyn for u8 {
    fn from_val(v: &Val) -> Self {
        let Val::U(n) = v else { panic!("{v:?} is no integer") };
        *n as u8
    }
    fn to_val(&self) -> Val {
        Val::U((*self).into())
    }
    fn list_from(v: &Val) -> Vec<Self> {
        match v {
            Val::Bytes(b) => b.clone(),
            Val::List(l) => l.iter().map(Self::from_val).collect(),
            v => panic!("{v:?} are no bytes"),
        }
    }
    fn list_to(l: &[Self]) -> Val {
        Val::Bytes(l.to_vec())
    }
}

macro_rules! simple {
    ($($t:ty: $pat:pat => $from:expr, |$v:ident| $to:expr;)*) => {$(
        impl Dyn for $t {
            fn from_val(v: &Val) -> Self {
                match v { $pat => $from, v => panic!("{v:?} is no {}", stringify!($t)) }
            }
            fn to_val(&self) -> Val { let $v = self; $to }
        }
    )*};
}
simple! {
    bool: Val::Bool(b) => *b, |v| Val::Bool(*v);
    u16: Val::U(n) => *n as u16, |v| Val::U((*v).into());
    u32: Val::U(n) => *n as u32, |v| Val::U((*v).into());
    u64: Val::U(n) => *n as u64, |v| Val::U((*v).into());
    u128: Val::U(n) => *n, |v| Val::U(*v);
    i8: Val::I(n) => *n as i8, |v| Val::I((*v).into());
    i16: Val::I(n) => *n as i16, |v| Val::I((*v).into());
    i32: Val::I(n) => *n as i32, |v| Val::I((*v).into());
    i64: Val::I(n) => *n as i64, |v| Val::I((*v).into());
    i128: Val::I(n) => *n, |v| Val::I(*v);
    f32: Val::F32(b) => f32::from_bits(*b), |v| Val::F32(v.to_bits());
    f64: Val::F64(b) => f64::from_bits(*b), |v| Val::F64(v.to_bits());
    String: Val::Str(s) => s.clone(), |v| Val::Str(v.clone());
    Box<str>: Val::Str(s) => s.as_str().into(), |v| Val::Str(v.to_string());
    Box<[u8]>: Val::Bytes(b) => b.as_slice().into(), |v| Val::Bytes(v.to_vec());
    Bytes: Val::Bytes(b) => Bytes::copy_from_slice(b), |v| Val::Bytes(v.to_vec());
}

macro_rules! non_zero {
    ($($t:ty, $std:ty;)*) => {$(
        impl Dyn for $std {
            fn from_val(v: &Val) -> Self { <$std>::new(<$t>::from_val(v)).expect("not zero") }
            fn to_val(&self) -> Val { self.get().to_val() }
        }
    )*};
}
non_zero! {
    u8, std::num::NonZeroU8; u16, std::num::NonZeroU16; u32, std::num::NonZeroU32; u64, std::num::NonZeroU64; u128, std::num::NonZeroU128;
    i8, std::num::NonZeroI8; i16, std::num::NonZeroI16; i32, std::num::NonZeroI32; i64, std::num::NonZeroI64; i128, std::num::NonZeroI128;
}

impl<T: Dyn> Dyn for Vec<T> {
    fn from_val(v: &Val) -> Self {
        T::list_from(v)
    }
    fn to_val(&self) -> Val {
        T::list_to(self)
    }
}

impl<K: Dyn + Hash + Eq, V: Dyn> Dyn for HashMap<K, V> {
    fn from_val(v: &Val) -> Self {
        let Val::Map(m) = v else { panic!("{v:?} is no map") };
        m.iter().map(|(k, v)| (K::from_val(k), V::from_val(v))).collect()
    }
    fn to_val(&self) -> Val {
        Val::map(self.iter().map(|(k, v)| (k.to_val(), v.to_val())).collect())
    }
}

impl<T: Dyn + Hash + Eq> Dyn for HashSet<T> {
    fn from_val(v: &Val) -> Self {
        let Val::List(l) = v else { panic!("{v:?} is no set") };
        l.iter().map(T::from_val).collect()
    }
    fn to_val(&self) -> Val {
        Val::set(self.iter().map(T::to_val).collect())
    }
}

impl<T: Dyn> Dyn for Option<T> {
    fn from_val(v: &Val) -> Self {
        let Val::Opt(o) = v else { panic!("{v:?} is no option") };
        o.as_ref().map(|v| T::from_val(v))
    }
    fn to_val(&self) -> Val {
        Val::Opt(self.as_ref().map(|v| Box::new(v.to_val())))
    }
}

impl<T: Dyn, const N: usize> Dyn for [T; N] {
    fn from_val(v: &Val) -> Self {
        let Val::List(l) = v else { panic!("{v:?} is no array") };
        assert_eq!(l.len(), N);
        std::array::from_fn(|i| T::from_val(&l[i]))
    }
    fn to_val(&self) -> Val {
        Val::List(self.iter().map(T::to_val).collect())
    }
}

macro_rules! tuple {
    ($($t:ident $i:tt),*) => {
        impl<$($t: Dyn),*> Dyn for ($($t,)*) {
            fn from_val(v: &Val) -> Self {
                let Val::List(l) = v else { panic!("{v:?} is no tuple") };
                ($($t::from_val(&l[$i]),)*)
            }
            fn to_val(&self) -> Val { Val::List(vec![$(self.$i.to_val()),*]) }
        }
    };
}
tuple!(A 0, B 1);
tuple!(A 0, B 1, C 2);
tuple!(A 0, B 1, C 2, D 3);
tuple!(A 0, B 1, C 2, D 3, E 4);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);

macro_rules! full {
    ($([$($g:tt)*] $t:ty;)*) => {$(
        impl<$($g)*> Dyn for NonZero<$t> {
            fn from_val(v: &Val) -> Self { NonZero::<$t>::new(<$t>::from_val(v)).expect("not empty") }
            fn to_val(&self) -> Val { self.get().to_val() }
        }
    )*};
}
full! {
    [] String;
    [] Bytes;
    [T: Dyn] Vec<T>;
    [K: Dyn + Hash + Eq, V: Dyn] HashMap<K, V>;
    [T: Dyn + Hash + Eq] HashSet<T>;
}

/// Constants as values.
pub trait ConstVal {
    fn const_val(self) -> Val;
}
impl ConstVal for &str {
    fn const_val(self) -> Val {
        Val::Str(self.to_owned())
    }
}
impl ConstVal for &[u8] {
    fn const_val(self) -> Val {
        Val::Bytes(self.to_vec())
    }
}

// ---- the operations of one generated type ----

#[derive(Debug, Clone, PartialEq)]
pub enum DecErr {
    Missing(u32, Option<String>),
    Variant(u32),
    Other(String),
}

pub struct Entry {
    /// Bytes and announced size.
    pub enc: fn(&Val) -> (Vec<u8>, usize),
    /// Value and number of bytes left.
    pub dec: fn(&[u8], &[usize]) -> Result<(Val, usize), DecErr>,
}

pub fn entry<T: Dyn + Encode + Size + Decode + Clone + PartialEq + Debug>() -> Entry {
    Entry {
        enc: |v| {
            let t = T::from_val(v);
            let mut out = Vec::new();
            t.encode(&mut out);
            (out, t.size())
        },
        dec: |data, cuts| {
            let mut b = Chunks::new(data, cuts);
            match T::decode(&mut b) {
                Ok(t) => Ok((t.to_val(), b.remaining())),
                Err(Error::MissingField { id, name }) => Err(DecErr::Missing(id, name.map(ToOwned::to_owned))),
                Err(Error::UnknownVariant(id)) => Err(DecErr::Variant(id)),
                Err(e) => Err(DecErr::Other(e.to_string())),
            }
        },
    }
}

/// Source of bytes in several chunks, with a budget of operations so that a decoder that never
/// finishes is reported.
struct Chunks<'a> {
    data: &'a [u8],
    pos: usize,
    cuts: &'a [usize],
    fuel: Cell<u64>,
}

impl<'a> Chunks<'a> {
    fn new(data: &'a [u8], cuts: &'a [usize]) -> Self {
        Self { data, pos: 0, cuts, fuel: Cell::new(50_000 + 1000 * data.len() as u64) }
    }
    fn burn(&self) {
        let f = self.fuel.get();
        assert!(f > 0, "decoding does not terminate: operation budget of the buffer exhausted");
        self.fuel.set(f - 1);
    }
}

impl Buf for Chunks<'_> {
    fn remaining(&self) -> usize {
        self.burn();
        self.data.len() - self.pos
    }
    fn chunk(&self) -> &[u8] {
        self.burn();
        let end = self.cuts.iter().copied().filter(|c| *c > self.pos).min().unwrap_or(self.data.len()).min(self.data.len());
        &self.data[self.pos..end]
    }
    fn advance(&mut self, cnt: usize) {
        self.burn();
        assert!(cnt <= self.data.len() - self.pos, "advanced past the end of the buffer");
        self.pos += cnt;
    }
}
