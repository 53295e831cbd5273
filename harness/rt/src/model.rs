//! Types of the runtime crate paired with an independent reference encoding.

use std::{
    borrow::Cow,
    collections::{HashMap, HashSet},
    fmt::Debug,
    hash::Hash,
    rc::Rc,
    sync::Arc,
};

use mabo::{
    Buf, BufMut, Decode, Encode, NonZero,
    buf::{self, Size},
};
use pbt::Src;

/// Reference LEB128: seven bits per byte, least significant group first, by plain division.
pub fn leb(mut v: u128, out: &mut Vec<u8>) {
    loop {
        let digit = (v % 128) as u8;
        v /= 128;
        if v == 0 {
            out.push(digit);
            return;
        }
        out.push(digit + 128);
    }
}

/// Reference zigzag: 0, -1, 1, -2, ... become 0, 1, 2, 3, ...
pub fn zigzag(v: i128) -> u128 {
    if v >= 0 { v as u128 * 2 } else { (-(v + 1)) as u128 * 2 + 1 }
}

/// Input of the reference decoder.
#[derive(Clone, Copy)]
pub struct Cur<'a> {
    pub left: &'a [u8],
    /// Set when the input takes a choice that the format leaves open.
    pub open: bool,
}

impl<'a> Cur<'a> {
    pub fn new(left: &'a [u8]) -> Self {
        Self { left, open: false }
    }

    fn take(&mut self, n: u128) -> Option<&'a [u8]> {
        if n > self.left.len() as u128 {
            return None;
        }
        let (a, b) = self.left.split_at(n as usize);
        self.left = b;
        Some(a)
    }

    fn byte(&mut self) -> Option<u8> {
        self.take(1).map(|b| b[0])
    }

    /// Reference variable-length integer of the given width.
    fn leb(&mut self, bits: u32) -> Option<u128> {
        let (mut value, mut scale) = (0u128, Some(1u128));
        for _ in 0..bits.div_ceil(7) {
            let b = self.byte()?;
            let digit = u128::from(b % 128);
            match scale.and_then(|s| digit.checked_mul(s)).and_then(|d| value.checked_add(d)) {
                Some(v) => value = v,
                // more than the width holds
                None => self.open |= digit != 0,
            }
            scale = scale.and_then(|s| s.checked_mul(128));
            if b < 128 {
                if bits < 128 && value >= 1 << bits {
                    self.open = true;
                    value %= 1 << bits;
                }
                return Some(value);
            }
        }
        None
    }

    fn zigzag(&mut self, bits: u32) -> Option<i128> {
        let v = self.leb(bits)?;
        Some(if v % 2 == 0 { (v / 2) as i128 } else { -((v / 2) as i128) - 1 })
    }

    fn blob(&mut self) -> Option<&'a [u8]> {
        let n = self.leb(64)?;
        self.take(n)
    }

    /// Length-prefixed part, read by a function that may leave bytes behind.
    fn part<T>(&mut self, f: impl FnOnce(&mut Cur<'a>) -> Option<T>) -> Option<T> {
        let mut inner = Cur { left: self.blob()?, open: self.open };
        let v = f(&mut inner);
        self.open |= inner.open;
        v
    }
}

pub trait Model: Sized + Debug + Encode + Size + Decode {
    fn make(s: &mut Src) -> Self;
    /// Reference encoding.
    fn enc(&self, out: &mut Vec<u8>);
    /// Reference decoding, `None` for input to reject.
    fn dec(r: &mut Cur<'_>) -> Option<Self>;
    fn same(&self, other: &Self) -> bool;
}

macro_rules! prim {
    ($($t:ty: |$s:ident| $mk:expr, |$v:ident, $o:ident| $enc:expr, |$r:ident| $dec:expr;)*) => {$(
        impl Model for $t {
            fn make($s: &mut Src) -> Self { $mk }
            fn enc(&self, $o: &mut Vec<u8>) { let $v = *self; $enc }
            fn dec($r: &mut Cur<'_>) -> Option<Self> { $dec }
            fn same(&self, other: &Self) -> bool { self == other }
        }
    )*};
}

prim! {
    bool: |s| s.coin(), |v, o| o.push(if v { 1 } else { 0 }), |r| { let b = r.byte()?; r.open |= b > 1; Some(b != 0) };
    u8: |s| s.uint(8) as u8, |v, o| o.push(v), |r| r.byte();
    i8: |s| s.int(8) as i8, |v, o| o.push(v as u8), |r| Some(r.byte()? as i8);
    u16: |s| s.uint(16) as u16, |v, o| leb(v.into(), o), |r| Some(r.leb(16)? as u16);
    u32: |s| s.uint(32) as u32, |v, o| leb(v.into(), o), |r| Some(r.leb(32)? as u32);
    u64: |s| s.uint(64) as u64, |v, o| leb(v.into(), o), |r| Some(r.leb(64)? as u64);
    u128: |s| s.uint(128), |v, o| leb(v, o), |r| r.leb(128);
    i16: |s| s.int(16) as i16, |v, o| leb(zigzag(v.into()), o), |r| Some(r.zigzag(16)? as i16);
    i32: |s| s.int(32) as i32, |v, o| leb(zigzag(v.into()), o), |r| Some(r.zigzag(32)? as i32);
    i64: |s| s.int(64) as i64, |v, o| leb(zigzag(v.into()), o), |r| Some(r.zigzag(64)? as i64);
    i128: |s| s.int(128), |v, o| leb(zigzag(v), o), |r| r.zigzag(128);
}

impl Model for f32 {
    fn make(s: &mut Src) -> Self {
        s.f32()
    }
    fn enc(&self, out: &mut Vec<u8>) {
        let b = self.to_bits();
        out.extend([(b >> 24) as u8, (b >> 16) as u8, (b >> 8) as u8, b as u8]);
    }
    fn dec(r: &mut Cur<'_>) -> Option<Self> {
        Some(f32::from_bits(r.take(4)?.iter().fold(0, |a, b| a << 8 | u32::from(*b))))
    }
    fn same(&self, other: &Self) -> bool {
        self.to_bits() == other.to_bits()
    }
}

impl Model for f64 {
    fn make(s: &mut Src) -> Self {
        s.f64()
    }
    fn enc(&self, out: &mut Vec<u8>) {
        let b = self.to_bits();
        out.extend((0..8).rev().map(|i| (b >> (8 * i)) as u8));
    }
    fn dec(r: &mut Cur<'_>) -> Option<Self> {
        Some(f64::from_bits(r.take(8)?.iter().fold(0, |a, b| a << 8 | u64::from(*b))))
    }
    fn same(&self, other: &Self) -> bool {
        self.to_bits() == other.to_bits()
    }
}

thread_local! {
    static LARGE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Makes a value with one large part, if its type has any variable-length part.
pub fn large<T: Model>(s: &mut Src) -> (T, bool) {
    LARGE.set(true);
    let v = T::make(s);
    (v, !LARGE.replace(false))
}

fn take_large(s: &mut Src) -> bool {
    LARGE.get() && s.chance(3, 4) && LARGE.replace(false)
}

fn blob(s: &mut Src) -> Vec<u8> {
    if take_large(s) {
        let n = *s.pick(&[65_535usize, 65_536, 65_537, 100_000, 131_072, 2_097_151, 2_097_152, 2_100_000]);
        let (a, b) = (s.byte(), s.byte() | 1);
        return (0..n).map(|i| a.wrapping_add(b.wrapping_mul((i ^ i >> 8 ^ i >> 16) as u8))).collect();
    }
    if s.chance(1, 12) {
        // long payloads: the prefix grows to two and three bytes
        let n = *s.pick(&[127usize, 128, 129, 255, 300, 16383, 16384, 16385]);
        let b = s.byte();
        (0..n).map(|i| b.wrapping_add(i as u8)).collect()
    } else {
        s.bytes(40)
    }
}

fn text(s: &mut Src) -> String {
    if take_large(s) {
        let n = *s.pick(&[16_384usize, 21_846, 32_768, 65_535, 65_536, 65_537, 100_000, 700_000]);
        let (a, b) = (s.char(), s.char());
        return (0..n).map(|i| if i % 7 == 3 { b } else { a }).collect();
    }
    if s.chance(1, 16) {
        let n = *s.pick(&[42usize, 63, 64, 127, 128, 5461, 8192]);
        let c = s.char();
        std::iter::repeat_n(c, n).collect()
    } else {
        s.string(24)
    }
}

fn enc_blob(b: &[u8], out: &mut Vec<u8>) {
    leb(b.len() as u128, out);
    out.extend(b);
}

fn prefixed(body: Vec<u8>, out: &mut Vec<u8>) {
    leb(body.len() as u128, out);
    out.extend(body);
}

impl Model for String {
    fn make(s: &mut Src) -> Self {
        text(s)
    }
    fn enc(&self, out: &mut Vec<u8>) {
        enc_blob(self.as_bytes(), out);
    }
    fn dec(r: &mut Cur<'_>) -> Option<Self> {
        std::str::from_utf8(r.blob()?).ok().map(Into::into)
    }
    fn same(&self, other: &Self) -> bool {
        self == other
    }
}

impl Model for Box<str> {
    fn make(s: &mut Src) -> Self {
        text(s).into()
    }
    fn enc(&self, out: &mut Vec<u8>) {
        enc_blob(self.as_bytes(), out);
    }
    fn dec(r: &mut Cur<'_>) -> Option<Self> {
        std::str::from_utf8(r.blob()?).ok().map(Into::into)
    }
    fn same(&self, other: &Self) -> bool {
        self == other
    }
}

impl Model for Box<[u8]> {
    fn make(s: &mut Src) -> Self {
        blob(s).into()
    }
    fn enc(&self, out: &mut Vec<u8>) {
        enc_blob(self, out);
    }
    fn dec(r: &mut Cur<'_>) -> Option<Self> {
        r.blob().map(Into::into)
    }
    fn same(&self, other: &Self) -> bool {
        self == other
    }
}

fn many<T>(s: &mut Src, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
    if take_large(s) {
        let n = *s.pick(&[4_096usize, 10_000, 16_384, 32_768, 65_535, 65_536, 65_537, 70_000]);
        let mut q = Src::seeded(s.upto(u64::MAX), 0);
        return (0..n).map(|_| f(&mut q)).collect();
    }
    // many elements now and then, to cross prefix widths
    let n = if s.chance(1, 20) { s.range(100, 200) } else { s.len(24) };
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(f(s));
    }
    v
}

impl<T: Model> Model for Vec<T> {
    fn make(s: &mut Src) -> Self {
        many(s, T::make)
    }
    fn enc(&self, out: &mut Vec<u8>) {
        let mut body = Vec::new();
        for v in self {
            v.enc(&mut body);
        }
        prefixed(body, out);
    }
    fn dec(r: &mut Cur<'_>) -> Option<Self> {
        r.part(|r| {
            let mut v = Vec::new();
            while !r.left.is_empty() {
                v.push(T::dec(r)?);
            }
            Some(v)
        })
    }
    fn same(&self, other: &Self) -> bool {
        self.len() == other.len() && self.iter().zip(other).all(|(a, b)| a.same(b))
    }
}

impl<K: Model + Hash + Eq, V: Model> Model for HashMap<K, V> {
    fn make(s: &mut Src) -> Self {
        many(s, |s| (K::make(s), V::make(s))).into_iter().collect()
    }
    fn enc(&self, out: &mut Vec<u8>) {
        let mut body = Vec::new();
        for (k, v) in self {
            k.enc(&mut body);
            v.enc(&mut body);
        }
        prefixed(body, out);
    }
    fn dec(r: &mut Cur<'_>) -> Option<Self> {
        r.part(|r| {
            let mut m = HashMap::new();
            while !r.left.is_empty() {
                let k = K::dec(r)?;
                let v = V::dec(r)?;
                r.open |= m.insert(k, v).is_some();
            }
            Some(m)
        })
    }
    fn same(&self, other: &Self) -> bool {
        self.len() == other.len() && self.iter().all(|(k, v)| other.get(k).is_some_and(|w| v.same(w)))
    }
}

impl<T: Model + Hash + Eq> Model for HashSet<T> {
    fn make(s: &mut Src) -> Self {
        many(s, T::make).into_iter().collect()
    }
    fn enc(&self, out: &mut Vec<u8>) {
        let mut body = Vec::new();
        for v in self {
            v.enc(&mut body);
        }
        prefixed(body, out);
    }
    fn dec(r: &mut Cur<'_>) -> Option<Self> {
        r.part(|r| {
            let mut m = HashSet::new();
            while !r.left.is_empty() {
                let v = T::dec(r)?;
                r.open |= !m.insert(v);
            }
            Some(m)
        })
    }
    fn same(&self, other: &Self) -> bool {
        self == other
    }
}

impl<T: Model> Model for Option<T> {
    fn make(s: &mut Src) -> Self {
        s.chance(2, 3).then(|| T::make(s))
    }
    fn enc(&self, out: &mut Vec<u8>) {
        match self {
            None => out.push(0),
            Some(v) => {
                out.push(1);
                v.enc(out);
            }
        }
    }
    fn dec(r: &mut Cur<'_>) -> Option<Self> {
        let b = r.byte()?;
        r.open |= b > 1;
        if b == 0 { Some(None) } else { T::dec(r).map(Some) }
    }
    fn same(&self, other: &Self) -> bool {
        match (self, other) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        }
    }
}

impl<T: Model, const N: usize> Model for [T; N] {
    fn make(s: &mut Src) -> Self {
        std::array::from_fn(|_| T::make(s))
    }
    fn enc(&self, out: &mut Vec<u8>) {
        let mut body = Vec::new();
        for v in self {
            v.enc(&mut body);
        }
        prefixed(body, out);
    }
    fn dec(r: &mut Cur<'_>) -> Option<Self> {
        // more elements than expected are left out, fewer are an error
        r.part(|r| {
            let mut v = Vec::new();
            for _ in 0..N {
                v.push(T::dec(r)?);
            }
            v.try_into().ok()
        })
    }
    fn same(&self, other: &Self) -> bool {
        self.iter().zip(other).all(|(a, b)| a.same(b))
    }
}

impl<T: Model> Model for Rc<T> {
    fn make(s: &mut Src) -> Self {
        Rc::new(T::make(s))
    }
    fn enc(&self, out: &mut Vec<u8>) {
        (**self).enc(out);
    }
    fn dec(r: &mut Cur<'_>) -> Option<Self> {
        T::dec(r).map(Into::into)
    }
    fn same(&self, other: &Self) -> bool {
        (**self).same(other)
    }
}

impl<T: Model> Model for Arc<T> {
    fn make(s: &mut Src) -> Self {
        Arc::new(T::make(s))
    }
    fn enc(&self, out: &mut Vec<u8>) {
        (**self).enc(out);
    }
    fn dec(r: &mut Cur<'_>) -> Option<Self> {
        T::dec(r).map(Into::into)
    }
    fn same(&self, other: &Self) -> bool {
        (**self).same(other)
    }
}

impl<T: Model + Copy> Model for Cow<'static, T> {
    fn make(s: &mut Src) -> Self {
        Cow::Owned(T::make(s))
    }
    fn enc(&self, out: &mut Vec<u8>) {
        (**self).enc(out);
    }
    fn dec(r: &mut Cur<'_>) -> Option<Self> {
        T::dec(r).map(Cow::Owned)
    }
    fn same(&self, other: &Self) -> bool {
        (**self).same(other)
    }
}

/// Implements the runtime traits for a local type through the free functions generated code uses.
macro_rules! local {
    ([$($g:tt)*] $t:ty, |$v:ident, $w:ident| $enc:expr, |$v2:ident| $size:expr, |$r:ident| $dec:expr) => {
        impl<$($g)*> Size for $t {
            fn size(&self) -> usize { let $v2 = self; $size }
        }
        impl<$($g)*> Encode for $t {
            fn encode(&self, $w: &mut impl BufMut) { let $v = self; $enc }
        }
        impl<$($g)*> Decode for $t {
            fn decode($r: &mut impl Buf) -> buf::Result<Self> { $dec }
        }
    };
}

#[derive(Debug, Clone)]
pub struct RawBytes(pub bytes::Bytes);
local!([] RawBytes, |v, w| buf::encode_bytes_bytes(w, &v.0), |v| buf::size_bytes_bytes(&v.0), |r| buf::decode_bytes_bytes(r).map(RawBytes));
impl Model for RawBytes {
    fn make(s: &mut Src) -> Self {
        Self(blob(s).into())
    }
    fn enc(&self, out: &mut Vec<u8>) {
        enc_blob(&self.0, out);
    }
    fn dec(r: &mut Cur<'_>) -> Option<Self> {
        r.blob().map(|b| Self(b.to_vec().into()))
    }
    fn same(&self, other: &Self) -> bool {
        self.0 == other.0
    }
}

#[derive(Debug, Clone)]
pub struct VecBytes(pub Vec<u8>);
local!([] VecBytes, |v, w| buf::encode_bytes_std(w, &v.0), |v| buf::size_bytes_std(&v.0), |r| buf::decode_bytes_std(r).map(VecBytes));
impl Model for VecBytes {
    fn make(s: &mut Src) -> Self {
        Self(blob(s))
    }
    fn enc(&self, out: &mut Vec<u8>) {
        enc_blob(&self.0, out);
    }
    fn dec(r: &mut Cur<'_>) -> Option<Self> {
        r.blob().map(|b| Self(b.into()))
    }
    fn same(&self, other: &Self) -> bool {
        self.0 == other.0
    }
}

/// A length-prefixed pair, through the tuple helper (the way a tuple field is written).
#[derive(Debug, Clone)]
pub struct Pair<A, B>(pub A, pub B);
local!([A: Model, B: Model] Pair<A, B>,
    |v, w| buf::encode_tuple(w, || v.0.size() + v.1.size(), |w| { v.0.encode(w); v.1.encode(w); }),
    |v| { let n = v.0.size() + v.1.size(); buf::size_u64(n as u64) + n },
    |r| { buf::decode_u64(r)?; Ok(Pair(A::decode(r)?, B::decode(r)?)) });
impl<A: Model, B: Model> Model for Pair<A, B> {
    fn make(s: &mut Src) -> Self {
        Pair(A::make(s), B::make(s))
    }
    fn enc(&self, out: &mut Vec<u8>) {
        let mut body = Vec::new();
        self.0.enc(&mut body);
        self.1.enc(&mut body);
        prefixed(body, out);
    }
    fn dec(r: &mut Cur<'_>) -> Option<Self> {
        r.leb(64)?;
        Some(Pair(A::dec(r)?, B::dec(r)?))
    }
    fn same(&self, other: &Self) -> bool {
        self.0.same(&other.0) && self.1.same(&other.1)
    }
}

macro_rules! nz_int {
    ($($name:ident, $t:ty, $std:ty, $f:ident;)*) => {$(
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        pub struct $name(pub $std);
        local!([] $name, |v, w| v.0.get().encode(w), |v| v.0.get().size(), |r| buf::$f(r).map($name));
        impl Model for $name {
            fn make(s: &mut Src) -> Self {
                let v = <$t as Model>::make(s);
                Self(<$std>::new(if v == 0 { 1 } else { v }).unwrap())
            }
            fn enc(&self, out: &mut Vec<u8>) { self.0.get().enc(out) }
            fn dec(r: &mut Cur<'_>) -> Option<Self> { <$std>::new(<$t as Model>::dec(r)?).map(Self) }
            fn same(&self, other: &Self) -> bool { self == other }
        }
    )*};
}
nz_int! {
    NzU8, u8, std::num::NonZeroU8, decode_non_zero_u8;
    NzU16, u16, std::num::NonZeroU16, decode_non_zero_u16;
    NzU32, u32, std::num::NonZeroU32, decode_non_zero_u32;
    NzU64, u64, std::num::NonZeroU64, decode_non_zero_u64;
    NzU128, u128, std::num::NonZeroU128, decode_non_zero_u128;
    NzI8, i8, std::num::NonZeroI8, decode_non_zero_i8;
    NzI16, i16, std::num::NonZeroI16, decode_non_zero_i16;
    NzI32, i32, std::num::NonZeroI32, decode_non_zero_i32;
    NzI64, i64, std::num::NonZeroI64, decode_non_zero_i64;
    NzI128, i128, std::num::NonZeroI128, decode_non_zero_i128;
}

#[derive(Debug)]
pub struct NzString(pub NonZero<String>);
local!([] NzString, |v, w| v.0.encode(w), |v| v.0.size(), |r| buf::decode_non_zero_string(r).map(NzString));
impl Model for NzString {
    fn make(s: &mut Src) -> Self {
        let mut t = text(s);
        if t.is_empty() {
            t.push('x');
        }
        Self(NonZero::<String>::new(t).unwrap())
    }
    fn enc(&self, out: &mut Vec<u8>) {
        self.0.get().enc(out);
    }
    fn dec(r: &mut Cur<'_>) -> Option<Self> {
        NonZero::<String>::new(Model::dec(r)?).map(Self)
    }
    fn same(&self, other: &Self) -> bool {
        self.0.get() == other.0.get()
    }
}

#[derive(Debug)]
pub struct NzBytes(pub NonZero<Vec<u8>>);
local!([] NzBytes, |v, w| buf::encode_bytes_std(w, v.0.get()), |v| buf::size_bytes_std(v.0.get()), |r| buf::decode_non_zero_bytes_std(r).map(NzBytes));
impl Model for NzBytes {
    fn make(s: &mut Src) -> Self {
        let mut t = blob(s);
        if t.is_empty() {
            t.push(0);
        }
        Self(NonZero::<Vec<u8>>::new(t).unwrap())
    }
    fn enc(&self, out: &mut Vec<u8>) {
        enc_blob(self.0.get(), out);
    }
    fn dec(r: &mut Cur<'_>) -> Option<Self> {
        NonZero::<Vec<u8>>::new(r.blob()?.into()).map(Self)
    }
    fn same(&self, other: &Self) -> bool {
        self.0.get() == other.0.get()
    }
}

#[derive(Debug)]
pub struct NzRaw(pub NonZero<bytes::Bytes>);
local!([] NzRaw, |v, w| buf::encode_bytes_bytes(w, v.0.get()), |v| buf::size_bytes_bytes(v.0.get()), |r| buf::decode_non_zero_bytes_bytes(r).map(NzRaw));
impl Model for NzRaw {
    fn make(s: &mut Src) -> Self {
        let mut t = blob(s);
        if t.is_empty() {
            t.push(0);
        }
        Self(NonZero::<bytes::Bytes>::new(t.into()).unwrap())
    }
    fn enc(&self, out: &mut Vec<u8>) {
        enc_blob(self.0.get(), out);
    }
    fn dec(r: &mut Cur<'_>) -> Option<Self> {
        NonZero::<bytes::Bytes>::new(r.blob()?.to_vec().into()).map(Self)
    }
    fn same(&self, other: &Self) -> bool {
        self.0.get() == other.0.get()
    }
}

#[derive(Debug)]
pub struct NzVec<T>(pub NonZero<Vec<T>>);
local!([T: Model] NzVec<T>, |v, w| v.0.encode(w), |v| v.0.size(), |r| buf::decode_non_zero_vec(r, |r| T::decode(r)).map(NzVec));
impl<T: Model> Model for NzVec<T> {
    fn make(s: &mut Src) -> Self {
        let mut v = Vec::make(s);
        if v.is_empty() {
            v.push(T::make(s));
        }
        Self(NonZero::<Vec<T>>::new(v).unwrap())
    }
    fn enc(&self, out: &mut Vec<u8>) {
        self.0.get().enc(out);
    }
    fn dec(r: &mut Cur<'_>) -> Option<Self> {
        NonZero::<Vec<T>>::new(Model::dec(r)?).map(Self)
    }
    fn same(&self, other: &Self) -> bool {
        self.0.get().same(other.0.get())
    }
}

#[derive(Debug)]
pub struct NzSet<T>(pub NonZero<HashSet<T>>);
local!([T: Model + Hash + Eq] NzSet<T>, |v, w| v.0.encode(w), |v| v.0.size(), |r| buf::decode_non_zero_hash_set(r, |r| T::decode(r)).map(NzSet));
impl<T: Model + Hash + Eq> Model for NzSet<T> {
    fn make(s: &mut Src) -> Self {
        let mut v = HashSet::make(s);
        if v.is_empty() {
            v.insert(T::make(s));
        }
        Self(NonZero::<HashSet<T>>::new(v).unwrap())
    }
    fn enc(&self, out: &mut Vec<u8>) {
        self.0.get().enc(out);
    }
    fn dec(r: &mut Cur<'_>) -> Option<Self> {
        NonZero::<HashSet<T>>::new(Model::dec(r)?).map(Self)
    }
    fn same(&self, other: &Self) -> bool {
        self.0.get() == other.0.get()
    }
}

#[derive(Debug)]
pub struct NzMap<K, V>(pub NonZero<HashMap<K, V>>);
local!([K: Model + Hash + Eq, V: Model] NzMap<K, V>, |v, w| v.0.encode(w), |v| v.0.size(), |r| buf::decode_non_zero_hash_map(r, |r| K::decode(r), |r| V::decode(r)).map(NzMap));
impl<K: Model + Hash + Eq, V: Model> Model for NzMap<K, V> {
    fn make(s: &mut Src) -> Self {
        let mut v = HashMap::make(s);
        if v.is_empty() {
            v.insert(K::make(s), V::make(s));
        }
        Self(NonZero::<HashMap<K, V>>::new(v).unwrap())
    }
    fn enc(&self, out: &mut Vec<u8>) {
        self.0.get().enc(out);
    }
    fn dec(r: &mut Cur<'_>) -> Option<Self> {
        NonZero::<HashMap<K, V>>::new(Model::dec(r)?).map(Self)
    }
    fn same(&self, other: &Self) -> bool {
        self.0.get().same(other.0.get())
    }
}
