//! Properties of the runtime crate (`mabo`).

mod bufs;
mod model;

use std::{
    borrow::Cow,
    collections::{HashMap, HashSet},
    process::ExitCode,
    rc::Rc,
    sync::Arc,
};

use bufs::{ChunkBuf, FuelBuf};
use mabo::{
    Buf, BufMut, Decode, Encode, FieldEncoding, FieldId, NonZero,
    buf,
    varint,
};
use model::*;
use pbt::{Case, Check, Ret, Src, ensure, fail, main_with};

type TypeFn = fn(&'static str, &mut Src, &mut Case) -> Ret;

macro_rules! registry {
    ($f:ident) => {
        registry!(@ $f:
            bool, u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, f32, f64,
            String, Box<str>, Box<[u8]>, RawBytes, VecBytes,
            Vec<u8>, Vec<bool>, Vec<u16>, Vec<i32>, Vec<u64>, Vec<i128>, Vec<f64>, Vec<String>, Vec<RawBytes>,
            Vec<Vec<u64>>, Vec<Vec<Vec<u8>>>, Vec<Option<u32>>, Vec<HashSet<u16>>, Vec<[u32; 5]>, Vec<HashMap<u8, u32>>,
            Option<u8>, Option<String>, Option<Option<i16>>, Option<Vec<u128>>, Option<[Vec<u8>; 2]>,
            HashMap<u32, String>, HashMap<String, Vec<u64>>, HashMap<i16, HashMap<u8, f64>>, HashMap<u64, Option<i64>>,
            HashMap<Vec<u8>, bool>, HashMap<[u16; 2], f32>,
            HashSet<i64>, HashSet<String>, HashSet<u128>, HashSet<[i8; 3]>, HashSet<Vec<u16>>, HashSet<bool>,
            [u8; 0], [u8; 3], [u64; 32], [String; 2], [[i32; 4]; 3], [u64; 130], [Vec<u16>; 3], [Option<u8>; 4], [HashSet<u32>; 2],
            Rc<String>, Arc<Vec<i128>>, Cow<'static, u32>, Rc<Vec<Arc<u16>>>,
            Pair<u32, String>, Pair<Vec<u64>, [u16; 3]>, Pair<f32, Option<i128>>, Vec<Pair<u64, RawBytes>>,
            NzU8, NzU16, NzU32, NzU64, NzU128, NzI8, NzI16, NzI32, NzI64, NzI128,
            NzString, NzBytes, NzRaw, NzVec<u32>, NzVec<Vec<u64>>, NzVec<NzI32>, NzSet<u64>, NzSet<String>, NzMap<u16, String>, NzMap<String, NzVec<u8>>,
            Vec<NzU64>, Option<NzString>, Vec<NzString>, [NzU16; 4], HashMap<NzU32, NzBytes>,
        )
    };
    (large $f:ident) => {
        registry!(@ $f:
            String, Box<str>, Box<[u8]>, RawBytes, VecBytes, Vec<u8>, Vec<u16>, Vec<u64>, Vec<f64>, Vec<String>, Vec<Vec<u64>>, Vec<[u32; 5]>, Vec<Option<u32>>,
            Option<String>, Option<Vec<u128>>, HashMap<u32, String>, HashMap<String, Vec<u64>>, HashSet<u128>, HashSet<Vec<u16>>,
            [u8; 70_000], [u16; 65_536], [Vec<u16>; 3], Rc<String>, Pair<Vec<u64>, [u16; 3]>, Vec<Pair<u64, RawBytes>>,
            NzString, NzBytes, NzRaw, NzVec<u32>, NzVec<Vec<u64>>, NzSet<u64>, NzMap<u16, String>, Vec<NzU64>, Option<NzString>,
        )
    };
    (elements $f:ident) => {
        registry!(@ $f:
            bool, u8, i8, u16, i32, u64, i128, f32, f64, String, Box<str>, Box<[u8]>, RawBytes, Vec<u64>, Option<u32>, HashMap<u8, u32>, HashSet<u16>, [u32; 5],
            Rc<String>, Cow<'static, u32>, Pair<u64, RawBytes>, NzI32, NzString, NzVec<u8>,
        )
    };
    (@ $f:ident: $($t:ty,)*) => {
        &[$((stringify!($t), $f::<$t> as TypeFn),)*]
    };
}

fn with_types(list: &'static [(&'static str, TypeFn)]) -> impl Fn(&mut Src, &mut Case) -> Ret + Sync + Send {
    move |s, c| {
        let (name, f) = *s.pick(list);
        f(name, s, c)
    }
}

fn hex(b: &[u8]) -> String {
    let mut out: String = b.iter().take(200).map(|b| format!("{b:02x}")).collect();
    if b.len() > 200 {
        out.push_str("...");
    }
    out
}

fn short(v: &impl std::fmt::Debug) -> String {
    let s = format!("{v:?}");
    if s.chars().count() > 400 { s.chars().take(400).chain("...".chars()).collect() } else { s }
}

fn encode<T: Model>(v: &T) -> Vec<u8> {
    let mut out = Vec::new();
    v.encode(&mut out);
    out
}

fn reference<T: Model>(v: &T) -> Vec<u8> {
    let mut out = Vec::new();
    v.enc(&mut out);
    out
}

/// encode == reference encoding, decode(encode(v) ++ tail) == v, exactly the tail is left.
fn roundtrip<T: Model>(name: &'static str, s: &mut Src, c: &mut Case) -> Ret {
    let v = T::make(s);
    roundtrip_of(name, v, s, c)
}

fn roundtrip_of<T: Model>(name: &'static str, v: T, s: &mut Src, c: &mut Case) -> Ret {
    let tail = s.bytes(12);
    let want = reference(&v);
    c.show(|| format!("{name}: {} tail={}", short(&v), hex(&tail)));
    c.key((name, &want, &tail));
    c.nontrivial(want.len() > 1);
    c.label_if(want.len() > 127, "payload over 127 bytes");
    c.label_if(want.len() > 65535, "payload over 65535 bytes");
    c.label_if(want.len() > 16383, "payload over 16383 bytes");

    let got = encode(&v);
    ensure!(got == want, "{name}: encoded as {} instead of {}", hex(&got), hex(&want));

    let mut wire = want.clone();
    wire.extend(&tail);
    let mut r = FuelBuf::new(&wire);
    match T::decode(&mut r) {
        Ok(back) => {
            ensure!(v.same(&back), "{name}: {} came back as {}", short(&v), short(&back));
            ensure!(r.remaining() == tail.len(), "{name}: {} bytes left instead of {}", r.remaining(), tail.len());
        }
        Err(e) => fail!("{name}: own encoding {} is rejected: {e}", hex(&want)),
    }
    Ok(())
}

/// The same, with the payload arriving in several chunks.
fn segmented<T: Model>(name: &'static str, s: &mut Src, c: &mut Case) -> Ret {
    let v = T::make(s);
    segmented_of(name, v, s, c)
}

fn segmented_of<T: Model>(name: &'static str, v: T, s: &mut Src, c: &mut Case) -> Ret {
    let tail = s.bytes(6);
    let mut wire = reference(&v);
    wire.extend(&tail);
    let n = s.range(1, 6);
    let cuts: Vec<usize> = (0..n).map(|_| s.below(wire.len() + 1)).collect();
    c.show(|| format!("{name}: {} cut at {cuts:?}", short(&v)));
    c.key((name, &wire, &cuts));
    c.nontrivial(cuts.iter().any(|c| *c > 0 && *c < wire.len() - tail.len()));
    let mut r = ChunkBuf::new(&wire, cuts);
    match T::decode(&mut r) {
        Ok(back) => {
            ensure!(v.same(&back), "{name}: {} came back as {} from a segmented buffer", short(&v), short(&back));
            ensure!(r.remaining() == tail.len(), "{name}: {} bytes left instead of {}", r.remaining(), tail.len());
        }
        Err(e) => fail!("{name}: own encoding in a segmented buffer is rejected: {e}"),
    }
    Ok(())
}

/// size() is the number of bytes written; a buffer of exactly that size is filled exactly.
fn size<T: Model>(name: &'static str, s: &mut Src, c: &mut Case) -> Ret {
    let v = T::make(s);
    size_of(name, v, c)
}

fn size_of<T: Model>(name: &'static str, v: T, c: &mut Case) -> Ret {
    let want = reference(&v);
    let n = v.size();
    c.show(|| format!("{name}: {}", short(&v)));
    c.key((name, &want));
    c.nontrivial(want.len() > 1);
    c.label_if(want.len() > 127, "payload over 127 bytes");
    c.label_if(want.len() > 65535, "payload over 65535 bytes");
    ensure!(n == want.len(), "{name}: size() = {n}, but the encoding takes {} bytes: {}", want.len(), short(&v));
    let got = encode(&v);
    ensure!(n == got.len(), "{name}: size() = {n}, but {} bytes are written: {}", got.len(), short(&v));
    let mut exact = vec![0u8; n];
    let mut w = &mut exact[..];
    v.encode(&mut w);
    ensure!(w.remaining_mut() == 0, "{name}: a buffer of size() bytes is not filled");
    ensure!(exact == got, "{name}: different bytes in an exact buffer");
    Ok(())
}

/// Slices are written like the vectors they are taken from, wherever they are held.
fn borrowed<T: Model>(name: &'static str, s: &mut Src, c: &mut Case) -> Ret {
    let v: Vec<Vec<T>> = (0..s.range(1, 3)).map(|_| Vec::<T>::make(s)).collect();
    let two = [Vec::<T>::make(s), Vec::<T>::make(s)];
    let opt = s.coin().then(|| Vec::<T>::make(s));
    c.show(|| format!("slices of {name}: {} {} {}", short(&v), short(&two), short(&opt)));
    c.key((name, reference(&v), reference(&two), reference(&opt)));
    c.nontrivial(v[0].len() > 1);
    let all: Vec<&[T]> = v.iter().map(|v| &v[..]).collect();
    let opts = opt.as_deref();
    let twos = [&two[0][..], &two[1][..]];
    as_owned("slice", name, &reference(&v[0]), &all[0])?;
    as_owned("vector of slices", name, &reference(&v), &all)?;
    as_owned("slice of slices", name, &reference(&v), &&all[..])?;
    as_owned("array of slices", name, &reference(&two), &twos)?;
    as_owned("optional slice", name, &reference(&opt), &opts)
}

fn as_owned<T: mabo::buf::Encode + mabo::buf::Size>(what: &str, name: &str, want: &[u8], v: &T) -> Ret {
    let mut got = Vec::new();
    v.encode(&mut got);
    ensure!(got == want, "{what} of {name}: encoded as {} instead of {}", hex(&got), hex(want));
    let n = v.size();
    ensure!(n == want.len(), "{what} of {name}: size() = {n}, but the encoding takes {} bytes", want.len());
    Ok(())
}

/// Values with a part of many thousand bytes or elements.
fn large_values<T: Model>(name: &'static str, s: &mut Src, c: &mut Case) -> Ret {
    let (v, _) = large::<T>(s);
    if s.coin() { roundtrip_of(name, v, s, c) } else { segmented_of(name, v, s, c) }
}

fn large_size<T: Model>(name: &'static str, s: &mut Src, c: &mut Case) -> Ret {
    let (v, _) = large::<T>(s);
    size_of(name, v, c)
}

fn large_truncated<T: Model>(name: &'static str, s: &mut Src, c: &mut Case) -> Ret {
    let (v, _) = large::<T>(s);
    truncated_of(name, v, s, c)
}

/// Every strict prefix of an encoding is rejected with an error.
fn truncated<T: Model>(name: &'static str, s: &mut Src, c: &mut Case) -> Ret {
    let v = T::make(s);
    truncated_of(name, v, s, c)
}

fn truncated_of<T: Model>(name: &'static str, v: T, s: &mut Src, c: &mut Case) -> Ret {
    let wire = reference(&v);
    c.show(|| format!("{name}: {} = {}", short(&v), hex(&wire)));
    c.key((name, &wire));
    c.nontrivial(wire.len() > 1);
    let mut cuts: Vec<usize> = (0..wire.len().min(24)).collect();
    if wire.len() > 24 {
        cuts.extend((0..12).map(|_| s.below(wire.len())));
        cuts.extend(wire.len() - 4..wire.len());
    }
    c.evaluations(cuts.len() as u64);
    for cut in cuts {
        let mut r = FuelBuf::new(&wire[..cut]);
        if let Ok(back) = T::decode(&mut r) {
            fail!("{name}: the first {cut} of {} bytes of {} decode to {}", wire.len(), short(&v), short(&back));
        }
    }
    Ok(())
}

/// Remembers the biggest block each thread has asked for.
struct Meter;

thread_local! {
    static BIGGEST: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

// SAFETY: everything is passed on to the system allocator.
unsafe impl std::alloc::GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = BIGGEST.try_with(|b| b.set(b.get().max(l.size())));
        unsafe { std::alloc::System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        unsafe { std::alloc::System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = BIGGEST.try_with(|b| b.set(b.get().max(l.size())));
        unsafe { std::alloc::System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let _ = BIGGEST.try_with(|b| b.set(b.get().max(n)));
        unsafe { std::alloc::System.realloc(p, l, n) }
    }
}

#[global_allocator]
static METER: Meter = Meter;

/// Arbitrary and damaged bytes: the value or the rejection that the format prescribes, never a
/// panic, an overrun, a hang or a huge allocation, and the same however the input is split.
/// What is accepted is a real value: it encodes, and decodes back to itself.
fn hostile<T: Model>(name: &'static str, s: &mut Src, c: &mut Case) -> Ret {
    let wire = match s.weighted(&[4, 3, 2]) {
        0 => {
            c.label("damaged encoding");
            let mut w = reference(&if s.chance(1, 4_000) { large::<T>(s).0 } else { T::make(s) });
            for _ in 0..s.range(1, 4) {
                if w.is_empty() {
                    break;
                }
                let i = s.below(w.len());
                match s.below(5) {
                    0 => w[i] = s.byte(),
                    1 => w[i] ^= 1 << s.below(8),
                    2 => {
                        w.remove(i);
                    }
                    3 => w.insert(i, s.byte()),
                    _ => w.truncate(i),
                }
            }
            w
        }
        1 => {
            c.label("random bytes");
            let mut w = s.bytes(48);
            if s.chance(1, 4) && !w.is_empty() {
                // absurd length claims
                let mut huge = Vec::new();
                leb(s.uint(64), &mut huge);
                huge.extend(&w);
                w = huge;
            }
            w
        }
        _ => {
            c.label("value of another type");
            let mut w = match s.below(8) {
                0 => reference(&Vec::<u8>::make(s)),
                1 => reference(&Vec::<u64>::make(s)),
                2 => reference(&Vec::<i32>::make(s)),
                3 => reference(&Vec::<String>::make(s)),
                4 => reference(&Vec::<Vec<u8>>::make(s)),
                5 => reference(&HashMap::<u16, String>::make(s)),
                6 => reference(&VecBytes::make(s)),
                _ => reference(&Vec::<Option<u8>>::make(s)),
            };
            w.extend(s.bytes(6));
            w
        }
    };
    let cuts: Vec<usize> = (0..s.range(1, 5)).map(|_| s.below(wire.len() + 1)).collect();
    c.show(|| format!("{name} <- {} cut at {cuts:?}", hex(&wire)));
    c.key((name, &wire));
    c.nontrivial(!wire.is_empty());
    let mut cur = Cur::new(&wire);
    let want = T::dec(&mut cur);

    BIGGEST.set(0);
    let mut r = FuelBuf::new(&wire);
    let whole = match pbt::no_panic(|| T::decode(&mut r)) {
        Err(p) => fail!("{name}: decoding {} panics: {p}", hex(&wire)),
        Ok(v) => v,
    };
    let biggest = BIGGEST.get();
    ensure!(biggest <= (64 << 10) + 2048 * wire.len(), "{name}: decoding {} bytes asks for {biggest} bytes of memory at once", wire.len());
    let left = r.remaining();

    if cur.open {
        c.label("left open by the format");
    } else {
        match (&whole, &want) {
            (Ok(a), Some(b)) => {
                ensure!(b.same(a), "{name}: {} decodes to {} instead of {}", hex(&wire), short(a), short(b));
                ensure!(left == cur.left.len(), "{name}: {left} bytes are left of {} instead of {}", hex(&wire), cur.left.len());
            }
            (Ok(a), None) => fail!("{name}: {} is accepted as {}", hex(&wire), short(a)),
            (Err(e), Some(b)) => fail!("{name}: {} is rejected instead of giving {}: {e}", hex(&wire), short(b)),
            (Err(_), None) => {}
        }
    }

    let mut r = ChunkBuf::new(&wire, cuts);
    match (pbt::no_panic(|| T::decode(&mut r)), &whole) {
        (Err(p), _) => fail!("{name}: decoding {} in pieces panics: {p}", hex(&wire)),
        (Ok(Ok(a)), Ok(b)) => {
            ensure!(b.same(&a), "{name}: {} decodes to {} whole and to {} in pieces", hex(&wire), short(b), short(&a));
            ensure!(r.remaining() == left, "{name}: {} bytes are left in pieces and {left} whole", r.remaining());
        }
        (Ok(Err(_)), Err(_)) => {}
        (Ok(Ok(a)), Err(e)) => fail!("{name}: {} decodes to {} in pieces, and not as a whole: {e}", hex(&wire), short(&a)),
        (Ok(Err(e)), Ok(b)) => fail!("{name}: {} decodes to {} as a whole, and not in pieces: {e}", hex(&wire), short(b)),
    }

    match whole {
        Err(e) => {
            c.label("rejected");
            let _ = e.to_string();
        }
        Ok(v) => {
            c.label("accepted");
            let again = encode(&v);
            let mut r = FuelBuf::new(&again);
            match T::decode(&mut r) {
                Ok(back) => ensure!(v.same(&back) && r.remaining() == 0, "{name}: accepted {} does not survive its own encoding", short(&v)),
                Err(e) => fail!("{name}: accepted {} but its encoding is rejected: {e}", short(&v)),
            }
        }
    }
    Ok(())
}

/// Arrays whose writer had more or fewer elements: the first elements, or an error.
fn resized<T: Model, const N: usize>(name: &'static str, s: &mut Src, c: &mut Case) -> Ret {
    let n = match s.below(3) {
        0 => s.range(0, N),
        1 => N + s.range(0, 4),
        _ => N + s.range(0, 150),
    };
    let all: Vec<T> = (0..n).map(|_| T::make(s)).collect();
    let mut wire = reference(&all);
    let tail = s.bytes(6);
    wire.extend(&tail);
    let cuts: Vec<usize> = (0..s.range(0, 5)).map(|_| s.below(wire.len() + 1)).collect();
    c.show(|| format!("{n} elements {} read as {N} cut at {cuts:?}", short(&all)));
    c.key((name, N, &wire, &cuts));
    c.nontrivial(n != N);
    c.label(if n > N { "longer" } else if n < N { "shorter" } else { "same length" });
    let mut r = ChunkBuf::new(&wire, cuts);
    match <[T; N]>::decode(&mut r) {
        Ok(v) => {
            ensure!(n >= N, "{n} elements are read as an array of {N}");
            ensure!(v.iter().zip(&all).all(|(a, b)| b.same(a)), "{} is read as {}", short(&all), short(&v));
            ensure!(r.remaining() == tail.len(), "{} bytes are left after the array instead of {}", r.remaining(), tail.len());
        }
        Err(e) => ensure!(n < N, "{n} elements are rejected for an array of {N}: {e}"),
    }
    Ok(())
}

fn arrays(s: &mut Src, c: &mut Case) -> Ret {
    match s.below(8) {
        0 => resized::<u8, 0>("u8", s, c),
        1 => resized::<u8, 5>("u8", s, c),
        2 => resized::<u64, 3>("u64", s, c),
        3 => resized::<i16, 1>("i16", s, c),
        4 => resized::<String, 2>("string", s, c),
        5 => resized::<Vec<u16>, 4>("vec<u16>", s, c),
        6 => resized::<[u32; 2], 3>("[u32; 2]", s, c),
        _ => resized::<Option<i64>, 12>("option<i64>", s, c),
    }
}

/// Checks of one integer value through the varint module.
macro_rules! check_varint {
    ($v:expr, $ref:expr, $max:expr, $enc:path, $dec:path, $size:path, $tail:expr) => {{
        let v = $v;
        let mut want = Vec::new();
        leb($ref, &mut want);
        let (raw, n) = $enc(v);
        ensure!(raw[..n] == want[..], "{v} is written as {} instead of {}", hex(&raw[..n]), hex(&want));
        ensure!($size(v) == want.len(), "size of {v} is {} instead of {}", $size(v), want.len());
        ensure!(want.len() <= $max, "model error");
        let mut wire = want.clone();
        wire.extend($tail);
        match $dec(&wire) {
            Ok((back, used)) => ensure!(back == v && used == n, "{} decodes to {back} using {used} bytes instead of {v} using {n}", hex(&wire)),
            Err(_) => fail!("{} is rejected", hex(&wire)),
        }
        for cut in 0..n {
            ensure!($dec(&want[..cut]).is_err(), "the unterminated {} decodes", hex(&want[..cut]));
        }
    }};
}

/// Outcome of reading an integer from a split buffer, with the number of bytes left.
fn pieces<T: Decode>(s: &mut Src, wire: &[u8]) -> (Option<T>, usize, Vec<usize>) {
    let cuts: Vec<usize> = (0..s.range(1, 4)).map(|_| s.below(wire.len().min(20) + 1)).collect();
    let mut r = ChunkBuf::new(wire, cuts.clone());
    let v = T::decode(&mut r).ok();
    (v, r.remaining(), cuts)
}

macro_rules! varint_pair {
    ($s:ident, $c:ident, $u:ident, $i:ident, $bits:literal, $max:literal, $eu:ident, $du:ident, $su:ident, $ei:ident, $di:ident, $si:ident) => {{
        let tail = $s.bytes(4);
        if $s.coin() {
            let v = $s.uint($bits) as $u;
            $c.show(|| format!("{} {v}", stringify!($u)));
            $c.key((stringify!($u), v));
            $c.nontrivial(v > 127);
            check_varint!(v, u128::from(v), $max, varint::$eu, varint::$du, varint::$su, &tail);
            let mut w = Vec::new();
            v.encode(&mut w);
            ensure!($u::decode(&mut &w[..]).ok() == Some(v), "{v} does not round-trip");
            w.extend(&tail);
            let (back, left, cuts) = pieces::<$u>($s, &w);
            ensure!(back == Some(v) && left == tail.len(), "{} cut at {cuts:?} is read as {back:?} with {left} bytes left", hex(&w));
        } else {
            let v = $s.int($bits) as $i;
            $c.show(|| format!("{} {v}", stringify!($i)));
            $c.key((stringify!($i), v));
            $c.nontrivial(!(-64..64).contains(&v));
            check_varint!(v, zigzag(i128::from(v)), $max, varint::$ei, varint::$di, varint::$si, &tail);
            let mut w = Vec::new();
            v.encode(&mut w);
            ensure!($i::decode(&mut &w[..]).ok() == Some(v), "{v} does not round-trip");
            w.extend(&tail);
            let (back, left, cuts) = pieces::<$i>($s, &w);
            ensure!(back == Some(v) && left == tail.len(), "{} cut at {cuts:?} is read as {back:?} with {left} bytes left", hex(&w));
        }
        // no end marker within the widest possible encoding
        let mut endless = vec![0x80 | $s.byte(); $max];
        endless.extend(&tail);
        ensure!(varint::$du(&endless).is_err(), "{} decodes without end marker as {}", hex(&endless), stringify!($u));
        ensure!(varint::$di(&endless).is_err(), "{} decodes without end marker as {}", hex(&endless), stringify!($i));
        let (back, _, cuts) = pieces::<$u>($s, &endless);
        ensure!(back.is_none(), "{} cut at {cuts:?} decodes without end marker", hex(&endless));
        // padded (non-minimal) encodings of values in range mean the same value
        let v = $s.uint($bits) as $u;
        let mut padded = Vec::new();
        leb(u128::from(v), &mut padded);
        let pad = $s.range(0, $max - padded.len());
        if pad > 0 {
            *padded.last_mut().unwrap() |= 0x80;
            padded.extend(std::iter::repeat_n(0x80, pad - 1));
            padded.push(0);
        }
        padded.extend(&tail);
        match varint::$du(&padded) {
            Ok((back, used)) => ensure!(back == v && used == padded.len() - tail.len(), "{} decodes to {back}", hex(&padded)),
            Err(_) => fail!("{} is rejected", hex(&padded)),
        }
        let (back, left, cuts) = pieces::<$u>($s, &padded);
        ensure!(back == Some(v) && left == tail.len(), "{} cut at {cuts:?} is read as {back:?} with {left} bytes left", hex(&padded));
        Ok(())
    }};
}

fn varints(s: &mut Src, c: &mut Case) -> Ret {
    match s.below(4) {
        0 => varint_pair!(s, c, u16, i16, 16, 3, encode_u16, decode_u16, size_u16, encode_i16, decode_i16, size_i16),
        1 => varint_pair!(s, c, u32, i32, 32, 5, encode_u32, decode_u32, size_u32, encode_i32, decode_i32, size_i32),
        2 => varint_pair!(s, c, u64, i64, 64, 10, encode_u64, decode_u64, size_u64, encode_i64, decode_i64, size_i64),
        _ => varint_pair!(s, c, u128, i128, 128, 19, encode_u128, decode_u128, size_u128, encode_i128, decode_i128, size_i128),
    }
}

/// All 16-bit values, in 256 blocks.
fn exhaustive16(s: &mut Src, c: &mut Case) -> Ret {
    let block = s.upto(255) as u16;
    c.key(block);
    c.show(|| format!("all 16-bit values with high byte {block}"));
    c.nontrivial(true);
    c.evaluations(512);
    for low in 0..=255u16 {
        let v = block << 8 | low;
        check_varint!(v, u128::from(v), 3, varint::encode_u16, varint::decode_u16, varint::size_u16, &[]);
        let v = v as i16;
        check_varint!(v, zigzag(i128::from(v)), 3, varint::encode_i16, varint::decode_i16, varint::size_i16, &[]);
    }
    Ok(())
}

const ENCODINGS: [(FieldEncoding, u32); 5] = [
    (FieldEncoding::Varint, 0),
    (FieldEncoding::LengthPrefixed, 1),
    (FieldEncoding::Fixed1, 2),
    (FieldEncoding::Fixed4, 3),
    (FieldEncoding::Fixed8, 4),
];

fn skip_one<T: Model>(s: &mut Src) -> (String, Vec<u8>) {
    let v = if s.chance(1, 2_000) { large::<T>(s).0 } else { T::make(s) };
    (short(&v), encode(&v))
}

/// Skipping a value by its encoding marker consumes exactly the value.
fn skip(s: &mut Src, c: &mut Case) -> Ret {
    let (enc, raw) = *s.pick(&ENCODINGS);
    let (shown, body) = match raw {
        0 => match s.below(8) {
            0 => skip_one::<u16>(s),
            1 => skip_one::<i16>(s),
            2 => skip_one::<u32>(s),
            3 => skip_one::<i32>(s),
            4 => skip_one::<u64>(s),
            5 => skip_one::<i64>(s),
            6 => skip_one::<u128>(s),
            _ => skip_one::<i128>(s),
        },
        1 => match s.below(9) {
            0 => skip_one::<String>(s),
            1 => skip_one::<VecBytes>(s),
            2 => skip_one::<RawBytes>(s),
            3 => skip_one::<Vec<Vec<u64>>>(s),
            4 => skip_one::<HashMap<u16, String>>(s),
            5 => skip_one::<HashSet<i64>>(s),
            6 => skip_one::<[u64; 20]>(s),
            7 => skip_one::<Pair<String, Vec<u128>>>(s),
            _ => skip_one::<NzVec<String>>(s),
        },
        2 => match s.below(3) {
            0 => skip_one::<bool>(s),
            1 => skip_one::<u8>(s),
            _ => skip_one::<i8>(s),
        },
        3 => skip_one::<f32>(s),
        _ => skip_one::<f64>(s),
    };
    let tail = s.bytes(8);
    let number = s.uint(29) as u32;
    c.show(|| format!("field {number} marker {raw} value {shown} tail {}", hex(&tail)));
    c.key((raw, &body, &tail, number));
    c.nontrivial(body.len() > 1);
    for (l, m) in ["varint", "length delimited", "1 byte", "4 bytes", "8 bytes"].into_iter().zip(0..) {
        c.label_if(m == raw, l);
    }

    // a whole field: identifier and value
    let id = FieldId::new(number, enc);
    let mut wire = Vec::new();
    buf::encode_field(&mut wire, id, |w| w.put_slice(&body));
    let mut want = Vec::new();
    leb(u128::from(number) * 8 + u128::from(raw), &mut want);
    ensure!(buf::size_field_id(number) == want.len(), "field identifier size {} instead of {}", buf::size_field_id(number), want.len());
    ensure!(buf::size_field(number, || body.len()) == want.len() + body.len(), "field size is wrong");
    ensure!(buf::size_field_option(number, Some(&()), |()| body.len()) == want.len() + body.len(), "optional field size is wrong");
    ensure!(buf::size_field_option::<(), _>(number, None, |()| body.len()) == 0, "absent field has a size");
    want.extend(&body);
    ensure!(wire == want, "field written as {} instead of {}", hex(&wire), hex(&want));
    let mut opt = Vec::new();
    buf::encode_field_option(&mut opt, id, &Some(()), |w: &mut Vec<u8>, ()| w.put_slice(&body));
    ensure!(opt == want, "optional field written as {} instead of {}", hex(&opt), hex(&want));
    let mut none = Vec::new();
    buf::encode_field_option(&mut none, id, &None::<()>, |w: &mut Vec<u8>, ()| w.put_slice(&body));
    ensure!(none.is_empty(), "absent optional field is written as {}", hex(&none));

    let full = wire.len();
    wire.extend(&tail);
    let chunked = s.coin();
    let cuts = (0..3).map(|_| s.below(wire.len() + 1)).collect::<Vec<_>>();
    fn go(r: &mut impl Buf, number: u32, enc: FieldEncoding, left: usize) -> Ret {
        let id = match buf::decode_id(r) {
            Ok(id) => id,
            Err(e) => fail!("field identifier {number} is rejected: {e}"),
        };
        ensure!(id.value == number && id.encoding == enc, "field identifier {number} came back as {} with marker {}", id.value, id.encoding as u32);
        if let Err(e) = buf::decode_skip(r, id.encoding) {
            fail!("skipping fails: {e}");
        }
        ensure!(r.remaining() == left, "{} bytes left after skipping instead of {left}", r.remaining());
        Ok(())
    }
    if chunked {
        go(&mut ChunkBuf::new(&wire, cuts), number, enc, tail.len())?;
    } else {
        go(&mut FuelBuf::new(&wire), number, enc, tail.len())?;
    }

    // a cut-off value cannot be skipped
    if !body.is_empty() {
        let cut = s.below(body.len());
        let mut r = FuelBuf::new(&wire[full - body.len()..full - body.len() + cut]);
        match pbt::no_panic(|| buf::decode_skip(&mut r, enc)) {
            Ok(Ok(())) => fail!("skipping {cut} of {} bytes succeeds", body.len()),
            Ok(Err(_)) => {}
            Err(p) => fail!("skipping cut-off data panics: {p}"),
        }
    }
    Ok(())
}

/// Any 32-bit word as field identifier: number and marker are recovered, or it is rejected.
fn field_ids(s: &mut Src, c: &mut Case) -> Ret {
    let raw = s.uint(32) as u32;
    c.show(|| format!("raw identifier {raw}"));
    c.key(raw);
    c.nontrivial(raw > 7);
    let mut wire = Vec::new();
    leb(raw.into(), &mut wire);
    let n = wire.len();
    wire.extend(s.bytes(3));
    let mut r = FuelBuf::new(&wire);
    let marker = raw % 8;
    match buf::decode_id(&mut r) {
        Ok(id) => {
            ensure!(marker < 5, "identifier {raw} with unknown marker {marker} is accepted");
            ensure!(id.value == raw / 8 && id.encoding as u32 == marker, "identifier {raw} is read as number {} marker {}", id.value, id.encoding as u32);
            ensure!(id.into_u32() == raw, "identifier {raw} is written as {}", id.into_u32());
            ensure!(r.remaining() == wire.len() - n, "identifier consumed the wrong number of bytes");
        }
        Err(buf::Error::UnknownEncoding(v)) => {
            ensure!(marker >= 5, "identifier {raw} with known marker {marker} is rejected");
            ensure!(v == raw, "error names {v} instead of {raw}");
        }
        Err(e) => fail!("identifier {raw} fails with {e}"),
    }
    // variant identifiers use the full width
    let mut r = FuelBuf::new(&wire);
    match buf::decode_variant_id(&mut r) {
        Ok(id) => ensure!(id.value == raw, "variant {raw} is read as {}", id.value),
        Err(e) => fail!("variant {raw} is rejected: {e}"),
    }
    let mut w = Vec::new();
    buf::encode_variant_id(&mut w, mabo::VariantId::new(raw));
    ensure!(w == wire[..n], "variant {raw} is written as {}", hex(&w));
    ensure!(buf::size_variant_id(raw) == n, "variant {raw} has size {}", buf::size_variant_id(raw));
    Ok(())
}

macro_rules! nz_check {
    ($s:ident, $c:ident, $name:expr, $plain:ty, $wire:expr, $zero:expr, $dec:expr, $eq:expr) => {{
        let v: $plain = $wire;
        let zero: bool = $zero(&v);
        let bytes = reference(&v);
        $c.show(|| format!("{} <- {}", $name, short(&v)));
        $c.key(($name, &bytes));
        $c.nontrivial(true);
        $c.label(if zero { "zero or empty" } else { "non-zero" });
        let mut r = FuelBuf::new(&bytes);
        match $dec(&mut r) {
            Ok(back) => {
                ensure!(!zero, "{}: decoded from zero/empty {}", $name, hex(&bytes));
                ensure!($eq(&back, &v), "{}: {} came back as {:?}", $name, short(&v), back);
                ensure!(r.remaining() == 0, "{}: bytes left", $name);
            }
            Err(buf::Error::Zero) => ensure!(zero, "{}: {} is reported as zero", $name, short(&v)),
            Err(e) => fail!("{}: {} fails with {e}", $name, short(&v)),
        }
        Ok(())
    }};
}

/// Decoding into non-zero types: exactly the non-zero payloads pass.
fn non_zero(s: &mut Src, c: &mut Case) -> Ret {
    let z = s.chance(1, 3);
    macro_rules! int {
        ($t:ty, $f:path) => {
            nz_check!(s, c, stringify!($f), $t, if z { 0 } else { <$t as Model>::make(s) }, |v: &$t| *v == 0, |r: &mut FuelBuf<'_>| $f(r), |a: &_, b: &$t| {
                let a: &std::num::NonZero<$t> = a;
                a.get() == *b
            })
        };
    }
    match s.below(18) {
        0 => int!(u8, buf::decode_non_zero_u8),
        1 => int!(u16, buf::decode_non_zero_u16),
        2 => int!(u32, buf::decode_non_zero_u32),
        3 => int!(u64, buf::decode_non_zero_u64),
        4 => int!(u128, buf::decode_non_zero_u128),
        5 => int!(i8, buf::decode_non_zero_i8),
        6 => int!(i16, buf::decode_non_zero_i16),
        7 => int!(i32, buf::decode_non_zero_i32),
        8 => int!(i64, buf::decode_non_zero_i64),
        9 => int!(i128, buf::decode_non_zero_i128),
        10 => nz_check!(s, c, "string", String, if z { String::new() } else { Model::make(s) }, String::is_empty, |r: &mut FuelBuf<'_>| buf::decode_non_zero_string(r), |a: &NonZero<String>, b: &String| a.get() == b),
        11 => nz_check!(s, c, "bytes", Vec<u8>, if z { Vec::new() } else { Model::make(s) }, Vec::is_empty, |r: &mut FuelBuf<'_>| buf::decode_non_zero_bytes_std(r), |a: &NonZero<Vec<u8>>, b: &Vec<u8>| a.get() == b),
        12 => nz_check!(s, c, "bytes (shared)", Vec<u8>, if z { Vec::new() } else { Model::make(s) }, Vec::is_empty, |r: &mut FuelBuf<'_>| buf::decode_non_zero_bytes_bytes(r), |a: &NonZero<bytes::Bytes>, b: &Vec<u8>| a.get() == b),
        13 => nz_check!(s, c, "vec", Vec<u64>, if z { Vec::new() } else { Model::make(s) }, Vec::is_empty, |r: &mut FuelBuf<'_>| buf::decode_non_zero_vec(r, |r| u64::decode(r)), |a: &NonZero<Vec<u64>>, b: &Vec<u64>| a.get() == b),
        14 => nz_check!(s, c, "vec of string", Vec<String>, if z { Vec::new() } else { Model::make(s) }, Vec::is_empty, |r: &mut FuelBuf<'_>| buf::decode_non_zero_vec(r, |r| String::decode(r)), |a: &NonZero<Vec<String>>, b: &Vec<String>| a.get() == b),
        15 => nz_check!(s, c, "hash map", HashMap<u16, String>, if z { HashMap::new() } else { Model::make(s) }, HashMap::is_empty, |r: &mut FuelBuf<'_>| buf::decode_non_zero_hash_map(r, |r| u16::decode(r), |r| String::decode(r)), |a: &NonZero<HashMap<u16, String>>, b: &HashMap<u16, String>| a.get() == b),
        16 => nz_check!(s, c, "hash set", HashSet<i64>, if z { HashSet::new() } else { Model::make(s) }, HashSet::is_empty, |r: &mut FuelBuf<'_>| buf::decode_non_zero_hash_set(r, |r| i64::decode(r)), |a: &NonZero<HashSet<i64>>, b: &HashSet<i64>| a.get() == b),
        _ => {
            // construction in memory
            c.nontrivial(true);
            c.label(if z { "constructed empty" } else { "constructed" });
            let t = if z { String::new() } else { String::make(s) };
            let b = if z { Vec::new() } else { Vec::<u8>::make(s) };
            let m: HashMap<u8, u8> = if z { HashMap::new() } else { Model::make(s) };
            let h: HashSet<u32> = if z { HashSet::new() } else { Model::make(s) };
            c.show(|| format!("NonZero::new of {t:?} {b:?} {m:?} {h:?}"));
            ensure!(NonZero::<String>::new(t.clone()).map(NonZero::into_inner) == (!t.is_empty()).then_some(t), "non-zero string construction");
            ensure!(NonZero::<bytes::Bytes>::new(b.clone().into()).map(|v| v.get().to_vec()) == (!b.is_empty()).then_some(b.clone()), "non-zero shared bytes construction");
            ensure!(NonZero::<Vec<u8>>::new(b.clone()).map(NonZero::into_inner) == (!b.is_empty()).then_some(b), "non-zero vec construction");
            ensure!(NonZero::<HashMap<u8, u8>>::new(m.clone()).map(NonZero::into_inner) == (!m.is_empty()).then_some(m), "non-zero map construction");
            ensure!(NonZero::<HashSet<u32>>::new(h.clone()).map(|v| (*v).clone()) == (!h.is_empty()).then_some(h), "non-zero set construction");
            Ok(())
        }
    }
}

fn check(id: &str) -> Option<Check> {
    Some(match id {
        "W01" => Check::new("W01", "integers of every width drawn from tiny, every-magnitude, power-of-two-edge and near-maximum classes, plus all 16-bit values, read whole and from split buffers; non-trivial: needs more than one byte")
            .part("varint", 4_500_000, 20_000_000, varints)
            .part("exhaustive16", 1500, 3000, exhaustive16),
        "W02" => Check::new("W02", "random values of 90 concrete types (primitives, strings, bytes, nested collections, options, arrays, pairs, non-zero and smart-pointer wrappers); non-trivial: encoding longer than one byte, for segmented buffers a cut inside the value, for arrays a writer of another length")
            .part("roundtrip", 1_800_000, 6_000_000, with_types(registry!(roundtrip)))
            .part("segmented", 1_200_000, 3_000_000, with_types(registry!(segmented)))
            .part("resized_arrays", 600_000, 2_000_000, arrays)
            .part("slices", 240_000, 1_000_000, with_types(registry!(elements borrowed)))
            .part("large", 1_200, 12_000, with_types(registry!(large large_values))),
        "W03" => Check::new("W03", "as W02, values of 90 types; non-trivial: encoding longer than one byte")
            .part("size", 3_000_000, 8_000_000, with_types(registry!(size)))
            .part("slices", 240_000, 1_000_000, with_types(registry!(elements borrowed)))
            .part("large", 1_200, 12_000, with_types(registry!(large large_size))),
        "W04" => Check::new("W04", "random bytes, damaged encodings (bit flips, insertions, deletions, cuts), encodings of other types, absurd length prefixes, each whole and split, judged by a reference decoder, and every short prefix of valid encodings, decoded as 90 types; non-trivial: non-empty input")
            .part("hostile", 3_750_000, 12_000_000, with_types(registry!(hostile)))
            .part("truncated", 900_000, 3_000_000, with_types(registry!(truncated)))
            .part("large", 600, 6_000, with_types(registry!(large large_truncated))),
        "W05" => Check::new("W05", "a value of a type of each encoding marker behind a random field number, contiguous or segmented, cut-off values, and arbitrary 32-bit identifiers; non-trivial: value longer than one byte or identifier above 7")
            .part("skip", 3_000_000, 8_000_000, skip)
            .part("field_ids", 3_000_000, 8_000_000, field_ids),
        "W06" => Check::new("W06", "zero/empty and non-zero payloads for every non-zero decoder and constructor; non-trivial: every case")
            .part("non_zero", 3_000_000, 8_000_000, non_zero),
        _ => return None,
    })
}

fn main() -> ExitCode {
    main_with(check)
}
