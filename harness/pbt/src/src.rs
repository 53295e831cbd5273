/// Source of generator choices: either drawn from a seeded PRNG (and recorded) or replayed.
pub struct Src {
    rec: Vec<u64>,
    pos: usize,
    replay: bool,
    state: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Src {
    pub fn seeded(seed: u64, case: u64) -> Self {
        let mut s = seed.wrapping_mul(0xD134_2543_DE82_EF95) ^ case.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ 0xA5A5_5A5A;
        let state = [splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)];
        Self { rec: Vec::new(), pos: 0, replay: false, state }
    }

    pub fn replay(rec: Vec<u64>) -> Self {
        Self { rec, pos: 0, replay: true, state: [1; 4] }
    }

    /// Choices consumed so far.
    pub fn choices(&self) -> &[u64] {
        &self.rec[..self.pos.min(self.rec.len())]
    }

    fn next_u64(&mut self) -> u64 {
        // xoshiro256**
        let s = &mut self.state;
        let result = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        result
    }

    /// A choice in `0..=max`. Zero is always the simplest choice.
    pub fn upto(&mut self, max: u64) -> u64 {
        let v = if self.replay {
            let v = self.rec.get(self.pos).copied().unwrap_or(0).min(max);
            if self.pos < self.rec.len() {
                self.rec[self.pos] = v;
            } else {
                self.rec.push(v);
            }
            v
        } else {
            let r = self.next_u64();
            let v = if max == u64::MAX { r } else { ((u128::from(r) * (u128::from(max) + 1)) >> 64) as u64 };
            self.rec.push(v);
            v
        };
        self.pos += 1;
        v
    }

    /// `0..n`
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        self.upto(n as u64 - 1) as usize
    }

    /// `a..=b`
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.upto((b - a) as u64) as usize
    }

    /// True with a chance of `num` in `den`; `false` is the simple choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.upto(den - 1) >= den - num
    }

    pub fn coin(&mut self) -> bool {
        self.chance(1, 2)
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len())]
    }

    /// Index chosen by weight; index 0 is the simple choice.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.upto(total - 1);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }

    /// Collection length: mostly small, geometric tail up to `max`.
    pub fn len(&mut self, max: usize) -> usize {
        if max == 0 {
            return 0;
        }
        match self.weighted(&[6, 3, 1]) {
            0 => self.range(0, max.min(4)),
            1 => self.range(0, max.min(12)),
            _ => self.range(0, max),
        }
    }

    /// Unsigned integer of the given bit width, biased towards edges and towards every magnitude.
    pub fn uint(&mut self, bits: u32) -> u128 {
        let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        match self.weighted(&[3, 3, 3, 2]) {
            // tiny
            0 => u128::from(self.upto(300)) & mask,
            // uniform within a random magnitude
            1 => {
                let b = self.range(1, bits as usize) as u32;
                let raw = self.raw128();
                let m = if b == 128 { u128::MAX } else { (1u128 << b) - 1 };
                raw & m & mask
            }
            // around a power of two (7-bit group edges included)
            2 => {
                let b = self.range(0, bits as usize) as u32;
                let p = if b == 128 { 0 } else { 1u128 << b };
                let d = u128::from(self.upto(4));
                p.wrapping_sub(2).wrapping_add(d) & mask
            }
            _ => mask - u128::from(self.upto(3)),
        }
    }

    pub fn int(&mut self, bits: u32) -> i128 {
        let u = self.uint(bits);
        let v = if bits == 128 {
            u as i128
        } else {
            let sign = 1u128 << (bits - 1);
            ((u ^ sign).wrapping_sub(sign)) as i128
        };
        if self.chance(1, 3) {
            // mirrored around the sign so that small negatives are common
            let w = !v;
            let min = if bits == 128 { i128::MIN } else { -(1i128 << (bits - 1)) };
            let max = !min;
            if w >= min && w <= max { w } else { v }
        } else {
            v
        }
    }

    pub fn raw128(&mut self) -> u128 {
        (u128::from(self.upto(u64::MAX)) << 64) | u128::from(self.upto(u64::MAX))
    }

    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        let n = self.len(max);
        (0..n).map(|_| self.byte()).collect()
    }

    pub fn byte(&mut self) -> u8 {
        match self.weighted(&[2, 1, 1]) {
            0 => self.upto(16) as u8,
            1 => *self.pick(&[0x00, 0x7f, 0x80, 0xff, 0x81, 0xc3, 0xe2, 0xf0]),
            _ => self.upto(255) as u8,
        }
    }

    pub fn char(&mut self) -> char {
        match self.weighted(&[8, 2, 2]) {
            0 => (b' ' + self.upto(94) as u8) as char,
            1 => *self.pick(&['\u{0}', '\n', '\r', '\t', '"', '\\', '\'', '\u{7f}', '\u{80}', 'ß', 'ÿ', '—', '日', '\u{feff}', '\u{2028}', '😀', '\u{10ffff}', '\u{301}', '<', '&']),
            _ => {
                let v = self.upto(0x0010_ffff) as u32;
                char::from_u32(v).unwrap_or('\u{fffd}')
            }
        }
    }

    pub fn string(&mut self, max: usize) -> String {
        let n = self.len(max);
        (0..n).map(|_| self.char()).collect()
    }

    pub fn f32(&mut self) -> f32 {
        match self.weighted(&[2, 2, 2]) {
            0 => *self.pick(&[0.0, -0.0, 1.0, -1.5, f32::MIN, f32::MAX, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MIN_POSITIVE, f32::EPSILON]),
            1 => self.int(16) as f32 / 8.0,
            _ => f32::from_bits(self.upto(u64::from(u32::MAX)) as u32),
        }
    }

    pub fn f64(&mut self) -> f64 {
        match self.weighted(&[2, 2, 2]) {
            0 => *self.pick(&[0.0, -0.0, 1.0, -1.5, f64::MIN, f64::MAX, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE, f64::EPSILON]),
            1 => self.int(32) as f64 / 8.0,
            _ => f64::from_bits(self.upto(u64::MAX)),
        }
    }

    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i - self.below(i + 1);
            v.swap(i, j);
        }
    }
}
