//! Seeded generator of hostile inputs (xoshiro256**).

use std::cell::Cell;

#[derive(Clone)]
pub struct Rng(Cell<[u64; 4]>);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in b {
        h = (h ^ u64::from(x)).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = [0; 4];
        let mut z = seed;
        for x in &mut s {
            z = mix(z.wrapping_add(0x1234_5678_9abc_def1));
            *x = z;
        }
        Rng(Cell::new(s))
    }
    pub fn next(&self) -> u64 {
        let mut s = self.0.get();
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        self.0.set(s);
        r
    }
    pub fn fork(&self) -> Rng {
        Rng::new(self.next())
    }
    /// Uniform in `0..n`.
    pub fn below(&self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((u128::from(self.next()) * u128::from(n)) >> 64) as u64
    }
    /// Uniform in `lo..=hi`.
    pub fn range(&self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn us(&self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&self, xs: &'a [T]) -> &'a T {
        &xs[self.us(xs.len())]
    }
    pub fn shuffle<T>(&self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            xs.swap(i, self.us(i + 1));
        }
    }
    pub fn unit(&self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }

    /// Once in `den` cases a size between 50 and `max`, of which each magnitude is as likely.
    pub fn big(&self, den: u64, max: u64) -> Option<u64> {
        if cfg!(miri) || !self.chance(1, den) {
            return None;
        }
        let top = (max as f64 / 50.0).ln();
        Some((50.0 * (top * self.unit()).exp()) as u64)
    }

    /// A non-negative multiple of 1/8 (sums of many are exact in any order).
    pub fn dyadic(&self) -> f64 {
        match self.below(6) {
            0 => 0.0,
            1 => self.below(8) as f64 / 8.0,
            2 => self.below(64) as f64,
            3 => self.below(1 << 12) as f64 / 8.0,
            4 => self.below(1 << 20) as f64 / 8.0,
            _ => self.below(1 << 32) as f64,
        }
    }
    pub fn sdyadic(&self) -> f64 {
        let v = self.dyadic();
        if self.chance(1, 2) {
            -v
        } else {
            v
        }
    }

    /// Any `f64`, biased towards the nasty ones; NaN only if `nan`.
    pub fn f64_any(&self, nan: bool) -> f64 {
        if nan && self.chance(1, 50) {
            return *self.pick(&[f64::NAN, -f64::NAN, f64::from_bits(0x7ff0_0000_0000_0001)]);
        }
        loop {
            let v = match self.below(12) {
                0..=2 => *self.pick(SPECIAL),
                3 => -*self.pick(SPECIAL),
                4 => f64::from_bits(self.next()),
                5 => self.below(20) as f64,
                6 => -(self.below(20) as f64),
                7 => self.below(1_000_000) as f64 / 10f64.powi(self.below(8) as i32),
                8 => self.sdyadic(),
                9 => {
                    let v = *self.pick(SPECIAL);
                    if self.chance(1, 2) {
                        next_up(v)
                    } else {
                        next_down(v)
                    }
                }
                10 => 10f64.powi(self.below(600) as i32 - 300) * self.unit(),
                _ => self.unit(),
            };
            if nan || !v.is_nan() {
                return v;
            }
        }
    }

    pub fn uchar(&self) -> char {
        loop {
            let c = match self.below(10) {
                0..=2 => *self.pick(&['\\', '"', '\n', '\\', '"', '\n', 'n', '{', '}', ',', '=', ' ']) as u32,
                3 => self.below(0x20) as u32,
                4..=5 => self.range(0x20, 0x7f) as u32,
                6 => self.range(0x80, 0xff) as u32,
                7 => *self.pick(&[
                    0x2028, 0x2029, 0xfeff, 0x200b, 0x200d, 0x301, 0x7f, 0x85, 0xa0, 0x10ffff, 0xfffd, 0xd7ff, 0xe000,
                    0x1f600, 0x202e, 0xad,
                ]),
                8 => self.range(0x100, 0xffff) as u32,
                _ => self.below(0x110000) as u32,
            } as u32;
            if let Some(c) = char::from_u32(c) {
                return c;
            }
        }
    }
    /// Rarely, a length at which something that is limited would be.
    fn long(&self) -> Option<u64> {
        if cfg!(miri) || !self.chance(1, 300) {
            return None;
        }
        Some(match self.below(80) {
            0 => self.range(65_000, 70_000),
            1..=9 => self.range(1000, 5000),
            _ => self.range(60, 300),
        })
    }
    pub fn ustring(&self, max: u64) -> String {
        if let (Some(n), true) = (self.long(), max > 2) {
            return (0..n).map(|_| self.uchar()).collect();
        }
        let n = match self.below(8) {
            0 => 0,
            1 => 1,
            2 => max,
            _ => self.below(max + 1),
        };
        (0..n).map(|_| self.uchar()).collect()
    }
    /// A valid name; `colon` if `:` is allowed.
    pub fn name(&self, colon: bool) -> String {
        let n = match (self.below(12), self.long()) {
            (_, Some(n)) => n,
            (0, _) => 1,
            (1, _) => 40,
            _ => self.range(1, 8),
        };
        loop {
            let mut s = String::new();
            for i in 0..n {
                let first = "abcxyzABCXYZ_mMnN";
                let c = if colon && self.chance(1, 9) {
                    ':'
                } else if i > 0 && self.chance(1, 4) {
                    (b'0' + self.below(10) as u8) as char
                } else if self.chance(1, 3) {
                    let k = self.below(26) as u8;
                    (if self.chance(1, 2) { b'a' + k } else { b'A' + k }) as char
                } else {
                    first.as_bytes()[self.us(first.len())] as char
                };
                s.push(c);
            }
            if colon || !s.starts_with("__") {
                return s;
            }
        }
    }
    pub fn spin(&self, max: u64) {
        for _ in 0..self.below(max + 1) {
            std::hint::spin_loop();
        }
    }
}

pub fn next_up(v: f64) -> f64 {
    if v.is_nan() || v == f64::INFINITY {
        return v;
    }
    if v == 0.0 {
        return f64::from_bits(1);
    }
    let b = v.to_bits();
    f64::from_bits(if v > 0.0 { b + 1 } else { b - 1 })
}
pub fn next_down(v: f64) -> f64 {
    -next_up(-v)
}

pub const SPECIAL: &[f64] = &[
    0.0,
    -0.0,
    1.0,
    f64::INFINITY,
    f64::NEG_INFINITY,
    f64::NAN,
    f64::MAX,
    f64::MIN_POSITIVE,
    5e-324,
    f64::EPSILON,
    0.1,
    0.5,
    1.0 / 3.0,
    1e-7,
    1e-17,
    1e15,
    1e16,
    1e20,
    1e21,
    1e22,
    1e300,
    4294967295.0,
    4294967296.0,
    9007199254740991.0,
    9007199254740992.0,
    9007199254740994.0,
    9223372036854775807.0,
    18446744073709551615.0,
    123456789.0,
    1e-300,
];
