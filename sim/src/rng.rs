//! The only source of randomness: xoshiro256** seeded by splitmix64.
#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    /// the generator of run `index` of `stream` under `seed`
    pub fn for_run(seed: u64, stream: &str, index: u64) -> Self {
        let mut h = seed ^ 0x5157_5ee5_0bad_cafe;
        for b in stream.bytes() {
            h = splitmix(&mut h) ^ (b as u64);
        }
        h = splitmix(&mut h) ^ index;
        Rng::new(splitmix(&mut h))
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.u64() as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            let w = self.u64().to_le_bytes();
            let k = (n - v.len()).min(8);
            v.extend_from_slice(&w[..k]);
        }
        v
    }
    /// pick an index according to weights
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u64 = w.iter().map(|&x| x as u64).sum();
        let mut r = self.below(tot.max(1));
        for (i, &x) in w.iter().enumerate() {
            if r < x as u64 {
                return i;
            }
            r -= x as u64;
        }
        0
    }
}

/// A finite choice stream: every generated value is a function of these bytes, and an exhausted
/// stream yields zeros, so that deleting or zeroing bytes simplifies the value.
pub struct Choices<'a> {
    b: &'a [u8],
    p: usize,
}
impl<'a> Choices<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Choices { b, p: 0 }
    }
    pub fn byte(&mut self) -> u8 {
        let r = self.b.get(self.p).copied().unwrap_or(0);
        self.p += 1;
        r
    }
    pub fn word(&mut self, n: usize) -> u64 {
        let mut r = 0u64;
        for _ in 0..n {
            r = (r << 8) | self.byte() as u64;
        }
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else if n <= 256 {
            self.byte() as u64 % n
        } else if n <= 65536 {
            self.word(2) % n
        } else {
            self.word(8) % n
        }
    }
    pub fn exhausted(&self) -> bool {
        self.p >= self.b.len()
    }
}

#[derive(Clone)]
pub struct Fnv(pub u64);
impl Fnv {
    pub fn new() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
    pub fn b(&mut self, x: u8) {
        self.0 = (self.0 ^ x as u64).wrapping_mul(0x100_0000_01b3);
    }
    pub fn u(&mut self, x: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0x100_0000_01b3);
        self.0 ^= self.0 >> 29;
    }
    pub fn s(&mut self, x: &[u8]) {
        self.u(x.len() as u64);
        for &c in x {
            self.b(c)
        }
    }
}
