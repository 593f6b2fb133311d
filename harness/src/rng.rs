//! Small deterministic PRNG (xoshiro256**) used for every random choice.

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in data {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

impl Rng {
    pub fn new(prop: &str, seed: u64, index: u64) -> Rng {
        let mut x = fnv(prop.as_bytes()) ^ seed.wrapping_mul(0x2545_F491_4F6C_DD1D);
        let a = splitmix(&mut x);
        let mut y = a ^ index.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        let s = [
            splitmix(&mut y),
            splitmix(&mut y),
            splitmix(&mut y),
            splitmix(&mut y),
        ];
        Rng { s }
    }

    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    /// Uniform in 0..n (n>0).
    pub fn below(&mut self, n: u64) -> u64 {
        self.u64() % n
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn u32(&mut self, lo: u32, hi: u32) -> u32 {
        self.range(i64::from(lo), i64::from(hi)) as u32
    }
    pub fn u16(&mut self, lo: u16, hi: u16) -> u16 {
        self.range(i64::from(lo), i64::from(hi)) as u16
    }
    pub fn u8(&mut self, lo: u8, hi: u8) -> u8 {
        self.range(i64::from(lo), i64::from(hi)) as u8
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    /// True with probability 1/n.
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
    /// True with probability p percent.
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.usize(v.len());
        &v[i]
    }
    pub fn f01(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.usize(i + 1);
            v.swap(i, j);
        }
    }
    /// Fork an independent stream.
    pub fn fork(&mut self) -> Rng {
        let mut y = self.u64();
        let s = [
            splitmix(&mut y),
            splitmix(&mut y),
            splitmix(&mut y),
            splitmix(&mut y),
        ];
        Rng { s }
    }
}
