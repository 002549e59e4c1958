//! Deterministic random numbers (splitmix64 seeding, xoshiro256**).
#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ (bytes.len() as u64);
    let mut it = bytes.chunks_exact(8);
    for c in &mut it {
        h = mix(h ^ u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]));
    }
    let mut t = 0u64;
    for b in it.remainder() {
        t = (t << 8) | *b as u64 | 0x100;
    }
    mix(h ^ t)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        let mut n = || {
            s = s.wrapping_add(0x9e3779b97f4a7c15);
            mix(s)
        };
        Rng([n(), n(), n(), n()])
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (0 when n is 0).
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True once in n times on average.
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    pub fn u8(&mut self) -> u8 {
        self.u64() as u8
    }
    pub fn u16(&mut self) -> u16 {
        match self.below(4) {
            0 => *self.pick(&[0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff]),
            1 => self.u64() as u16 & 0xff,
            _ => self.u64() as u16,
        }
    }
    pub fn u32(&mut self) -> u32 {
        match self.below(4) {
            0 => *self.pick(&[0, 1, 2, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff]),
            1 => self.u64() as u32 & 0xffff,
            _ => self.u64() as u32,
        }
    }
    /// Small numbers most of the time, geometric tail, at most max.
    pub fn small(&mut self, max: usize) -> usize {
        let mut n = 0;
        while n < max && self.below(3) != 0 {
            n += 1;
        }
        n
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
