//! Small deterministic PRNG (splitmix64 seeding, xoshiro256**).
#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = [0; 4];
        let mut z = seed;
        for x in &mut s {
            z = z.wrapping_add(0x9e3779b97f4a7c15);
            *x = mix(z);
        }
        Rng(s)
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        (self.next() % n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    /// true with probability pct/100
    pub fn pct(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
    /// Skewed small count: mostly 0..3, sometimes up to max.
    pub fn count(&mut self, max: usize) -> usize {
        match self.below(10) {
            0 | 1 => 0,
            2..=4 => 1.min(max),
            5..=7 => 2.min(max),
            8 => 3.min(max),
            _ => self.range(0, max),
        }
    }
    pub fn u32(&mut self) -> u32 {
        match self.below(10) {
            0 => *self.pick(&[0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64]),
            1 => *self.pick(&[
                0xff, 0x100, 0xffff, 0x1_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff,
            ]),
            2 | 3 => self.below(256) as u32,
            4 | 5 => (self.below(0x400) * 4) as u32,
            _ => {
                let bits = self.range(1, 32);
                (self.next() >> (64 - bits)) as u32
            }
        }
    }
    pub fn u64(&mut self) -> u64 {
        match self.below(8) {
            0 | 1 | 2 => self.u32() as u64,
            3 => *self.pick(&[
                u32::MAX as u64,
                u32::MAX as u64 + 1,
                1 << 63,
                u64::MAX,
                u64::MAX - 1,
                i64::MAX as u64,
            ]),
            _ => {
                let bits = self.range(1, 64);
                self.next() >> (64 - bits)
            }
        }
    }
}
