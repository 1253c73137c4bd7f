//! The one source of choices: SplitMix64-seeded xoshiro256**.

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn fnv(mut h: u64, bytes: &[u8]) -> u64 {
    for &b in bytes {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}

pub const FNV0: u64 = 0xcbf2_9ce4_8422_2325;

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut s = [0; 4];
        for v in &mut s {
            x = mix(x);
            *v = x;
        }
        Rng { s }
    }

    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n.max(1) as u128) >> 64) as u64
    }

    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.us(hi - lo + 1)
    }

    /// true once in n
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }

    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.us(xs.len())]
    }

    /// roughly log-uniform in 1..=max
    pub fn logu(&mut self, max: usize) -> usize {
        let bits = usize::BITS - max.leading_zeros();
        let b = self.range(1, bits as usize);
        let hi = (1usize << b) - 1;
        let lo = 1usize << (b - 1);
        self.range(lo, hi).min(max).max(1)
    }
}
