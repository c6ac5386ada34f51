//! Seeded PRNG (splitmix64 / xoshiro256**). Every random choice of a run is drawn from one of these.

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = seed ^ 0xcbf2_9ce4_8422_2325;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    mix(h)
}

#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
    /// the dimension in which this scenario is large (see `model::gen_proj`)
    pub big: u8,
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        let mut n = || {
            s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
            mix(s)
        };
        Rng { s: [n(), n(), n(), n()], big: 0 }
    }

    pub fn next(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }

    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() as u128 * n as u128) >> 64) as usize
    }

    /// uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    /// true with probability num/den
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den as usize) < num as usize
    }

    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }

    /// small numbers mostly, sometimes up to `max`
    pub fn small(&mut self, max: usize) -> usize {
        let m = match self.below(4) {
            0 => max.min(1),
            1 => max.min(3),
            2 => max.min(8),
            _ => max,
        };
        self.below(m + 1)
    }

    pub fn fork(&mut self) -> Rng {
        let mut r = Rng::new(self.next());
        r.big = self.big;
        r
    }

    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
