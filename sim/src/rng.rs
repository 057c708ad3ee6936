//! The only source of randomness of the harness: splitmix64-seeded xoshiro256**.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        let mut s = [0u64; 4];
        for v in s.iter_mut() {
            x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
            *v = mix(x);
        }
        Rng { s }
    }

    /// One independent stream per (seed, stream name, index).
    pub fn stream(seed: u64, name: &str, index: u64) -> Rng {
        let mut h = mix(seed ^ 0x67_69_72_6f_6e);
        for b in name.bytes() {
            h = mix(h ^ b as u64);
        }
        Rng::new(mix(h ^ mix(index)))
    }

    pub fn u64(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }

    /// 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() >> 11) % (n as u64)) as usize
    }

    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    /// true with probability num/den
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }

    /// 1, 2, 3, ... with probability halving (capped)
    pub fn small(&mut self, cap: usize) -> usize {
        let mut n = 1;
        while n < cap && self.chance(1, 2) {
            n += 1;
        }
        n
    }

    /// log-uniform in lo..=hi
    pub fn log_range(&mut self, lo: usize, hi: usize) -> usize {
        let (a, b) = ((lo.max(1) as f64).ln(), (hi.max(1) as f64).ln());
        let f = (self.u64() >> 11) as f64 / (1u64 << 53) as f64;
        let v = (a + (b - a) * f).exp().round() as usize;
        v.clamp(lo, hi)
    }
}
