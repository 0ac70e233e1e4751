//! The only source of randomness: xoshiro256** seeded by splitmix64.
#[derive(Clone, Debug)]
pub struct Rng([u64; 4]);

pub fn mix(mut x: u64) -> u64 {
  x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
  x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
  x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
  x ^ (x >> 31)
}

pub fn mix2(a: u64, b: u64) -> u64 {
  mix(mix(a) ^ b.wrapping_mul(0xff51_afd7_ed55_8ccd))
}

impl Rng {
  pub const fn zero() -> Self {
    Rng([1, 2, 3, 4])
  }
  pub fn new(seed: u64) -> Self {
    let mut s = seed;
    let mut n = || {
      s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
      mix(s)
    };
    Rng([n(), n(), n(), n() | 1])
  }
  #[inline]
  pub fn next(&mut self) -> u64 {
    let s = &mut self.0;
    let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
    let t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = s[3].rotate_left(45);
    r
  }
  /// Uniform in [0, n).
  pub fn below(&mut self, n: u64) -> u64 {
    if n <= 1 {
      return 0;
    }
    ((self.next() as u128 * n as u128) >> 64) as u64
  }
  /// Uniform in [lo, hi].
  pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
    lo + self.below((hi - lo + 1) as u64) as i64
  }
  pub fn chance(&mut self, num: u64, den: u64) -> bool {
    self.below(den) < num
  }
  pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
    &v[self.below(v.len() as u64) as usize]
  }
  /// Index drawn by weight.
  pub fn weighted(&mut self, w: &[u32]) -> usize {
    let total: u64 = w.iter().map(|x| *x as u64).sum();
    let mut r = self.below(total);
    for (i, x) in w.iter().enumerate() {
      if r < *x as u64 {
        return i;
      }
      r -= *x as u64;
    }
    w.len() - 1
  }
  /// Geometric with the given mean (at least 1).
  pub fn geometric(&mut self, mean: u64) -> u64 {
    if mean <= 1 {
      return 1;
    }
    // Inverse transform on 53 bits; pure arithmetic, identical on every run.
    let u = ((self.next() >> 11) as f64 + 1.0) / (1u64 << 53) as f64;
    let v = (-u.ln() * mean as f64).ceil();
    if v < 1.0 {
      1
    } else if v > 1e12 {
      1_000_000_000_000
    } else {
      v as u64
    }
  }
  pub fn shuffle<T>(&mut self, v: &mut [T]) {
    for i in (1..v.len()).rev() {
      let j = self.below(i as u64 + 1) as usize;
      v.swap(i, j);
    }
  }
}
