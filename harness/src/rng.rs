//! Small deterministic PRNG (xoshiro256**), no external dependency.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = [0u64; 4];
        let mut x = seed;
        for v in s.iter_mut() {
            x = mix(x, 0x1234_5678_9abc_def1);
            *v = x;
        }
        Rng { s }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        if b - a == u64::MAX {
            return self.next();
        }
        a + self.below(b - a + 1)
    }
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize(v.len())]
    }
    /// log-uniform over 0..=u64::MAX
    pub fn logu(&mut self) -> u64 {
        let bits = self.below(65);
        if bits == 0 {
            0
        } else {
            let top = 1u64 << (bits - 1);
            top | (self.next() & (top - 1))
        }
    }
    /// boundary-loving u64
    pub fn edgy(&mut self) -> u64 {
        match self.below(5) {
            0 => *self.pick(&[0, 1, 2, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 32, (1 << 32) - 1, (1 << 32) + 1, 1 << 31]),
            1 => {
                let b = 1u64 << self.below(64);
                match self.below(3) {
                    0 => b,
                    1 => b - 1,
                    _ => b.saturating_add(1),
                }
            }
            2 => self.below(20),
            3 => self.logu(),
            _ => self.next(),
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.usize(i + 1);
            v.swap(i, j);
        }
    }
}
