//! Small deterministic generator (xoshiro256** seeded by splitmix64).
#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    splitmix(&mut h.clone())
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn for_case(prop: &str, seed: u64, idx: u64) -> Self {
        Rng::new(hash_str(prop) ^ seed.wrapping_mul(0x9E3779B97F4A7C15) ^ idx.wrapping_mul(0xD1342543DE82EF95))
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.u64() % n as u64) as usize
        }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        let span = (hi.wrapping_sub(lo) as u64).wrapping_add(1);
        if span == 0 {
            self.u64() as i64
        } else {
            lo.wrapping_add((self.u64() % span) as i64)
        }
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den as usize) < num as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// interesting i32
    pub fn i32x(&mut self) -> i32 {
        const E: &[i32] = &[
            0, 1, -1, 126, 127, 128, 129, -126, -127, -128, -129, 255, 256, 32767, -32768, 65535,
            i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1, 0x80, 0x7f000000,
        ];
        match self.below(4) {
            0 => *self.pick(E),
            1 => self.range(-140, 140) as i32,
            2 => self.u32() as i32,
            _ => {
                let sh = self.below(32) as u32;
                (self.u32() >> sh) as i32
            }
        }
    }
    pub fn i64x(&mut self) -> i64 {
        const E: &[i64] = &[
            0, 1, -1, 127, 128, -127, -128, -129, i32::MAX as i64, i32::MIN as i64,
            i32::MAX as i64 + 1, i32::MIN as i64 - 1, i64::MAX, i64::MIN, 0x80,
        ];
        match self.below(4) {
            0 => *self.pick(E),
            1 => self.range(-140, 140),
            2 => self.u64() as i64,
            _ => {
                let sh = self.below(64) as u32;
                (self.u64() >> sh) as i64
            }
        }
    }
}
