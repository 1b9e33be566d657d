//! Deterministic random numbers: every case is a function of (seed, workload, index).

#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ (bytes.len() as u64);
    let mut it = bytes.chunks_exact(8);
    for c in &mut it {
        h = mix(h ^ u64::from_le_bytes(c.try_into().unwrap()));
    }
    for &b in it.remainder() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64, stream: &str, index: u64) -> Self {
        let mut s = mix(seed) ^ hash(stream.as_bytes()) ^ mix(index.wrapping_mul(0xD1342543DE82EF95));
        let mut f = || {
            s = s.wrapping_add(0x9E3779B97F4A7C15);
            mix(s)
        };
        Rng([f(), f(), f(), f()])
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    pub fn u16(&mut self) -> u16 {
        (self.u64() >> 48) as u16
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// True with probability 1/n.
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
    pub fn coin(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.idx(s.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn shuffle<T>(&mut self, s: &mut [T]) {
        for i in (1..s.len()).rev() {
            s.swap(i, self.idx(i + 1));
        }
    }
    /// Log-uniform in 0..=max: all magnitudes are equally likely.
    pub fn log(&mut self, max: u64) -> u64 {
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.below(bits + 1);
        let v = if b == 0 { 0 } else { (1u64 << (b - 1)) | (self.u64() & ((1u64 << (b - 1)) - 1)) };
        v.min(max)
    }
    /// A length in 0..=max with a bias to values around powers of two and buffer sizes.
    pub fn len(&mut self, max: u64) -> u64 {
        const EDGES: [u64; 22] = [
            0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 31, 32, 63, 64, 65, 255, 256, 4096, 8192, 32768, 65535, 65536,
        ];
        match self.below(4) {
            0 => {
                let e = *self.pick(&EDGES);
                (e + self.below(3)).saturating_sub(1).min(max)
            }
            1 => self.log(max),
            2 => self.below(max.min(40) + 1),
            _ => {
                let hi = max.min(*self.pick(&[16, 300, 9000, 70000]));
                self.below(hi + 1)
            }
        }
    }
    /// Fill bytes of assorted character.
    pub fn filler(&mut self, n: usize) -> Vec<u8> {
        match self.below(5) {
            0 => vec![0; n],
            1 => vec![0xFF; n],
            2 => vec![self.u8(); n],
            3 => (0..n).map(|_| 0x20 + self.below(95) as u8).collect(),
            _ => self.bytes(n),
        }
    }
}
