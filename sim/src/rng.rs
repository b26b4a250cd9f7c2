//! The only source of choice in a run: xoshiro256** seeded by splitmix64.
#[derive(Clone, Debug)]
pub struct Rng { s: [u64; 4] }
pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0xD6E8FEB86659FD93).rotate_left(32);
    splitmix(&mut x)
}
pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    let mut it = b.chunks_exact(8);
    for c in &mut it { h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x9FB21C651E98DF25); h ^= h >> 29; }
    for &c in it.remainder() { h = (h ^ c as u64).wrapping_mul(0x100000001b3); }
    h ^= b.len() as u64; h = h.wrapping_mul(0x9FB21C651E98DF25); h ^ (h >> 32)
}
impl Rng {
    pub fn new(seed: u64) -> Self { let mut x = seed; Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] } }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0]; self.s[3] ^= self.s[1]; self.s[1] ^= self.s[2]; self.s[0] ^= self.s[3];
        self.s[2] ^= t; self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (n>0)
    pub fn below(&mut self, n: u64) -> u64 { ((self.u64() as u128 * n as u128) >> 64) as u64 }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo + 1) }
    pub fn idx(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// true with probability p/10000
    pub fn p(&mut self, p: u32) -> bool { p > 0 && self.below(10000) < p as u64 }
    pub fn pct(&mut self, p: u32) -> bool { self.p(p * 100) }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.idx(v.len())] }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u64 = w.iter().map(|&x| x as u64).sum();
        if tot == 0 { return 0; }
        let mut r = self.below(tot);
        for (i, &x) in w.iter().enumerate() { if r < x as u64 { return i; } r -= x as u64; }
        w.len() - 1
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.idx(i + 1); v.swap(i, j); } }
}
