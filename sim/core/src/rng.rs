//! The only source of randomness of the simulator.
#[derive(Clone)]
pub struct Rng { s: [u64; 4] }
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.rotate_left(32).wrapping_mul(0xD6E8FEB86659FD93);
    let y = splitmix(&mut x);
    y ^ splitmix(&mut x)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    h
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { ((self.u64() as u128 * n as u128) >> 64) as u64 } }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { v.swap(i, self.below(i as u64 + 1) as usize); }
    }
    /// A bit pattern biased towards the values that make codecs fail.
    pub fn pattern(&mut self, width: u32) -> u64 {
        let m = if width >= 64 { !0 } else { (1u64 << width) - 1 };
        let v = match self.below(12) {
            0 => 0,
            1 => !0,
            2 => 1,
            3 => if width > 0 { 1u64 << (width - 1) } else { 0 },
            4 => if width > 0 { (1u64 << (width - 1)).wrapping_sub(1) } else { 0 },
            5 => 0xAAAA_AAAA_AAAA_AAAA,
            6 => 1u64 << self.below(width.max(1) as u64),
            7 => !(1u64 << self.below(width.max(1) as u64)),
            8 => self.u64() & 0xFF,
            _ => self.u64(),
        };
        v & m
    }
}
