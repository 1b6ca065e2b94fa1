//! The reference model: an independent, bit-by-bit implementation of the documented wire layout.
//! It shares no code with the library: positions come from the zoo generator, not from the derive macro.

#[derive(Debug)]
pub struct EnumInfo { pub name: &'static str, pub disc: &'static [i128], pub names: &'static [&'static str] }

#[derive(Clone, Copy, Debug)]
pub enum Kind {
    U, S,
    Bool,
    /// backing signedness, catch-all
    Enum { info: &'static EnumInfo, signed: bool, catch_all: bool },
    Res(bool),
}

#[derive(Clone, Copy, Debug)]
pub struct Leaf {
    pub name: &'static str,
    /// first bit, MSB0, from the start of the image
    pub start: u32,
    pub width: u32,
    pub lsb: bool,
    pub kind: Kind,
}

/// One row of the documented field table.
#[derive(Clone, Copy, Debug)]
pub struct Row { pub name: &'static str, pub first: u32, pub last: u32 }

#[derive(Debug)]
pub struct RecInfo {
    pub name: &'static str,
    pub nbytes: usize,
    pub nbits: usize,
    pub leaves: &'static [Leaf],
    pub rows: &'static [Row],
    /// bits outside the leaves are not specified on packing (stand-alone partial-byte integers)
    pub pad_any: bool,
    /// declaration and layout of a known finding: left out of ordinary workloads
    pub known: Option<&'static str>,
}

pub fn get_bit(b: &[u8], i: u32) -> bool { b[(i / 8) as usize] >> (7 - i % 8) & 1 == 1 }
pub fn set_bit(b: &mut [u8], i: u32, v: bool) {
    let m = 1u8 << (7 - i % 8);
    if v { b[(i / 8) as usize] |= m } else { b[(i / 8) as usize] &= !m }
}

/// For the k-th bit on the wire of a field: which bit of the value it carries (0 = least significant).
pub fn wire_to_value_bit(width: u32, lsb: bool, k: u32) -> u32 {
    if !lsb || width <= 8 { return width - 1 - k; }
    // least significant byte first, each byte most significant bit first;
    // the last group carries the remaining width % 8 most significant bits
    let byte = k / 8;
    let full = width / 8;
    if byte < full { byte * 8 + (7 - k % 8) } else { full * 8 + (width % 8 - 1 - k % 8) }
}

impl Leaf {
    pub fn has_value(&self) -> bool { !matches!(self.kind, Kind::Res(_)) }
    pub fn signed(&self) -> bool { matches!(self.kind, Kind::S | Kind::Enum { signed: true, .. }) }
    /// Number carried by the raw bits
    pub fn number(&self, raw: u64) -> i128 {
        if self.signed() && self.width > 0 && raw >> (self.width - 1) & 1 == 1 { raw as i128 - (1i128 << self.width) } else { raw as i128 }
    }
    pub fn raw_of(&self, v: i128) -> u64 {
        let m = if self.width >= 64 { !0u64 } else { (1u64 << self.width) - 1 };
        (v as u64) & m
    }
    pub fn get_raw(&self, b: &[u8]) -> u64 {
        let mut r = 0u64;
        for k in 0..self.width { if get_bit(b, self.start + k) { r |= 1 << wire_to_value_bit(self.width, self.lsb, k); } }
        r
    }
    pub fn put_raw(&self, b: &mut [u8], raw: u64) {
        for k in 0..self.width { set_bit(b, self.start + k, raw >> wire_to_value_bit(self.width, self.lsb, k) & 1 == 1); }
    }
    /// Is a number one this field's type defines?
    pub fn defined(&self, v: i128) -> bool {
        match self.kind {
            Kind::Bool => v == 0 || v == 1,
            Kind::Enum { info, catch_all: false, .. } => info.disc.contains(&v),
            _ => true,
        }
    }
    /// Could some bit pattern of this field be refused?
    pub fn refusable(&self) -> bool {
        match self.kind {
            Kind::Bool => self.width > 1,
            Kind::Enum { info, catch_all: false, .. } => self.width >= 64 || (info.disc.len() as u128) < (1u128 << self.width),
            _ => false,
        }
    }
}

impl RecInfo {
    pub fn nvals(&self) -> usize { self.leaves.iter().filter(|l| l.has_value()).count() }
    pub fn value_leaves(&self) -> impl Iterator<Item = &'static Leaf> { self.leaves.iter().filter(|l| l.has_value()) }
    /// Wire image of the values (one per value leaf).
    pub fn encode(&self, vals: &[i128]) -> Vec<u8> {
        let mut b = vec![0u8; self.nbytes];
        let mut it = vals.iter();
        for l in self.leaves {
            match l.kind {
                Kind::Res(one) => for k in 0..l.width { set_bit(&mut b, l.start + k, one) },
                _ => l.put_raw(&mut b, l.raw_of(*it.next().unwrap())),
            }
        }
        b
    }
    /// What an image denotes: one value per value leaf, or Err(index of the first field, in declaration
    /// order, that holds an undefined number).
    pub fn decode(&self, b: &[u8]) -> Result<Vec<i128>, usize> {
        let mut r = Vec::with_capacity(self.leaves.len());
        let mut bad = None;
        for l in self.leaves.iter().filter(|l| l.has_value()) {
            let v = l.number(l.get_raw(b));
            if !l.defined(v) && bad.is_none() { bad = Some(r.len()); }
            r.push(v);
        }
        match bad { Some(i) => Err(i), None => Ok(r) }
    }
    /// Bits whose content on packing is specified.
    pub fn specified_mask(&self) -> Vec<u8> {
        if !self.pad_any { return vec![0xFF; self.nbytes]; }
        let mut m = vec![0u8; self.nbytes];
        for l in self.leaves { for k in 0..l.width { set_bit(&mut m, l.start + k, true) } }
        m
    }
    /// A defined random value for each value leaf.
    pub fn gen_vals(&self, rng: &mut crate::rng::Rng) -> Vec<i128> {
        let style = rng.below(8);
        self.value_leaves().map(|l| match l.kind {
            Kind::Bool => rng.below(2) as i128,
            Kind::Enum { info, catch_all, .. } => if catch_all && rng.chance(1, 2) { l.number(rng.pattern(l.width)) } else { *rng.pick(info.disc) },
            _ => l.number(match style { 0 => 0, 1 => l.raw_of(-1), 2 => rng.u64() & l.raw_of(-1), _ => rng.pattern(l.width) }),
        }).collect()
    }
    /// Makes any numbers into defined values, so that executors are total.
    pub fn fix_vals(&self, raw: &[u64]) -> Vec<i128> {
        self.value_leaves().enumerate().map(|(i, l)| {
            let r = raw.get(i).copied().unwrap_or(0);
            let v = l.number(l.raw_of(r as i128));
            match l.kind {
                Kind::Bool => v & 1,
                Kind::Enum { info, catch_all: false, .. } => if info.disc.contains(&v) { v } else { info.disc[(r % info.disc.len() as u64) as usize] },
                _ => v,
            }
        }).collect()
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    let n = b.len().min(96);
    for x in &b[..n] { s.push_str(&format!("{:02x}", x)); }
    if b.len() > n { s.push_str(&format!("..(+{})", b.len() - n)); }
    s
}
