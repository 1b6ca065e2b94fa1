//! User-implemented components with scripted faults and a ledger of live instances.
use crate::rng::mix;
use crate::seam::{outside, yield_point};
use packed_struct::prelude::*;
use packed_struct::PackedStructInfo;
use std::cell::RefCell;
use std::collections::BTreeSet;

pub const PACK: u8 = 0;
pub const UNPACK: u8 = 1;
pub const SIZE: u8 = 2;
/// enum to / from number, integer to / from bytes: conversions run on behalf of a field
pub const CONV: u8 = 3;
pub const OPS: [&str; 4] = ["pack", "unpack", "size", "convert"];

/// 0..=9 packing error, 10 panic
pub const PANIC: u64 = 10;
pub fn error_of(k: u64) -> PackingError {
    match k % 10 {
        0 => PackingError::InvalidValue,
        1 => PackingError::BitsError,
        2 => PackingError::BufferTooSmall,
        3 => PackingError::NotImplemented,
        4 => PackingError::InstanceRequiredForSize,
        5 => PackingError::MoreThanOneDynamicType,
        6 => PackingError::BufferSizeMismatch { expected: 4242, actual: 1717 },
        7 => PackingError::BufferModMismatch { actual_size: 999, modulo_required: 37 },
        8 => PackingError::SliceIndexingError { slice_len: 31337 },
        _ => PackingError::InternalError,
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Arm { pub op: u8, pub nth: u64, pub fault: u64 }

#[derive(Clone, Debug, PartialEq)]
pub struct Call { pub op: u8, pub tag: u16, pub raised: bool }

#[derive(Default)]
pub struct Script {
    pub on: bool,
    pub arms: Vec<Arm>,
    /// fail every time, not only at the n-th call
    pub sticky: bool,
    pub counts: [u64; 4],
    pub calls: Vec<Call>,
    /// first error raised
    pub first: Option<PackingError>,
    pub first_tag: u16,
    pub first_op: u8,
    pub panicked: bool,
    pub after_first: u64,
    // ledger
    pub next: u64,
    pub live: BTreeSet<u64>,
    pub created_in_lib: Vec<u64>,
    pub dropped_in_lib: Vec<u64>,
    pub double_drops: u64,
    /// started from inside a callback: (callback number, what)
    pub nest_at: Option<u64>,
    pub nest: Option<fn()>,
    pub total: u64,
    /// faults that fired
    pub fired: u64,
}
thread_local! { pub static S: RefCell<Script> = RefCell::new(Script::default()); }

pub fn with<R>(f: impl FnOnce(&mut Script) -> R) -> R { S.with(|s| f(&mut s.borrow_mut())) }
pub fn reset(arms: Vec<Arm>, sticky: bool) {
    with(|s| { let next = s.next; *s = Script { arms, sticky, next, ..Default::default() } });
}
/// Turns fault injection and recording on around a library call.
pub fn active<R>(f: impl FnOnce() -> R) -> R {
    with(|s| s.on = true);
    let r = f();
    with(|s| s.on = false);
    r
}

fn born() -> u64 { outside(|| with(|s| { s.next += 1; let t = s.next; s.live.insert(t); if s.on { s.created_in_lib.push(t); } t })) }
fn gone(t: u64) { outside(|| with(|s| { if !s.live.remove(&t) { s.double_drops += 1; } if s.on { s.dropped_in_lib.push(t); } })) }

/// Every callback of the library into a component comes through here.
fn callback(op: u8, tag: u16) -> Result<(), PackingError> {
    outside(|| {
        yield_point();
        let (fault, nest) = with(|s| {
            if !s.on { return (None, None); }
            let n = s.counts[op as usize];
            s.counts[op as usize] += 1;
            let total = s.total;
            s.total += 1;
            if s.first.is_some() && (op == PACK || op == UNPACK || op == CONV) { s.after_first += 1; }
            // a sizing fault must not read as "an instance is required", which has a meaning of its own
            let f = s.arms.iter().find(|a| a.op == op && (a.nth == n || s.sticky && n >= a.nth)).map(|a| if op == SIZE && a.fault != PANIC && a.fault % 10 == 4 { 9 } else { a.fault });
            if f.is_some() { s.fired += 1; }
            s.calls.push(Call { op, tag, raised: f.is_some() });
            let nest = if s.nest_at == Some(total) { s.nest_at = None; s.nest } else { None };
            (f, nest)
        });
        if let Some(n) = nest { n(); }
        match fault {
            None => Ok(()),
            Some(k) if k == PANIC => { with(|s| { s.panicked = true; s.first_tag = if s.first.is_none() { tag } else { s.first_tag }; s.first_op = op; }); std::panic::panic_any("injected component panic") }
            Some(k) => { let e = error_of(k); raise(e, op, tag); Err(e) }
        }
    })
}
/// A sink that may start something else from inside a write.
pub fn touch() {
    outside(|| {
        yield_point();
        let nest = with(|s| {
            if !s.on { return None; }
            let total = s.total;
            s.total += 1;
            if s.nest_at == Some(total) { s.nest_at = None; s.nest } else { None }
        });
        if let Some(n) = nest { n(); }
    })
}
fn raise(e: PackingError, op: u8, tag: u16) { outside(|| with(|s| if s.on && s.first.is_none() { s.first = Some(e); s.first_tag = tag; s.first_op = op; })) }

pub fn body(tag: u16, j: usize) -> u8 { match j { 0 => tag as u8, 1 => (tag >> 8) as u8, _ => mix(tag as u64, j as u64) as u8 } }
fn tag_of(b: &[u8]) -> u16 { b.first().copied().unwrap_or(0) as u16 | (b.get(1).copied().unwrap_or(0) as u16) << 8 }

/// Builds values: tags in position order, vector lengths from a list.
pub struct Gen<'a> { pub tag: u16, pub lens: &'a [u64], pub at: usize }
impl<'a> Gen<'a> {
    pub fn new(lens: &'a [u64]) -> Self { Gen { tag: 0, lens, at: 0 } }
    pub fn tag(&mut self) -> u16 { self.tag = self.tag.wrapping_add(1); self.tag }
    pub fn len(&mut self) -> usize { let n = self.lens.get(self.at).copied().unwrap_or(1); self.at += 1; n as usize }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Region { pub tags: Vec<u16>, pub bytes: Vec<u8> }

/// A length from here on makes a component of about 64 KiB.
pub const HUGE: u64 = 1 << 20;

/// Length model of a composition.
#[derive(Clone, Debug, PartialEq)]
pub enum Lay { Fixed(usize), Seq(Box<Lay>), Tup(Vec<Lay>), Any }
impl Lay {
    pub fn static_size(&self) -> Option<usize> {
        match self { Lay::Fixed(n) => Some(*n), Lay::Tup(v) => v.iter().map(|l| l.static_size()).sum(), _ => None }
    }
    /// What the documentation promises for unpacking `len` bytes: None = the length is acceptable.
    pub fn refusal(&self, len: usize) -> Option<PackingError> {
        match self {
            Lay::Fixed(n) => if len == *n { None } else { Some(PackingError::BufferSizeMismatch { expected: *n, actual: len }) },
            Lay::Any => None,
            Lay::Seq(e) => match e.static_size() {
                None => Some(PackingError::InstanceRequiredForSize),
                Some(0) => if len == 0 { None } else { Some(PackingError::BufferModMismatch { actual_size: len, modulo_required: 0 }) },
                Some(n) => if len % n == 0 { None } else { Some(PackingError::BufferModMismatch { actual_size: len, modulo_required: n }) },
            },
            Lay::Tup(v) => {
                let dynamic: Vec<&Lay> = v.iter().filter(|l| l.static_size().is_none()).collect();
                let fixed: usize = v.iter().filter_map(|l| l.static_size()).sum();
                if dynamic.len() > 1 { return Some(PackingError::MoreThanOneDynamicType); }
                if dynamic.is_empty() { return if len == fixed { None } else { Some(PackingError::BufferSizeMismatch { expected: fixed, actual: len }) }; }
                if len < fixed { return Some(PackingError::BufferSizeMismatch { expected: fixed, actual: len }); }
                dynamic[0].refusal(len - fixed)
            }
        }
    }
    /// Is a value of this shape packable at all?
    pub fn packable(&self) -> bool {
        match self { Lay::Seq(e) => e.static_size().is_some(), Lay::Tup(v) => v.iter().all(|l| l.packable()), _ => true }
    }
    /// which of the variable parts are instance-sized components
    pub fn seq_is_any(&self) -> Vec<bool> { match self { Lay::Seq(_) => vec![false], Lay::Any => vec![true], Lay::Tup(v) => v.iter().flat_map(|l| l.seq_is_any()).collect(), _ => vec![] } }
    /// number of variable-length vectors, outermost first
    pub fn seqs(&self) -> usize { match self { Lay::Seq(_) | Lay::Any => 1, Lay::Tup(v) => v.iter().map(|l| l.seqs()).sum(), _ => 0 } }
}

pub trait Comp: Sized {
    fn lay() -> Lay;
    /// memory an element of a variable part occupies
    fn elem() -> usize { 0 }
    fn make(g: &mut Gen) -> Self;
    fn tags(&self, out: &mut Vec<u16>);
    fn tokens(&self, out: &mut Vec<u64>);
    /// the fixed-size records this value consists of, in wire order
    fn regions(&self, out: &mut Vec<Region>);
    /// one image for each element of an array, one for anything else
    fn parts(&self, out: &mut Vec<Region>) {
        let mut r = vec![];
        self.regions(&mut r);
        out.push(Region { tags: vec![], bytes: r.into_iter().flat_map(|r| r.bytes).collect() });
    }
}

macro_rules! probe_common { ($name:ident) => {
    pub struct $name<const N: usize> { token: u64, pub tag: u16 }
    impl<const N: usize> $name<N> { fn new(tag: u16) -> Self { $name { token: born(), tag: if N == 0 { 0 } else if N == 1 { tag & 0xFF } else { tag } } } }
    impl<const N: usize> Drop for $name<N> { fn drop(&mut self) { gone(self.token) } }
    impl<const N: usize> std::fmt::Debug for $name<N> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}#{}", stringify!($name), self.tag) } }
    impl<const N: usize> Comp for $name<N> {
        fn lay() -> Lay { Lay::Fixed(N) }
        fn make(g: &mut Gen) -> Self { Self::new(g.tag()) }
        fn tags(&self, o: &mut Vec<u16>) { o.push(self.tag) }
        fn tokens(&self, o: &mut Vec<u64>) { o.push(self.token) }
        fn regions(&self, o: &mut Vec<Region>) { o.push(Region { tags: vec![self.tag], bytes: (0..N).map(|j| body(self.tag, j)).collect() }) }
    }
} }

// A user's PackedStruct
probe_common!(Probe);
impl<const N: usize> PackedStruct for Probe<N> {
    type ByteArray = [u8; N];
    fn pack(&self) -> packed_struct::PackingResult<[u8; N]> {
        callback(PACK, self.tag)?;
        Ok(core::array::from_fn(|j| body(self.tag, j)))
    }
    fn unpack(src: &[u8; N]) -> packed_struct::PackingResult<Self> {
        let t = tag_of(&src[..]);
        callback(UNPACK, t)?;
        Ok(Self::new(t))
    }
}
impl<const N: usize> PackedStructInfo for Probe<N> { fn packed_bits() -> usize { N * 8 } }

// A user's PackedStructSlice of fixed size
probe_common!(SProbe);
impl<const N: usize> PackedStructSlice for SProbe<N> {
    fn pack_to_slice(&self, out: &mut [u8]) -> packed_struct::PackingResult<()> {
        callback(PACK, self.tag)?;
        if out.len() != N { let e = PackingError::BufferSizeMismatch { expected: N, actual: out.len() }; raise(e, PACK, self.tag); return Err(e); }
        for (j, x) in out.iter_mut().enumerate() { *x = body(self.tag, j) }
        Ok(())
    }
    fn unpack_from_slice(src: &[u8]) -> packed_struct::PackingResult<Self> {
        let t = tag_of(src);
        callback(UNPACK, t)?;
        if src.len() != N { let e = PackingError::BufferSizeMismatch { expected: N, actual: src.len() }; raise(e, UNPACK, t); return Err(e); }
        Ok(Self::new(t))
    }
    fn packed_bytes_size(_: Option<&Self>) -> packed_struct::PackingResult<usize> { callback(SIZE, 0)?; Ok(N) }
}

/// A user's PackedStructSlice whose size depends on the instance.
pub struct DProbe { token: u64, pub tag: u16, pub n: usize }
impl Drop for DProbe { fn drop(&mut self) { gone(self.token) } }
impl std::fmt::Debug for DProbe { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "DProbe#{}", self.tag) } }
impl PackedStructSlice for DProbe {
    fn pack_to_slice(&self, out: &mut [u8]) -> packed_struct::PackingResult<()> {
        callback(PACK, self.tag)?;
        if out.len() != self.n { let e = PackingError::BufferSizeMismatch { expected: self.n, actual: out.len() }; raise(e, PACK, self.tag); return Err(e); }
        for (j, x) in out.iter_mut().enumerate() { *x = body(self.tag, j) }
        Ok(())
    }
    fn unpack_from_slice(src: &[u8]) -> packed_struct::PackingResult<Self> {
        let t = tag_of(src);
        callback(UNPACK, t)?;
        Ok(DProbe { token: born(), tag: t, n: src.len() })
    }
    fn packed_bytes_size(s: Option<&Self>) -> packed_struct::PackingResult<usize> {
        callback(SIZE, s.map_or(0, |s| s.tag))?;
        match s { Some(s) => Ok(s.n), None => Err(PackingError::InstanceRequiredForSize) }
    }
}
impl Comp for DProbe {
    fn lay() -> Lay { Lay::Any }
    fn make(g: &mut Gen) -> Self { let l = g.len(); let n = if l as u64 >= HUGE { (1 << 16) - 300 + (l - HUGE as usize) } else { l * 2 }; DProbe { token: born(), tag: if n == 0 { 0 } else { g.tag() }, n } }
    fn tags(&self, o: &mut Vec<u16>) { o.push(self.tag) }
    fn tokens(&self, o: &mut Vec<u64>) { o.push(self.token) }
    fn regions(&self, o: &mut Vec<Region>) { o.push(Region { tags: vec![self.tag], bytes: (0..self.n).map(|j| body(self.tag, j)).collect() }) }
}

impl Comp for u8 {
    fn lay() -> Lay { Lay::Fixed(1) }
    fn make(g: &mut Gen) -> Self { g.tag() as u8 }
    fn tags(&self, o: &mut Vec<u16>) { o.push(*self as u16) }
    fn tokens(&self, _: &mut Vec<u64>) {}
    fn regions(&self, o: &mut Vec<Region>) { o.push(Region { tags: vec![*self as u16], bytes: vec![*self] }) }
}
impl Comp for () {
    fn lay() -> Lay { Lay::Fixed(0) }
    fn make(_: &mut Gen) -> Self {}
    fn tags(&self, _: &mut Vec<u16>) {}
    fn tokens(&self, _: &mut Vec<u64>) {}
    fn regions(&self, _: &mut Vec<Region>) {}
}
impl<T: Comp> Comp for Vec<T> {
    fn lay() -> Lay { Lay::Seq(Box::new(T::lay())) }
    fn elem() -> usize { std::mem::size_of::<T>() }
    fn make(g: &mut Gen) -> Self { let n = g.len(); (0..n).map(|_| T::make(g)).collect() }
    fn tags(&self, o: &mut Vec<u16>) { for x in self { x.tags(o) } }
    fn tokens(&self, o: &mut Vec<u64>) { for x in self { x.tokens(o) } }
    fn regions(&self, o: &mut Vec<Region>) { for x in self { x.regions(o) } }
}
impl<T: Comp, const N: usize> Comp for [T; N] {
    fn lay() -> Lay { Lay::Fixed(N * T::lay().static_size().unwrap_or(0)) }
    fn make(g: &mut Gen) -> Self { core::array::from_fn(|_| T::make(g)) }
    fn tags(&self, o: &mut Vec<u16>) { for x in self { x.tags(o) } }
    fn tokens(&self, o: &mut Vec<u64>) { for x in self { x.tokens(o) } }
    fn regions(&self, o: &mut Vec<Region>) { for x in self { x.regions(o) } }
    fn parts(&self, o: &mut Vec<Region>) { for x in self { x.parts(o) } }
}
macro_rules! tup { ($($t:ident $i:tt),*) => {
    impl<$($t: Comp),*> Comp for ($($t,)*) {
        fn lay() -> Lay { Lay::Tup(vec![$($t::lay()),*]) }
        fn elem() -> usize { [$($t::elem()),*].into_iter().max().unwrap() }
        fn make(g: &mut Gen) -> Self { ($($t::make(g),)*) }
        fn tags(&self, o: &mut Vec<u16>) { $(self.$i.tags(o);)* }
        fn tokens(&self, o: &mut Vec<u64>) { $(self.$i.tokens(o);)* }
        fn regions(&self, o: &mut Vec<Region>) { $(self.$i.regions(o);)* }
    }
} }
tup!(A 0);
tup!(A 0, B 1);
tup!(A 0, B 1, C 2);
tup!(A 0, B 1, C 2, D 3);
tup!(A 0, B 1, C 2, D 3, E 4);
tup!(A 0, B 1, C 2, D 3, E 4, F 5);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);

/// A user's enum: conversions may fail by script.
macro_rules! penum { ($name:ident, $t:ident, $n:expr, $keep:expr) => {
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct $name(pub $t);
impl PrimitiveEnum for $name {
    type Primitive = $t;
    fn from_primitive(v: $t) -> Option<Self> {
        match callback(CONV, v as u16) {
            Ok(()) => Some($name(v)),
            Err(_) => { outside(|| with(|s| if s.on && s.first_op == CONV && s.first_tag == v as u16 { s.first = Some(PackingError::InvalidValue) })); None }
        }
    }
    fn to_primitive(&self) -> $t { let _ = outside(|| with(|s| if s.on { s.calls.push(Call { op: CONV, tag: self.0 as u16, raised: false }) })); self.0 }
    fn from_str(_: &str) -> Option<Self> { None }
    fn from_str_lower(_: &str) -> Option<Self> { None }
}
impl Comp for $name {
    fn lay() -> Lay { Lay::Fixed($n) }
    fn make(g: &mut Gen) -> Self { $name(g.tag() as $t & $keep) }
    fn tags(&self, o: &mut Vec<u16>) { o.push(self.0 as u16) }
    fn tokens(&self, _: &mut Vec<u64>) {}
    fn regions(&self, o: &mut Vec<Region>) { o.push(Region { tags: vec![self.0 as u16], bytes: self.0.to_be_bytes().to_vec() }) }
}
} }
// numbers that fit in seven bits, for enums laid out in seven
penum!(PEnum, u8, 1, 0x7F);
penum!(PEnum16, u16, 2, 0xFFFF);
penum!(PEnum32, u32, 4, 0xFFFF);
/// A user's bit-limited integer: every conversion may fail by script.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct PInt(pub u16);
type B12 = packed_bits::Bits<12>;
impl SizedInteger<u16, B12> for PInt {
    fn value_bit_mask() -> u16 { 0xFFF }
    fn from_primitive(v: u16) -> Self { PInt(v & 0xFFF) }
    fn to_primitive(&self) -> u16 { self.0 }
    fn to_msb_bytes(&self) -> packed_struct::PackingResult<[u8; 2]> { callback(CONV, self.0)?; Ok(self.0.to_be_bytes()) }
    fn to_lsb_bytes(&self) -> packed_struct::PackingResult<[u8; 2]> { callback(CONV, self.0)?; Ok(self.0.to_le_bytes()) }
    fn from_msb_bytes(b: &[u8; 2]) -> packed_struct::PackingResult<Self> { let v = u16::from_be_bytes(*b) & 0xFFF; callback(CONV, v)?; Ok(PInt(v)) }
    fn from_lsb_bytes(b: &[u8; 2]) -> packed_struct::PackingResult<Self> { let v = u16::from_le_bytes(*b) & 0xFFF; callback(CONV, v)?; Ok(PInt(v)) }
}
pub type MInt = MsbInteger<u16, B12, PInt>;
pub type LInt = LsbInteger<u16, B12, PInt>;

impl Comp for MInt {
    fn lay() -> Lay { Lay::Fixed(2) }
    fn make(g: &mut Gen) -> Self { PInt(g.tag() & 0xFFF).into() }
    fn tags(&self, o: &mut Vec<u16>) { o.push(self.0) }
    fn tokens(&self, _: &mut Vec<u64>) {}
    fn regions(&self, o: &mut Vec<Region>) { o.push(Region { tags: vec![self.0], bytes: self.0.to_be_bytes().to_vec() }) }
}
impl Comp for LInt {
    fn lay() -> Lay { Lay::Fixed(2) }
    fn make(g: &mut Gen) -> Self { PInt(g.tag() & 0xFFF).into() }
    fn tags(&self, o: &mut Vec<u16>) { o.push(self.0) }
    fn tokens(&self, _: &mut Vec<u64>) {}
    fn regions(&self, o: &mut Vec<Region>) {
        // low byte first, then the four high bits; right-aligned in two bytes
        let v = (self.0 & 0xFF) << 4 | self.0 >> 8;
        o.push(Region { tags: vec![self.0], bytes: v.to_be_bytes().to_vec() })
    }
}

/// The same, of 40 bits.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct PInt40(pub u64);
type B40 = packed_bits::Bits<40>;
const M40: u64 = (1 << 40) - 1;
impl SizedInteger<u64, B40> for PInt40 {
    fn value_bit_mask() -> u64 { M40 }
    fn from_primitive(v: u64) -> Self { PInt40(v & M40) }
    fn to_primitive(&self) -> u64 { self.0 }
    fn to_msb_bytes(&self) -> packed_struct::PackingResult<[u8; 5]> { callback(CONV, self.0 as u16)?; let b = self.0.to_be_bytes(); Ok(core::array::from_fn(|j| b[3 + j])) }
    fn to_lsb_bytes(&self) -> packed_struct::PackingResult<[u8; 5]> { callback(CONV, self.0 as u16)?; let b = self.0.to_le_bytes(); Ok(core::array::from_fn(|j| b[j])) }
    fn from_msb_bytes(b: &[u8; 5]) -> packed_struct::PackingResult<Self> { let mut x = [0; 8]; x[3..].copy_from_slice(b); let v = u64::from_be_bytes(x); callback(CONV, v as u16)?; Ok(PInt40(v)) }
    fn from_lsb_bytes(b: &[u8; 5]) -> packed_struct::PackingResult<Self> { let mut x = [0; 8]; x[..5].copy_from_slice(b); let v = u64::from_le_bytes(x); callback(CONV, v as u16)?; Ok(PInt40(v)) }
}
pub type MInt40 = MsbInteger<u64, B40, PInt40>;
pub type LInt40 = LsbInteger<u64, B40, PInt40>;
macro_rules! int40 { ($t:ty, $bytes:expr) => {
impl Comp for $t {
    fn lay() -> Lay { Lay::Fixed(5) }
    fn make(g: &mut Gen) -> Self { let t = g.tag(); PInt40(t as u64 | (mix(t as u64, 40) & 0xFFFFFF) << 16).into() }
    fn tags(&self, o: &mut Vec<u16>) { o.push(self.0 as u16) }
    fn tokens(&self, _: &mut Vec<u64>) {}
    fn regions(&self, o: &mut Vec<Region>) { let f: fn(u64) -> Vec<u8> = $bytes; o.push(Region { tags: vec![self.0 as u16], bytes: f(self.0) }) }
}
} }
int40!(MInt40, |v| v.to_be_bytes()[3..].to_vec());
int40!(LInt40, |v| v.to_le_bytes()[..5].to_vec());
