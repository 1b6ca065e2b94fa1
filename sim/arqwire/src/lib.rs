//! Wire formats of the simulated transfer protocol: packed headers with bit-limited counters, a payload of variable
//! length and a checksum, in several arrangements; and what each format means, written down independently.
#![allow(clippy::all)]
use packed_struct::prelude::*;
use simcore::model::{EnumInfo, Kind, Leaf};
use simcore::ops::PR;
use simcore::seam::{call, Lib};
use std::marker::PhantomData;

pub const DATA: i128 = 1;
pub const ACK: i128 = 2;
pub const PING: i128 = 5;

/// What a frame says. `seq` and `ack` are only the low bits on the wire.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Frame { pub kind: i128, pub seq: i128, pub ack: i128, pub last: bool, pub payload: Vec<u8>, pub crc: u64 }

#[derive(PrimitiveEnum_u8, Clone, Copy, Debug, PartialEq)]
pub enum K { Data = 1, Ack = 2, Ping = 5 }
pub static KINDS: EnumInfo = EnumInfo { name: "K", disc: &[1, 2, 5], names: &["Data", "Ack", "Ping"] };
fn k(v: i128) -> K { K::from_primitive(v as u8).expect("harness: kind") }

const fn leaf(name: &'static str, start: u32, width: u32, lsb: bool, kind: Kind) -> Leaf { Leaf { name, start, width, lsb, kind } }
const KIND: Kind = Kind::Enum { info: &KINDS, signed: false, catch_all: false };
const KIND_ANY: Kind = Kind::Enum { info: &KINDS, signed: false, catch_all: true };

pub trait Hdr: PackedStruct + 'static {
    /// counters are handed over as they are; the declared width makes them wrap
    fn build(f: &Frame, seq: u64, ack: u64) -> Self;
    /// (kind, seq, ack, last) as native numbers
    fn read(&self) -> (i128, i128, i128, bool);
    const BYTES: usize;
    /// kind, seq, ack, last
    const LEAVES: [Leaf; 4];
}
pub trait Tail: PackedStructSlice + 'static {
    fn of(crc: u64) -> Self;
    fn crc(&self) -> u64;
    const BYTES: usize;
    fn model(b: &[u8]) -> u64;
}
pub trait Body: PackedStructSlice + 'static {
    const UNIT: usize;
    fn of(b: &[u8]) -> Self;
    fn bytes(&self) -> Vec<u8>;
    /// what bytes on the wire mean (unused bits read as zero)
    fn model(b: &[u8]) -> Vec<u8>;
}

#[derive(PackedStruct, Clone, Debug)]
#[packed_struct(bit_numbering = "msb0")]
pub struct Tiny {
    #[packed_field(bits = "0..=2", ty = "enum")] kind: K,
    #[packed_field(bits = "3")] last: bool,
    #[packed_field(bits = "4..=7")] seq: Integer<u8, packed_bits::Bits<4>>,
    #[packed_field(bits = "8..=11")] ack: Integer<u8, packed_bits::Bits<4>>,
    #[packed_field(bits = "12..=15")] _r: ReservedOne<packed_bits::Bits<4>>,
}
impl Hdr for Tiny {
    fn build(f: &Frame, seq: u64, ack: u64) -> Self { Tiny { kind: k(f.kind), last: f.last, seq: (seq as u8).into(), ack: (ack as u8).into(), _r: Default::default() } }
    fn read(&self) -> (i128, i128, i128, bool) { (self.kind.to_primitive() as i128, *self.seq as i128, *self.ack as i128, self.last) }
    const BYTES: usize = 2;
    const LEAVES: [Leaf; 4] = [leaf("kind", 0, 3, false, KIND), leaf("seq", 4, 4, false, Kind::U), leaf("ack", 8, 4, false, Kind::U), leaf("last", 3, 1, false, Kind::Bool)];
}

#[derive(PackedStruct, Clone, Debug)]
#[packed_struct(bit_numbering = "lsb0", size_bytes = "5", endian = "lsb")]
pub struct Odd {
    #[packed_field(bits = "39..=35", ty = "enum")] kind: EnumCatchAll<K>,
    #[packed_field(bits = "33..=23")] seq: Integer<u16, packed_bits::Bits<11>>,
    #[packed_field(bits = "20..=8", endian = "msb")] ack: Integer<u16, packed_bits::Bits<13>>,
    #[packed_field(bits = "0")] last: bool,
}
impl Hdr for Odd {
    fn build(f: &Frame, seq: u64, ack: u64) -> Self { Odd { kind: k(f.kind).into(), seq: (seq as u16).into(), ack: (ack as u16).into(), last: f.last } }
    fn read(&self) -> (i128, i128, i128, bool) { (match self.kind { EnumCatchAll::Enum(x) => x.to_primitive() as i128, EnumCatchAll::CatchAll(x) => x as i128 }, *self.seq as i128, *self.ack as i128, self.last) }
    const BYTES: usize = 5;
    const LEAVES: [Leaf; 4] = [leaf("kind", 0, 5, true, KIND_ANY), leaf("seq", 6, 11, true, Kind::U), leaf("ack", 19, 13, false, Kind::U), leaf("last", 39, 1, true, Kind::Bool)];
}

/// counters that wrap through negative numbers
#[derive(PackedStruct, Clone, Debug)]
#[packed_struct(bit_numbering = "msb0", endian = "msb")]
pub struct Signed {
    #[packed_field(bits = "0..=4")] seq: Integer<i8, packed_bits::Bits<5>>,
    #[packed_field(bits = "5..=14")] ack: Integer<i16, packed_bits::Bits<10>>,
    #[packed_field(bits = "15..=18", ty = "enum")] kind: EnumCatchAll<K>,
    #[packed_field(bits = "23")] last: bool,
}
impl Hdr for Signed {
    fn build(f: &Frame, seq: u64, ack: u64) -> Self { Signed { kind: k(f.kind).into(), seq: (seq as i8).into(), ack: (ack as i16).into(), last: f.last } }
    fn read(&self) -> (i128, i128, i128, bool) { (self.kind.to_primitive() as i128, *self.seq as i128, *self.ack as i128, self.last) }
    const BYTES: usize = 3;
    const LEAVES: [Leaf; 4] = [leaf("kind", 15, 4, false, KIND_ANY), leaf("seq", 0, 5, false, Kind::S), leaf("ack", 5, 10, false, Kind::S), leaf("last", 23, 1, false, Kind::Bool)];
}

#[derive(PackedStruct, Clone, Copy, Debug)]
#[packed_struct(bit_numbering = "msb0", endian = "lsb")]
pub struct Counters {
    #[packed_field(bits = "0..=18")] seq: Integer<u32, packed_bits::Bits<19>>,
    #[packed_field(bits = "19..=21")] _z: ReservedZero<packed_bits::Bits<3>>,
    #[packed_field(bits = "22..=55")] ack: Integer<u64, packed_bits::Bits<34>>,
}
/// counters in a record of their own
#[derive(PackedStruct, Clone, Debug)]
#[packed_struct(bit_numbering = "msb0", size_bytes = "9")]
pub struct Nested {
    #[packed_field(bits = "0..=2", ty = "enum")] kind: K,
    #[packed_field(bits = "8..=63")] counters: Counters,
    #[packed_field(bits = "64")] last: bool,
}
impl Hdr for Nested {
    fn build(f: &Frame, seq: u64, ack: u64) -> Self { Nested { kind: k(f.kind), counters: Counters { seq: (seq as u32).into(), _z: Default::default(), ack: ack.into() }, last: f.last } }
    fn read(&self) -> (i128, i128, i128, bool) { (self.kind.to_primitive() as i128, *self.counters.seq as i128, *self.counters.ack as i128, self.last) }
    const BYTES: usize = 9;
    const LEAVES: [Leaf; 4] = [leaf("kind", 0, 3, false, KIND), leaf("seq", 8, 19, true, Kind::U), leaf("ack", 30, 34, true, Kind::U), leaf("last", 64, 1, false, Kind::Bool)];
}

/// seq and ack are two elements of an array; everything sits across byte borders
#[derive(PackedStruct, Clone, Debug)]
#[packed_struct(bit_numbering = "msb0", endian = "msb", size_bytes = "6")]
pub struct Lanes {
    #[packed_field(bits = "3..=36", element_size_bits = "17")] both: [Integer<i32, packed_bits::Bits<17>>; 2],
    #[packed_field(bits = "37..=39", ty = "enum")] kind: K,
    #[packed_field(bits = "44")] last: bool,
}
impl Hdr for Lanes {
    fn build(f: &Frame, seq: u64, ack: u64) -> Self { Lanes { kind: k(f.kind), both: [(seq as i32).into(), (ack as i32).into()], last: f.last } }
    fn read(&self) -> (i128, i128, i128, bool) { (self.kind.to_primitive() as i128, *self.both[0] as i128, *self.both[1] as i128, self.last) }
    const BYTES: usize = 6;
    const LEAVES: [Leaf; 4] = [leaf("kind", 37, 3, false, KIND), leaf("seq", 3, 17, false, Kind::S), leaf("ack", 20, 17, false, Kind::S), leaf("last", 44, 1, false, Kind::Bool)];
}

/// whole native counters and very wide ones
#[derive(PackedStruct, Clone, Debug)]
#[packed_struct(bit_numbering = "msb0")]
pub struct Big {
    #[packed_field(bits = "0..=63", endian = "lsb")] seq: u64,
    #[packed_field(bits = "64..=119", endian = "msb")] ack: Integer<i64, packed_bits::Bits<56>>,
    #[packed_field(bits = "120..=126", ty = "enum")] kind: EnumCatchAll<K>,
    #[packed_field(bits = "127")] last: bool,
}
impl Hdr for Big {
    fn build(f: &Frame, seq: u64, ack: u64) -> Self { Big { kind: k(f.kind).into(), seq, ack: (ack as i64).into(), last: f.last } }
    fn read(&self) -> (i128, i128, i128, bool) { (self.kind.to_primitive() as i128, self.seq as i128, *self.ack as i128, self.last) }
    const BYTES: usize = 16;
    const LEAVES: [Leaf; 4] = [leaf("kind", 120, 7, false, KIND_ANY), leaf("seq", 0, 64, true, Kind::U), leaf("ack", 64, 56, false, Kind::S), leaf("last", 127, 1, false, Kind::Bool)];
}

// ---- checksums

#[derive(PackedStruct, Clone, Debug)]
#[packed_struct(bit_numbering = "msb0")]
pub struct CrcMsb { #[packed_field(endian = "msb")] crc: u32 }
impl Tail for CrcMsb { fn of(c: u64) -> Self { CrcMsb { crc: c as u32 } } fn crc(&self) -> u64 { self.crc as u64 } const BYTES: usize = 4; fn model(b: &[u8]) -> u64 { b.iter().fold(0, |a, x| a << 8 | *x as u64) } }
#[derive(PackedStruct, Clone, Debug)]
pub struct CrcLsb { #[packed_field(size_bits = "40", endian = "lsb")] crc: u64 }
impl Tail for CrcLsb { fn of(c: u64) -> Self { CrcLsb { crc: c } } fn crc(&self) -> u64 { self.crc } const BYTES: usize = 5; fn model(b: &[u8]) -> u64 { b.iter().rev().fold(0, |a, x| a << 8 | *x as u64) } }
impl Tail for [u8; 4] { fn of(c: u64) -> Self { (c as u32).to_be_bytes() } fn crc(&self) -> u64 { u32::from_be_bytes(*self) as u64 } const BYTES: usize = 4; fn model(b: &[u8]) -> u64 { b.iter().fold(0, |a, x| a << 8 | *x as u64) } }
impl Tail for LsbInteger<u32, packed_bits::Bits<32>, Integer<u32, packed_bits::Bits<32>>> { fn of(c: u64) -> Self { Integer::<u32, packed_bits::Bits<32>>::from(c as u32).into() } fn crc(&self) -> u64 { ***self as u64 } const BYTES: usize = 4; fn model(b: &[u8]) -> u64 { b.iter().rev().fold(0, |a, x| a << 8 | *x as u64) } }

// ---- payloads

/// a measurement: 11 bits, 9 bits; four unused bits
#[derive(PackedStruct, Clone, Debug)]
#[packed_struct(bit_numbering = "msb0", endian = "msb")]
pub struct Sample {
    #[packed_field(bits = "0..=10")] a: Integer<i16, packed_bits::Bits<11>>,
    #[packed_field(bits = "13..=21")] b: Integer<u16, packed_bits::Bits<9>>,
}

/// any declared record as a unit of payload
pub trait Item: PackedStruct + 'static {
    const SIZE: usize;
    const LEAVES: &'static [Leaf];
    fn make(v: &[i128]) -> Self;
    fn vals(&self) -> Vec<i128>;
}
impl<E: Item + PackedStructSlice> Body for Vec<E> {
    const UNIT: usize = E::SIZE;
    fn of(b: &[u8]) -> Self { b.chunks(E::SIZE).map(|c| E::make(&E::LEAVES.iter().map(|l| l.number(l.get_raw(c))).collect::<Vec<_>>())).collect() }
    fn bytes(&self) -> Vec<u8> {
        let mut r = vec![0; self.len() * E::SIZE];
        for (x, c) in self.iter().zip(r.chunks_mut(E::SIZE)) { for (l, v) in E::LEAVES.iter().zip(x.vals()) { l.put_raw(c, l.raw_of(v)); } }
        r
    }
    fn model(b: &[u8]) -> Vec<u8> {
        let mut r = vec![0; b.len()];
        for (i, o) in b.chunks(E::SIZE).zip(r.chunks_mut(E::SIZE)) { for l in E::LEAVES { l.put_raw(o, l.get_raw(i)); } }
        r
    }
}
impl Item for u8 {
    const SIZE: usize = 1;
    const LEAVES: &'static [Leaf] = &[leaf("byte", 0, 8, false, Kind::U)];
    fn make(v: &[i128]) -> Self { v[0] as u8 }
    fn vals(&self) -> Vec<i128> { vec![*self as i128] }
}
impl Item for Sample {
    const SIZE: usize = 3;
    const LEAVES: &'static [Leaf] = &[leaf("a", 0, 11, false, Kind::S), leaf("b", 13, 9, false, Kind::U)];
    fn make(v: &[i128]) -> Self { Sample { a: (v[0] as i16).into(), b: (v[1] as u16).into() } }
    fn vals(&self) -> Vec<i128> { vec![*self.a as i128, *self.b as i128] }
}

// ---- frames

pub trait Wire: Sync {
    fn name(&self) -> &'static str;
    fn seq_bits(&self) -> u32;
    fn ack_bits(&self) -> u32;
    fn unit(&self) -> usize;
    /// bytes beside the payload
    fn fixed(&self) -> usize;
    fn encode(&self, f: &Frame, seq: u64, ack: u64, way: u64) -> Lib<PR<Vec<u8>>>;
    fn decode(&self, b: &[u8]) -> Lib<PR<Frame>>;
    /// What the bytes spell; None if they are not a frame.
    fn spelled(&self, b: &[u8]) -> Option<Frame>;
    /// Some: the frame cannot have this length
    fn size_error(&self, len: usize) -> Option<PackingError>;
    /// Payload bytes as they come out of the payload's own representation
    fn normal(&self, payload: &[u8]) -> Vec<u8>;
}
/// How the parts are put together.
pub trait Form<H, B, T>: Sync { type F: PackedStructSlice; fn join(h: H, b: B, t: T) -> Self::F; fn split(f: &Self::F) -> (&H, &B, u64, bool); const EXTRA: usize; /// offsets: header, body, tail given the length of the body
    fn offsets(h: usize, b: usize, t: usize) -> (usize, usize, usize); /// constant bytes to check: offset, value
    fn marks(h: usize, b: usize, t: usize) -> Vec<(usize, u8)> { let _ = (h, b, t); vec![] } /// where a lone boolean sits
    fn lone_bool(h: usize, b: usize) -> Option<usize> { let _ = (h, b); None } }
pub struct Usual;
impl<H: PackedStructSlice, B: Body, T: Tail> Form<H, B, T> for Usual {
    type F = (H, B, T);
    fn join(h: H, b: B, t: T) -> Self::F { (h, b, t) }
    fn split(f: &Self::F) -> (&H, &B, u64, bool) { (&f.0, &f.1, f.2.crc(), true) }
    const EXTRA: usize = 0;
    fn offsets(h: usize, b: usize, _: usize) -> (usize, usize, usize) { (0, h, h + b) }
}
/// payload first
pub struct Trailing;
impl<H: PackedStructSlice, B: Body, T: Tail> Form<H, B, T> for Trailing {
    type F = (B, T, H);
    fn join(h: H, b: B, t: T) -> Self::F { (b, t, h) }
    fn split(f: &Self::F) -> (&H, &B, u64, bool) { (&f.2, &f.0, f.1.crc(), true) }
    const EXTRA: usize = 0;
    fn offsets(_: usize, b: usize, t: usize) -> (usize, usize, usize) { (b + t, 0, b) }
}
/// a marker, header and checksum in front, payload last
pub struct Leading;
impl<H: PackedStructSlice, B: Body, T: Tail> Form<H, B, T> for Leading {
    type F = (u8, H, T, [u8; 2], B);
    fn join(h: H, b: B, t: T) -> Self::F { (0xA5, h, t, [0x5A, 0], b) }
    fn split(f: &Self::F) -> (&H, &B, u64, bool) { (&f.1, &f.4, f.2.crc(), f.0 == 0xA5 && f.3 == [0x5A, 0]) }
    const EXTRA: usize = 3;
    fn offsets(h: usize, _: usize, t: usize) -> (usize, usize, usize) { (1, 1 + h + t + 2, 1 + h) }
    fn marks(h: usize, _: usize, t: usize) -> Vec<(usize, u8)> { vec![(0, 0xA5), (1 + h + t, 0x5A), (2 + h + t, 0)] }
}
/// nested tuples around the payload
pub struct Onion;
impl<H: PackedStructSlice, B: Body, T: Tail> Form<H, B, T> for Onion {
    type F = ((u8, H), (B, (bool, u8)), T);
    fn join(h: H, b: B, t: T) -> Self::F { ((7, h), (b, (true, 9)), t) }
    fn split(f: &Self::F) -> (&H, &B, u64, bool) { (&(f.0).1, &(f.1).0, f.2.crc(), (f.0).0 == 7 && (f.1).1 == (true, 9)) }
    const EXTRA: usize = 3;
    fn offsets(h: usize, b: usize, _: usize) -> (usize, usize, usize) { (1, 1 + h, 1 + h + b + 2) }
    fn marks(h: usize, b: usize, _: usize) -> Vec<(usize, u8)> { vec![(0, 7), (1 + h + b, 1), (2 + h + b, 9)] }
    fn lone_bool(h: usize, b: usize) -> Option<usize> { Some(1 + h + b) }
}

/// six and ten parts, and four with the payload's neighbours empty
pub struct Six;
impl<H: PackedStructSlice, B: Body, T: Tail> Form<H, B, T> for Six {
    type F = (T, (), u8, B, H, [u8; 1]);
    fn join(h: H, b: B, t: T) -> Self::F { (t, (), 0x11, b, h, [0x22]) }
    fn split(f: &Self::F) -> (&H, &B, u64, bool) { (&f.4, &f.3, f.0.crc(), f.2 == 0x11 && f.5 == [0x22]) }
    const EXTRA: usize = 2;
    fn offsets(_: usize, b: usize, t: usize) -> (usize, usize, usize) { (t + 1 + b, t + 1, 0) }
    fn marks(h: usize, b: usize, t: usize) -> Vec<(usize, u8)> { vec![(t, 0x11), (t + 1 + b + h, 0x22)] }
}
pub struct Ten;
impl<H: PackedStructSlice, B: Body, T: Tail> Form<H, B, T> for Ten {
    type F = (u8, [u8; 2], H, u8, u8, B, i8, T, (), u8);
    fn join(h: H, b: B, t: T) -> Self::F { (1, [2, 3], h, 4, 5, b, -1, t, (), 7) }
    fn split(f: &Self::F) -> (&H, &B, u64, bool) { (&f.2, &f.5, f.7.crc(), f.0 == 1 && f.1 == [2, 3] && f.3 == 4 && f.4 == 5 && f.6 == -1 && f.9 == 7) }
    const EXTRA: usize = 7;
    fn offsets(h: usize, b: usize, _: usize) -> (usize, usize, usize) { (3, 5 + h, 6 + h + b) }
    fn marks(h: usize, b: usize, t: usize) -> Vec<(usize, u8)> { vec![(0, 1), (1, 2), (2, 3), (3 + h, 4), (4 + h, 5), (5 + h + b, 0xFF), (6 + h + b + t, 7)] }
}
pub struct Four;
impl<H: PackedStructSlice, B: Body, T: Tail> Form<H, B, T> for Four {
    type F = ((H, T), (), B, ());
    fn join(h: H, b: B, t: T) -> Self::F { ((h, t), (), b, ()) }
    fn split(f: &Self::F) -> (&H, &B, u64, bool) { (&(f.0).0, &f.2, (f.0).1.crc(), true) }
    const EXTRA: usize = 0;
    fn offsets(h: usize, _: usize, t: usize) -> (usize, usize, usize) { (0, h + t, h) }
}

pub struct W<H, B, T, F>(pub &'static str, pub PhantomData<(H, B, T, F)>);
unsafe impl<H, B, T, F> Sync for W<H, B, T, F> {}
impl<H: Hdr + PackedStructSlice, B: Body, T: Tail, F: Form<H, B, T>> Wire for W<H, B, T, F> {
    fn name(&self) -> &'static str { self.0 }
    fn seq_bits(&self) -> u32 { H::LEAVES[1].width }
    fn ack_bits(&self) -> u32 { H::LEAVES[2].width }
    fn unit(&self) -> usize { B::UNIT }
    fn fixed(&self) -> usize { H::BYTES + T::BYTES + F::EXTRA }
    fn encode(&self, f: &Frame, seq: u64, ack: u64, way: u64) -> Lib<PR<Vec<u8>>> {
        let n = self.fixed() + f.payload.len();
        call(|| {
            let x = F::join(H::build(f, seq, ack), B::of(&f.payload), T::of(f.crc));
            if way & 1 == 0 { x.pack_to_vec() } else { let mut v = vec![way as u8; n]; x.pack_to_slice(&mut v).map(|_| v) }
        })
    }
    fn decode(&self, b: &[u8]) -> Lib<PR<Frame>> {
        call(|| {
            let x = F::F::unpack_from_slice(b)?;
            let (h, body, crc, marks) = F::split(&x);
            let (kind, seq, ack, last) = h.read();
            // a frame with wrong marks is for somebody else
            Ok(Frame { kind: if marks { kind } else { -1 }, seq, ack, last, payload: body.bytes(), crc })
        })
    }
    fn spelled(&self, b: &[u8]) -> Option<Frame> {
        if self.size_error(b.len()).is_some() { return None; }
        let n = b.len() - self.fixed();
        let (h, p, t) = F::offsets(H::BYTES, n, T::BYTES);
        // a boolean on its own is a byte that must be zero or one
        if F::lone_bool(H::BYTES, n).map_or(false, |o| b[o] > 1) { return None; }
        let hb = &b[h..h + H::BYTES];
        let v: Vec<i128> = H::LEAVES.iter().map(|l| l.number(l.get_raw(hb))).collect();
        if H::LEAVES.iter().zip(&v).any(|(l, v)| !l.defined(*v)) { return None; }
        let marks = F::marks(H::BYTES, n, T::BYTES).iter().all(|(o, x)| b[*o] == *x);
        Some(Frame { kind: if marks { v[0] } else { -1 }, seq: v[1], ack: v[2], last: v[3] == 1, payload: B::model(&b[p..p + n]), crc: T::model(&b[t..t + T::BYTES]) })
    }
    fn size_error(&self, len: usize) -> Option<PackingError> {
        if len < self.fixed() { return Some(PackingError::BufferSizeMismatch { expected: self.fixed(), actual: len }); }
        let n = len - self.fixed();
        if n % B::UNIT != 0 { return Some(PackingError::BufferModMismatch { actual_size: n, modulo_required: B::UNIT }); }
        None
    }
    fn normal(&self, p: &[u8]) -> Vec<u8> { B::model(p) }
}
macro_rules! wires { ($($n:literal $h:ty, $b:ty, $t:ty, $f:ty;)*) => { pub static WIRES: &[&dyn Wire] = &[$(&W::<$h, $b, $t, $f>($n, PhantomData),)*]; } }
type CrcInt = LsbInteger<u32, packed_bits::Bits<32>, Integer<u32, packed_bits::Bits<32>>>;
include!(concat!(env!("OUT_DIR"), "/gen.rs"));
with_generated! { wires! {
    "4-bit counters" Tiny, Vec<u8>, CrcMsb, Usual;
    "4-bit counters, onion of tuples" Tiny, Vec<Sample>, [u8; 4], Onion;
    "4-bit counters, payload last" Tiny, Vec<Sample>, CrcInt, Leading;
    "11/13-bit mixed byte orders" Odd, Vec<u8>, CrcInt, Usual;
    "11/13-bit mixed byte orders, payload first" Odd, Vec<Sample>, CrcLsb, Trailing;
    "5/10-bit signed counters" Signed, Vec<u8>, CrcLsb, Leading;
    "5/10-bit signed counters, payload first" Signed, Vec<u8>, [u8; 4], Trailing;
    "5/10-bit signed counters, onion of tuples" Signed, Vec<Sample>, CrcMsb, Onion;
    "19/34-bit nested counters" Nested, Vec<u8>, [u8; 4], Onion;
    "19/34-bit nested counters, samples" Nested, Vec<Sample>, CrcLsb, Usual;
    "17-bit signed counters in an array" Lanes, Vec<u8>, CrcMsb, Trailing;
    "17-bit signed counters in an array, payload last" Lanes, Vec<Sample>, CrcLsb, Leading;
    "64/56-bit counters" Big, Vec<u8>, CrcInt, Usual;
    "64/56-bit counters, payload first" Big, Vec<Sample>, CrcMsb, Trailing;
} }
