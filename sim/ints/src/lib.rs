//! Type-erased access to every bit-limited integer type, and to snapshots made of them.
#![allow(clippy::all)]
pub mod bin_format;
use packed_struct::prelude::*;
use packed_struct::types::bits::{ByteArray, NumberOfBits};
use serde::de::value as dv;
use serde::de::{Deserialize, IntoDeserializer};
use serde::{Deserialize as De, Serialize as Se};
use simcore::ops::{Native, PR};
use simcore::seam::{call, Lib};
use std::any::Any;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::marker::PhantomData;

/// A bit-limited integer as its user sees it.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Val {
    pub v: i128,
    pub width: u32,
    pub signed: bool,
    /// what converting the native number again gives
    pub again: i128,
    /// Deref, and From for the native type
    pub deref: i128,
    pub into: i128,
    pub eq_again: bool,
}

pub trait IntOps: Sync {
    fn name(&self) -> String;
    fn width(&self) -> u32;
    fn signed(&self) -> bool;
    fn native_bits(&self) -> u32;
    fn nbytes(&self) -> usize;
    /// `way`: 0 from_primitive, 1 into, 2 from
    fn convert(&self, raw: u64, way: u64) -> Lib<Val>;
    /// `way`: MSB / LSB, array / slice / the trait's own byte conversion
    fn unpack(&self, b: &[u8], way: u64) -> Lib<PR<Val>>;
    /// bytes it sends; `way` as in unpack
    fn emit(&self, raw: u64, way: u64) -> Lib<PR<Vec<u8>>>;
    /// Debug and Display text
    fn text(&self, raw: u64) -> Lib<(String, String)>;
    /// the native type itself to bytes and back
    fn native_out(&self, raw: u64, lsb: bool) -> Lib<Vec<u8>>;
    fn native_back(&self, b: &[u8], lsb: bool) -> Lib<i128>;
    /// as a self-describing format hands it over; None = refused
    fn restore(&self, v: &Given) -> Lib<Option<Val>>;
}
#[derive(Clone, Debug)]
pub enum Given { U(u64), I(i64), U128(u128), I128(i128), F(f64), S(String), B(bool), C(char), Unit, Bytes(Vec<u8>), UInPlace(u64), IInPlace(i64), U8(u8), I8(i8), U16(u16), I16(i16), U32(u32), I32(i32) }

/// How many numbers a native type has.
pub trait Nat: Native + simcore::enums::Bytes + std::fmt::Debug + std::fmt::Display + Se + for<'de> Deserialize<'de> + 'static { const SIGNED: bool; }
macro_rules! nat { ($($t:ty, $s:expr;)*) => { $( impl Nat for $t { const SIGNED: bool = $s; } )* } }
nat!(u8, false; i8, true; u16, false; i16, true; u32, false; i32, true; u64, false; i64, true;);

pub struct Of<T, const N: usize>(PhantomData<T>);
unsafe impl<T, const N: usize> Sync for Of<T, N> {}
type Int<T, const N: usize> = Integer<T, packed_bits::Bits<N>>;

pub fn val<T, const N: usize>(x: &Int<T, N>) -> Val
where T: Nat + From<Int<T, N>>, packed_bits::Bits<N>: NumberOfBits, Int<T, N>: SizedInteger<T, packed_bits::Bits<N>> + std::ops::Deref<Target = T> + Copy + PartialEq {
    let n = x.to_primitive();
    let again = <Int<T, N> as SizedInteger<T, packed_bits::Bits<N>>>::from_primitive(n);
    Val { v: n.to(), width: N as u32, signed: T::SIGNED, again: again.to_primitive().to(), deref: (**x).to(), into: T::from(*x).to(), eq_again: again == *x && !(again != *x) }
}

impl<T, const N: usize> IntOps for Of<T, N>
where T: Nat + From<Int<T, N>> + Into<Int<T, N>>, packed_bits::Bits<N>: NumberOfBits,
    Int<T, N>: SizedInteger<T, packed_bits::Bits<N>> + std::ops::Deref<Target = T> + Copy + PartialEq + for<'de> Deserialize<'de> {
    fn name(&self) -> String { format!("Integer<{}, Bits<{}>>", std::any::type_name::<T>(), N) }
    fn width(&self) -> u32 { N as u32 }
    fn signed(&self) -> bool { T::SIGNED }
    fn native_bits(&self) -> u32 { 8 * std::mem::size_of::<T>() as u32 }
    fn nbytes(&self) -> usize { (N + 7) / 8 }
    fn convert(&self, raw: u64, way: u64) -> Lib<Val> {
        let t = T::of(raw as i64 as i128);
        call(|| { let x: Int<T, N> = match way % 3 { 0 => SizedInteger::from_primitive(t), 1 => t.into(), _ => Into::<Int<T, N>>::into(t) }; val(&x) })
    }
    fn unpack(&self, b: &[u8], way: u64) -> Lib<PR<Val>> {
        type M<T, const N: usize> = MsbInteger<T, packed_bits::Bits<N>, Int<T, N>>;
        type L<T, const N: usize> = LsbInteger<T, packed_bits::Bits<N>, Int<T, N>>;
        let mut a = <<M<T, N> as PackedStruct>::ByteArray as ByteArray>::new(0);
        if way % 6 != 2 && way % 6 != 3 { a.as_mut_bytes_slice().copy_from_slice(b); }
        call(|| -> PR<Val> { Ok(match way % 6 {
            0 => val(&**<M<T, N> as PackedStruct>::unpack(&a).as_ref().map_err(|e| *e)?),
            1 => val(&**<L<T, N> as PackedStruct>::unpack(&a).as_ref().map_err(|e| *e)?),
            2 => val(&**M::<T, N>::unpack_from_slice(b).as_ref().map_err(|e| *e)?),
            3 => val(&**L::<T, N>::unpack_from_slice(b).as_ref().map_err(|e| *e)?),
            4 => val(&<Int<T, N> as SizedInteger<T, packed_bits::Bits<N>>>::from_msb_bytes(&a)?),
            _ => val(&<Int<T, N> as SizedInteger<T, packed_bits::Bits<N>>>::from_lsb_bytes(&a)?),
        }) })
    }
    fn emit(&self, raw: u64, way: u64) -> Lib<PR<Vec<u8>>> {
        let t = T::of(raw as i64 as i128);
        let len = self.nbytes();
        let mut out = [0xA5u8; 8];
        let mut f = || -> PR<()> {
            let out = &mut out[..len];
            let x = <Int<T, N> as SizedInteger<T, packed_bits::Bits<N>>>::from_primitive(t);
            match way % 6 {
                0 => out.copy_from_slice(x.as_packed_msb().pack()?.as_bytes_slice()),
                1 => out.copy_from_slice(x.as_packed_lsb().pack()?.as_bytes_slice()),
                2 => x.as_packed_msb().pack_to_slice(out)?,
                3 => x.as_packed_lsb().pack_to_slice(out)?,
                4 => out.copy_from_slice(SizedInteger::to_msb_bytes(&x)?.as_bytes_slice()),
                _ => out.copy_from_slice(SizedInteger::to_lsb_bytes(&x)?.as_bytes_slice()),
            }
            Ok(())
        };
        let r = call(&mut f)?;
        Ok(r.map(|_| out[..len].to_vec()))
    }
    fn text(&self, raw: u64) -> Lib<(String, String)> {
        let x = <Int<T, N> as SizedInteger<T, packed_bits::Bits<N>>>::from_primitive(T::of(raw as i64 as i128));
        call(|| (format!("{:?}", x), format!("{}", x)))
    }
    fn native_out(&self, raw: u64, lsb: bool) -> Lib<Vec<u8>> { let t = T::of(raw as i64 as i128); call(|| t.out(lsb)) }
    fn native_back(&self, b: &[u8], lsb: bool) -> Lib<i128> { call(|| T::back(b, lsb)).map(|x| x.to()) }
    fn restore(&self, g: &Given) -> Lib<Option<Val>> {
        fn go<'de, T, const N: usize, D: serde::Deserializer<'de>>(d: D) -> Option<Int<T, N>> where Int<T, N>: Deserialize<'de> { Int::<T, N>::deserialize(d).ok() }
        type E = dv::Error;
        call(|| {
            let x: Option<Int<T, N>> = match g {
                Given::U(x) => go::<T, N, dv::U64Deserializer<E>>((*x).into_deserializer()),
                Given::I(x) => go::<T, N, dv::I64Deserializer<E>>((*x).into_deserializer()),
                Given::U128(x) => go::<T, N, dv::U128Deserializer<E>>((*x).into_deserializer()),
                Given::I128(x) => go::<T, N, dv::I128Deserializer<E>>((*x).into_deserializer()),
                Given::U8(x) => go::<T, N, dv::U8Deserializer<E>>((*x).into_deserializer()),
                Given::I8(x) => go::<T, N, dv::I8Deserializer<E>>((*x).into_deserializer()),
                Given::U16(x) => go::<T, N, dv::U16Deserializer<E>>((*x).into_deserializer()),
                Given::I16(x) => go::<T, N, dv::I16Deserializer<E>>((*x).into_deserializer()),
                Given::U32(x) => go::<T, N, dv::U32Deserializer<E>>((*x).into_deserializer()),
                Given::I32(x) => go::<T, N, dv::I32Deserializer<E>>((*x).into_deserializer()),
                Given::F(x) => go::<T, N, dv::F64Deserializer<E>>((*x).into_deserializer()),
                Given::S(x) => go::<T, N, dv::StrDeserializer<E>>(x.as_str().into_deserializer()),
                Given::B(x) => go::<T, N, dv::BoolDeserializer<E>>((*x).into_deserializer()),
                Given::C(x) => go::<T, N, dv::CharDeserializer<E>>((*x).into_deserializer()),
                Given::Unit => go::<T, N, dv::UnitDeserializer<E>>(().into_deserializer()),
                Given::Bytes(x) => go::<T, N, dv::BytesDeserializer<E>>(dv::BytesDeserializer::new(&x[..])),
                Given::UInPlace(x) => { let mut p: Int<T, N> = SizedInteger::from_primitive(T::of(1)); let d: dv::U64Deserializer<E> = (*x).into_deserializer(); Deserialize::deserialize_in_place(d, &mut p).ok().map(|_| p) }
                Given::IInPlace(x) => { let mut p: Int<T, N> = SizedInteger::from_primitive(T::of(1)); let d: dv::I64Deserializer<E> = (*x).into_deserializer(); Deserialize::deserialize_in_place(d, &mut p).ok().map(|_| p) }
            };
            x.map(|x| val(&x))
        })
    }
}

// ---------------------------------------------------------------------------------------------------
// Snapshots

pub const JSON: u64 = 0;
pub const PRETTY: u64 = 1;
pub const BINARY: u64 = 2;
pub const TREE: u64 = 3; // JSON, restored through a tree of values
pub const NFORMATS: u64 = 4;

pub trait Snap {
    fn save(&self, format: u64, w: &mut dyn Write) -> Lib<Result<(), String>>;
    fn values(&self, out: &mut Vec<Val>);
    fn same(&self, other: &dyn Snap) -> bool;
    fn show(&self) -> String;
    fn any(&self) -> &dyn Any;
    fn copy(&self) -> Box<dyn Snap>;
    /// packed form of the record inside, if there is one
    fn packed(&self) -> Option<Lib<PR<Vec<u8>>>> { None }
}
fn save<T: Se>(x: &T, format: u64, w: &mut dyn Write) -> Lib<Result<(), String>> {
    call(|| match format % NFORMATS {
        JSON | TREE => serde_json::to_writer(w, x).map_err(|e| e.to_string()),
        PRETTY => serde_json::to_writer_pretty(w, x).map_err(|e| e.to_string()),
        _ => x.serialize(&mut bin_format::Ser(w)).map_err(|e| e.to_string()),
    })
}
fn load<T: for<'de> Deserialize<'de> + Snap + 'static>(format: u64, r: &mut dyn Read) -> Lib<Result<Box<dyn Snap>, String>> {
    let x: Lib<Result<T, String>> = call(|| match format % NFORMATS {
        JSON | PRETTY => serde_json::from_reader(r).map_err(|e| e.to_string()),
        TREE => serde_json::from_reader::<_, serde_json::Value>(r).and_then(serde_json::from_value).map_err(|e| e.to_string()),
        _ => T::deserialize(&mut bin_format::De(r)).map_err(|e| e.to_string()),
    });
    Ok(x?.map(|t| Box::new(t) as Box<dyn Snap>))
}

macro_rules! snap { ($name:ident $($f:ident $t:ident $n:literal),*) => {
    #[derive(Clone, Debug, PartialEq, Se, De)]
    pub struct $name { $( $f: Int<$t, $n>, )* err: PackingError }
    impl $name {
        fn make(raws: &mut dyn FnMut() -> u64) -> Self { $name { $( $f: <Int<$t, $n>>::from_primitive(raws() as $t), )* err: simcore::probe::error_of(raws()) } }
    }
    impl Snap for $name {
        fn save(&self, f: u64, w: &mut dyn Write) -> Lib<Result<(), String>> { save(self, f, w) }
        fn values(&self, out: &mut Vec<Val>) { $( out.push(val(&self.$f)); )* }
        fn same(&self, o: &dyn Snap) -> bool { o.any().downcast_ref::<Self>().map_or(false, |o| o == self) }
        fn show(&self) -> String { format!("{:?}", self) }
        fn any(&self) -> &dyn Any { self }
        fn copy(&self) -> Box<dyn Snap> { Box::new(self.clone()) }
    }
} }
include!("list.rs");

/// A register block that also travels packed.
#[derive(PackedStruct, Clone, Copy, Debug, PartialEq, Se, De)]
#[packed_struct(bit_numbering = "msb0")]
pub struct Regs {
    #[packed_field(bits = "0..=2")]
    mode: Integer<u8, packed_bits::Bits<3>>,
    #[packed_field(bits = "3..=15", endian = "msb")]
    level: Integer<i16, packed_bits::Bits<13>>,
    #[packed_field(bits = "16..=19")]
    _r: ReservedOne<packed_bits::Bits<4>>,
    #[packed_field(bits = "20..=42", endian = "lsb")]
    counter: Integer<u32, packed_bits::Bits<23>>,
    #[packed_field(bits = "43..=44")]
    _z: ReservedZero<packed_bits::Bits<2>>,
    #[packed_field(bits = "45..=79", endian = "msb")]
    stamp: Integer<i64, packed_bits::Bits<35>>,
    #[packed_field(bits = "80..=95", element_size_bits = "4")]
    lanes: [Integer<u8, packed_bits::Bits<4>>; 4],
}
#[derive(Clone, Copy, Debug, PartialEq, Se, De)]
#[serde(tag = "kind")]
pub enum Event { Level { v: Int<i16, 12> }, Count { n: Int<u32, 20>, top: Int<u8, 2> }, Failed { why: PackingError } }
#[derive(Clone, Copy, Debug, PartialEq, Se, De)]
pub struct Wide { w: Int<u64, 50>, lo: Int<i32, 17> }
#[derive(Clone, Debug, PartialEq, Se, De)]
pub enum Move { Idle, To(Int<u16, 11>), Both(Int<i8, 6>, Int<u64, 64>), Named { a: Int<i64, 64>, b: Option<Int<u8, 1>> } }
type FixedMap<K, V> = HashMap<K, V, std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>>;

#[derive(Clone, Default, PartialEq, Se, De)]
pub struct Units(packed_struct::types::BitZero, packed_struct::types::BitOne);
impl std::fmt::Debug for Units { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("units") } }

/// State of a device, in the forms users write such state down. The untagged and flattened parts need a format that
/// describes itself.
#[derive(Clone, Debug, PartialEq, Se, De)]
pub struct Device {
    regs: Regs,
    history: Vec<Int<i16, 11>>,
    best: Option<Int<u32, 31>>,
    pair: (Int<u8, 7>, Int<i64, 63>),
    grid: [[Int<u8, 3>; 2]; 3],
    table: FixedMap<Int<u16, 9>, Int<i32, 20>>,
    steps: Vec<Move>,
    boxed: Box<Int<i8, 1>>,
    zero: ReservedZero<packed_bits::Bits<13>>,
    one: ReservedOnes<packed_bits::Bits<3>>,
    unit: Units,
    errors: Vec<PackingError>,
    last: Result<Int<i8, 7>, PackingError>,
}
#[derive(Clone, Debug, PartialEq, Se, De)]
pub struct Described {
    events: Vec<Event>,
    #[serde(flatten)]
    wide: Wide,
    device: Device,
}
fn small<T, const N: usize>(r: &mut dyn FnMut() -> u64) -> Int<T, N> where T: Nat, packed_bits::Bits<N>: NumberOfBits, Int<T, N>: SizedInteger<T, packed_bits::Bits<N>> { SizedInteger::from_primitive(T::of(r() as i64 as i128)) }
impl Device {
    fn make(r: &mut dyn FnMut() -> u64) -> Self {
        let n = (r() % 5) as usize;
        let regs = Regs { mode: small(r), level: small(r), _r: Default::default(), counter: small(r), _z: Default::default(), stamp: small(r), lanes: [small(r), small(r), small(r), small(r)] };
        let mut table = FixedMap::default();
        for _ in 0..n { let k = small(r); table.insert(k, small(r)); }
        Device { regs, history: (0..n).map(|_| small(r)).collect(), best: if r() & 1 == 1 { Some(small(r)) } else { None }, pair: (small(r), small(r)),
            grid: [[small(r), small(r)], [small(r), small(r)], [small(r), small(r)]], table,
            steps: (0..n).map(|_| match r() % 4 { 0 => Move::Idle, 1 => Move::To(small(r)), 2 => Move::Both(small(r), small(r)), _ => Move::Named { a: small(r), b: if r() & 1 == 1 { Some(small(r)) } else { None } } }).collect(),
            boxed: Box::new(small(r)), zero: Default::default(), one: Default::default(), unit: Default::default(),
            errors: (0..n).map(|_| simcore::probe::error_of(r())).collect(), last: if r() & 1 == 1 { Ok(small(r)) } else { Err(simcore::probe::error_of(r())) } }
    }
    fn vals(&self, o: &mut Vec<Val>) {
        let g = &self.regs;
        o.extend([val(&g.mode), val(&g.level), val(&g.counter), val(&g.stamp)]);
        o.extend(g.lanes.iter().map(val));
        o.extend(self.history.iter().map(val));
        o.extend(self.best.iter().map(val));
        o.extend([val(&self.pair.0), val(&self.pair.1), val(&*self.boxed)]);
        o.extend(self.grid.iter().flatten().map(val));
        let mut t: Vec<(Val, Val)> = self.table.iter().map(|(k, v)| (val(k), val(v))).collect();
        t.sort_by_key(|x| x.0.v);
        for (k, v) in t { o.extend([k, v]); }
        for s in &self.steps { match s { Move::Idle => {} Move::To(a) => o.push(val(a)), Move::Both(a, b) => o.extend([val(a), val(b)]), Move::Named { a, b } => { o.push(val(a)); o.extend(b.iter().map(val)); } } }
        if let Ok(x) = &self.last { o.push(val(x)); }
    }
}
impl Snap for Device {
    fn save(&self, f: u64, w: &mut dyn Write) -> Lib<Result<(), String>> { save(self, f, w) }
    fn values(&self, out: &mut Vec<Val>) { self.vals(out) }
    fn same(&self, o: &dyn Snap) -> bool { o.any().downcast_ref::<Self>().map_or(false, |o| o == self) }
    fn show(&self) -> String { format!("{:?}", self) }
    fn any(&self) -> &dyn Any { self }
    fn copy(&self) -> Box<dyn Snap> { Box::new(self.clone()) }
    fn packed(&self) -> Option<Lib<PR<Vec<u8>>>> { Some(call(|| self.regs.pack_to_vec())) }
}
impl Snap for Described {
    fn save(&self, f: u64, w: &mut dyn Write) -> Lib<Result<(), String>> { save(self, f, w) }
    fn values(&self, o: &mut Vec<Val>) {
        self.device.vals(o);
        o.extend([val(&self.wide.w), val(&self.wide.lo)]);
        for e in &self.events { match e { Event::Level { v } => o.push(val(v)), Event::Count { n, top } => o.extend([val(n), val(top)]), _ => {} } }
    }
    fn same(&self, o: &dyn Snap) -> bool { o.any().downcast_ref::<Self>().map_or(false, |o| o == self) }
    fn show(&self) -> String { format!("{:?}", self) }
    fn any(&self) -> &dyn Any { self }
    fn copy(&self) -> Box<dyn Snap> { Box::new(self.clone()) }
    fn packed(&self) -> Option<Lib<PR<Vec<u8>>>> { self.device.packed() }
}

pub const KINDS: u64 = 7;
pub const DESCRIBED: u64 = 6;
pub fn make(kind: u64, r: &mut dyn FnMut() -> u64) -> Box<dyn Snap> {
    match kind % KINDS {
        0 => Box::new(SnapA::make(r)), 1 => Box::new(SnapB::make(r)), 2 => Box::new(SnapC::make(r)), 3 => Box::new(SnapD::make(r)), 4 => Box::new(SnapE::make(r)),
        5 => Box::new(Device::make(r)),
        _ => { let n = r() % 4; let events = (0..n).map(|_| match r() % 3 { 0 => Event::Level { v: small(r) }, 1 => Event::Count { n: small(r), top: small(r) }, _ => Event::Failed { why: simcore::probe::error_of(r()) } }).collect();
            Box::new(Described { events, wide: Wide { w: small(r), lo: small(r) }, device: Device::make(r) }) }
    }
}
pub fn restore(kind: u64, format: u64, r: &mut dyn Read) -> Lib<Result<Box<dyn Snap>, String>> {
    match kind % KINDS { 0 => load::<SnapA>(format, r), 1 => load::<SnapB>(format, r), 2 => load::<SnapC>(format, r), 3 => load::<SnapD>(format, r), 4 => load::<SnapE>(format, r), 5 => load::<Device>(format, r), _ => load::<Described>(format, r) }
}
