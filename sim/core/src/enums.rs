//! Enums used as field types. Discriminants are written out twice on purpose: once for the derive macro,
//! once for the reference model.
use crate::model::EnumInfo;
use crate::ops::Native;
use crate::seam::{call, Lib};
use std::marker::PhantomData;
use packed_struct::prelude::*;

pub trait Declared: Sized + Copy {
    const INFO: EnumInfo;
    fn num(&self) -> i128;
    fn of(v: i128) -> Option<Self>;
}

/// For an enum declared in the crate of the caller: name and number of every variant, for the model.
#[macro_export]
macro_rules! declared {
    ($name:ident { $($var:ident = $d:expr),* $(,)? }) => {
        impl $crate::enums::Declared for $name {
            const INFO: $crate::model::EnumInfo = $crate::model::EnumInfo { name: stringify!($name), disc: &[$($d),*], names: &[$($crate::enums::plain(stringify!($var))),*] };
            fn num(&self) -> i128 { match self { $($name::$var => $d),* } }
            fn of(v: i128) -> Option<Self> { $( if v == $d { return Some($name::$var); } )* None }
        }
        impl $crate::ops::Leafy for $name {
            fn put(&self, out: &mut $crate::ops::Vals) { out.push(self.num()) }
            fn take(it: &mut core::slice::Iter<i128>) -> Self { Self::of(*it.next().unwrap()).expect("harness: undefined discriminant") }
        }
    }
}

/// The name an identifier stands for: without the prefix of a raw one.
pub const fn plain(s: &'static str) -> &'static str {
    match s.as_bytes() { [b'r', b'#', rest @ ..] => match core::str::from_utf8(rest) { Ok(t) => t, Err(_) => s }, _ => s }
}

#[derive(PrimitiveEnum_u8, Clone, Copy, Debug, PartialEq)]
pub enum EA { A = 1, B = 2, C = 3 }
declared!(EA { A = 1, B = 2, C = 3 });

#[derive(PrimitiveEnum_u8, Clone, Copy, Debug, PartialEq)]
pub enum EB { Off, Standby, LowPower, On }
declared!(EB { Off = 0, Standby = 1, LowPower = 2, On = 3 });

#[derive(PrimitiveEnum_u8, Clone, Copy, Debug, PartialEq)]
pub enum EC { P = 0x11, Q = 0x7F, R, S = 0xFF }
declared!(EC { P = 0x11, Q = 0x7F, R = 0x80, S = 0xFF });

#[derive(PrimitiveEnum, Clone, Copy, Debug, PartialEq)]
pub enum ED { VariantMin = 0, VariantMax = 255 }
declared!(ED { VariantMin = 0, VariantMax = 255 });

#[derive(PrimitiveEnum_u16, Clone, Copy, Debug, PartialEq)]
pub enum EE { A = 0x0102, B = 0x01FF, C, D = 0x8001, E = 0xFFFE, F }
declared!(EE { A = 0x0102, B = 0x01FF, C = 0x0200, D = 0x8001, E = 0xFFFE, F = 0xFFFF });

#[derive(PrimitiveEnum, Clone, Copy, Debug, PartialEq)]
pub enum EF { A = 7, B = 300, C }
declared!(EF { A = 7, B = 300, C = 301 });

#[derive(PrimitiveEnum_u32, Clone, Copy, Debug, PartialEq)]
pub enum EG { A = 5, B = 0x10000, C = 0xDEADBEEF, D }
declared!(EG { A = 5, B = 0x10000, C = 0xDEADBEEF, D = 0xDEADBEF0 });

#[derive(PrimitiveEnum_u32, Clone, Copy, Debug, PartialEq)]
pub enum EG2 { A = 0, B = 0x10000, C = 0x15555 }
declared!(EG2 { A = 0, B = 0x10000, C = 0x15555 });

#[derive(PrimitiveEnum_u64, Clone, Copy, Debug, PartialEq)]
pub enum EH { Zero, A = 0x1_0000_0000, B = 0x0123_4567_89AB_CDEF, C = 0x7FFF_FFFF_FFFF_FFFF }
declared!(EH { Zero = 0, A = 0x1_0000_0000, B = 0x0123_4567_89AB_CDEF, C = 0x7FFF_FFFF_FFFF_FFFF });

#[derive(PrimitiveEnum_i8, Clone, Copy, Debug, PartialEq)]
pub enum EI { Min = -128, NegA = -110, NegB, MinusTwo = -2, MinusOne, Zero, One, Max = 127 }
declared!(EI { Min = -128, NegA = -110, NegB = -109, MinusTwo = -2, MinusOne = -1, Zero = 0, One = 1, Max = 127 });

#[derive(PrimitiveEnum, Clone, Copy, Debug, PartialEq)]
pub enum EJ { A = -4, B = -1, C = 2 }
declared!(EJ { A = -4, B = -1, C = 2 });

#[derive(PrimitiveEnum_i16, Clone, Copy, Debug, PartialEq)]
pub enum EK { Min = -32768, A = -300, B = -1, C = 256, Max = 32767 }
declared!(EK { Min = -32768, A = -300, B = -1, C = 256, Max = 32767 });

#[derive(PrimitiveEnum_i16, Clone, Copy, Debug, PartialEq)]
pub enum EK2 { A = -256, B = -1, C = 255 }
declared!(EK2 { A = -256, B = -1, C = 255 });

#[derive(PrimitiveEnum_i32, Clone, Copy, Debug, PartialEq)]
pub enum EL { Min = -2147483648, A = -70000, B = 65536, Max = 2147483647 }
declared!(EL { Min = -2147483648, A = -70000, B = 65536, Max = 2147483647 });

#[derive(PrimitiveEnum_i64, Clone, Copy, Debug, PartialEq)]
pub enum EM { Min = -9223372036854775808, A = -5000000000, B = -1, C = 1, Max = 9223372036854775807 }
declared!(EM { Min = -9223372036854775808, A = -5000000000, B = -1, C = 1, Max = 9223372036854775807 });

/// no gaps, not in order
#[derive(PrimitiveEnum_u8, Clone, Copy, Debug, PartialEq)]
pub enum EN { Two = 2, Zero = 0, Five = 5, Three = 3, Four, One = 1 }
declared!(EN { Two = 2, Zero = 0, Five = 5, Three = 3, Four = 4, One = 1 });

/// Type-erased access to the conversions of an enum. Numbers that the backing type cannot hold give None.
pub trait EnumOps: Sync {
    fn info(&self) -> &'static EnumInfo;
    fn backing_bytes(&self) -> usize;
    fn fits(&self, n: i128) -> bool;
    fn lift(&self, n: i128) -> Lib<Option<i128>>;
    fn lower(&self, n: i128) -> Lib<i128>;
    fn parse(&self, s: &str, lower: bool) -> Lib<Option<i128>>;
    fn show(&self, n: i128, dynamic: bool) -> Lib<String>;
    fn list(&self, dynamic: bool) -> Lib<Vec<i128>>;
    /// (is a declared variant, number)
    fn any_lift(&self, n: i128) -> Lib<Option<(bool, i128)>>;
    fn any_parse(&self, s: &str, lower: bool) -> Lib<Option<(bool, i128)>>;
    fn any_show(&self, n: i128, wrap: bool) -> Lib<String>;
    fn any_list(&self) -> Lib<Vec<(bool, i128)>>;
    /// `a` and `b` as catch-all values (`wrap`: even a declared number is kept as unknown one) compare equal
    fn any_eq(&self, a: i128, b: i128, wrap: u64) -> Lib<bool>;
    fn any_lower(&self, n: i128, wrap: bool) -> Lib<i128>;
    fn any_of(&self, n: i128, from: bool) -> Lib<(bool, i128)>;
    /// native number to bytes and back through the library (way: 0 most significant byte first, 1 least)
    fn to_bytes(&self, n: i128, lsb: bool) -> Lib<Vec<u8>>;
    fn from_bytes(&self, b: &[u8], lsb: bool) -> Lib<i128>;
}
pub struct EnOps<E>(PhantomData<E>);
unsafe impl<E> Sync for EnOps<E> {}
impl<E> EnOps<E> { pub const NEW: EnOps<E> = EnOps(PhantomData); }

/// Native integers to and from bytes, through the library's IntegerAsBytes.
pub trait Bytes: Sized { fn out(&self, lsb: bool) -> Vec<u8>; fn back(b: &[u8], lsb: bool) -> Self; }
impl<T: IntegerAsBytes> Bytes for T where T::AsBytes: AsRef<[u8]> + for<'a> TryFrom<&'a [u8]> {
    fn out(&self, lsb: bool) -> Vec<u8> { let b = if lsb { self.to_lsb_bytes() } else { self.to_msb_bytes() }; b.as_ref().to_vec() }
    fn back(b: &[u8], lsb: bool) -> Self {
        let a = T::AsBytes::try_from(b).ok().expect("harness: length");
        if lsb { T::from_lsb_bytes(&a) } else { T::from_msb_bytes(&a) }
    }
}

fn catch<E: Declared + PrimitiveEnum>(n: i128, wrap: bool) -> EnumCatchAll<E> where E::Primitive: Native {
    match E::of(n) { Some(e) if !wrap => EnumCatchAll::Enum(e), _ => EnumCatchAll::CatchAll(E::Primitive::of(n)) }
}
fn kind<E: Declared + PrimitiveEnum>(c: EnumCatchAll<E>) -> (bool, i128) where E::Primitive: Native {
    match c { EnumCatchAll::Enum(e) => (true, e.num()), EnumCatchAll::CatchAll(p) => (false, p.to()) }
}
#[cfg(not(feature = "bare"))]
mod names {
    pub use packed_struct::PrimitiveEnumDynamicStr as Dynamic;
    pub fn show<E: Dynamic>(e: &E) -> String { e.to_display_str().into_owned() }
    pub fn list<E: Dynamic + 'static>() -> Vec<E> { E::all_variants().into_owned() }
}
#[cfg(feature = "bare")]
mod names {
    pub use packed_struct::PrimitiveEnumStaticStr as Dynamic;
    pub fn show<E: Dynamic>(e: &E) -> String { e.to_display_str().to_string() }
    pub fn list<E: Dynamic + 'static>() -> Vec<E> { E::all_variants().to_vec() }
}
impl<E> EnumOps for EnOps<E> where E: Declared + PrimitiveEnum + packed_struct::PrimitiveEnumStaticStr + names::Dynamic + 'static, E::Primitive: Native + Bytes {
    fn info(&self) -> &'static EnumInfo { &E::INFO }
    fn backing_bytes(&self) -> usize { std::mem::size_of::<E::Primitive>() }
    fn fits(&self, n: i128) -> bool { E::Primitive::of(n).to() == n }
    fn lift(&self, n: i128) -> Lib<Option<i128>> { call(|| E::from_primitive(E::Primitive::of(n))).map(|e| e.map(|e| e.num())) }
    fn lower(&self, n: i128) -> Lib<i128> { let e = E::of(n).unwrap(); call(|| e.to_primitive()).map(|p| p.to()) }
    fn parse(&self, s: &str, lower: bool) -> Lib<Option<i128>> { call(|| if lower { E::from_str_lower(s) } else { E::from_str(s) }).map(|e| e.map(|e| e.num())) }
    fn show(&self, n: i128, dynamic: bool) -> Lib<String> {
        let e = E::of(n).unwrap();
        call(|| if dynamic { names::show(&e) } else { packed_struct::PrimitiveEnumStaticStr::to_display_str(&e).to_string() })
    }
    fn list(&self, dynamic: bool) -> Lib<Vec<i128>> {
        call(|| if dynamic { names::list::<E>() } else { <E as packed_struct::PrimitiveEnumStaticStr>::all_variants().to_vec() }).map(|v| v.iter().map(|e| e.num()).collect())
    }
    fn any_lift(&self, n: i128) -> Lib<Option<(bool, i128)>> { call(|| EnumCatchAll::<E>::from_primitive(E::Primitive::of(n))).map(|c| c.map(kind)) }
    fn any_parse(&self, s: &str, lower: bool) -> Lib<Option<(bool, i128)>> { call(|| if lower { EnumCatchAll::<E>::from_str_lower(s) } else { EnumCatchAll::<E>::from_str(s) }).map(|c| c.map(kind)) }
    #[cfg(feature = "bare")]
    fn any_show(&self, _n: i128, _wrap: bool) -> Lib<String> { panic!("harness: needs an allocator") }
    #[cfg(feature = "bare")]
    fn any_list(&self) -> Lib<Vec<(bool, i128)>> { panic!("harness: needs an allocator") }
    #[cfg(not(feature = "bare"))]
    fn any_show(&self, n: i128, wrap: bool) -> Lib<String> { let c = catch::<E>(n, wrap); call(|| c.to_display_str().into_owned()) }
    #[cfg(not(feature = "bare"))]
    fn any_list(&self) -> Lib<Vec<(bool, i128)>> { call(|| EnumCatchAll::<E>::all_variants().into_owned()).map(|v| v.into_iter().map(kind).collect()) }
    fn any_eq(&self, a: i128, b: i128, wrap: u64) -> Lib<bool> { let (x, y) = (catch::<E>(a, wrap & 1 == 1), catch::<E>(b, wrap & 2 == 2)); call(|| x == y) }
    fn any_lower(&self, n: i128, wrap: bool) -> Lib<i128> { let c = catch::<E>(n, wrap); call(|| c.to_primitive()).map(|p| p.to()) }
    fn any_of(&self, n: i128, from: bool) -> Lib<(bool, i128)> { let e = E::of(n).unwrap(); call(|| if from { EnumCatchAll::from(e) } else { EnumCatchAll::from_enum(e) }).map(kind) }
    fn to_bytes(&self, n: i128, lsb: bool) -> Lib<Vec<u8>> { let p = E::Primitive::of(n); call(|| p.out(lsb)) }
    fn from_bytes(&self, b: &[u8], lsb: bool) -> Lib<i128> { call(|| E::Primitive::back(b, lsb)).map(|p| p.to()) }
}
pub static BASE: &[&dyn EnumOps] = &[&EnOps::<EA>::NEW, &EnOps::<EB>::NEW, &EnOps::<EC>::NEW, &EnOps::<ED>::NEW, &EnOps::<EE>::NEW, &EnOps::<EF>::NEW, &EnOps::<EG>::NEW, &EnOps::<EG2>::NEW, &EnOps::<EH>::NEW, &EnOps::<EI>::NEW, &EnOps::<EJ>::NEW, &EnOps::<EK>::NEW, &EnOps::<EK2>::NEW, &EnOps::<EL>::NEW, &EnOps::<EM>::NEW, &EnOps::<EN>::NEW];
