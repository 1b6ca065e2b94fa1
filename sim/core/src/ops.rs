//! Type-erased access to the real codecs.
use crate::model::*;
use crate::seam::{call, Lib};
use packed_struct::prelude::*;
use packed_struct::PackedStructInfo;
use std::fmt;
use std::marker::PhantomData;

pub type PR<T> = Result<T, PackingError>;

/// Numbers of a value's fields, in wire order
pub type Vals = Vec<i128>;

/// Translation between a Rust value and the numbers its fields carry.
pub trait Leafy: Sized {
    fn put(&self, out: &mut Vec<i128>);
    fn take(it: &mut std::slice::Iter<i128>) -> Self;
}
fn next(it: &mut std::slice::Iter<i128>) -> i128 { *it.next().expect("harness: value list too short") }

macro_rules! leafy_int { ($($t:ty)*) => { $(
    impl Leafy for $t {
        fn put(&self, out: &mut Vec<i128>) { out.push(*self as i128) }
        fn take(it: &mut std::slice::Iter<i128>) -> Self { next(it) as $t }
    })* } }
leafy_int!(u8 i8 u16 i16 u32 i32 u64 i64);
impl Leafy for bool {
    fn put(&self, out: &mut Vec<i128>) { out.push(*self as i128) }
    fn take(it: &mut std::slice::Iter<i128>) -> Self { next(it) != 0 }
}
impl Leafy for () {
    fn put(&self, _: &mut Vec<i128>) {}
    fn take(_: &mut std::slice::Iter<i128>) -> Self {}
}
impl<V: Default, B: Default> Leafy for ReservedBits<V, B> {
    fn put(&self, _: &mut Vec<i128>) {}
    fn take(_: &mut std::slice::Iter<i128>) -> Self { Self::default() }
}
pub trait Native: Copy { fn to(self) -> i128; fn of(v: i128) -> Self; }
macro_rules! native { ($($t:ty)*) => { $( impl Native for $t { fn to(self) -> i128 { self as i128 } fn of(v: i128) -> Self { v as $t } } )* } }
native!(u8 i8 u16 i16 u32 i32 u64 i64);
impl<T: Native, const N: usize> Leafy for Integer<T, packed_bits::Bits<N>>
where packed_bits::Bits<N>: packed_bits::NumberOfBits, Integer<T, packed_bits::Bits<N>>: SizedInteger<T, packed_bits::Bits<N>> {
    fn put(&self, out: &mut Vec<i128>) { out.push(SizedInteger::to_primitive(self).to()) }
    fn take(it: &mut std::slice::Iter<i128>) -> Self { <Self as SizedInteger<T, packed_bits::Bits<N>>>::from_primitive(T::of(next(it))) }
}
impl<T, B, I: Leafy> Leafy for MsbInteger<T, B, I> {
    fn put(&self, out: &mut Vec<i128>) { (**self).put(out) }
    fn take(it: &mut std::slice::Iter<i128>) -> Self { I::take(it).into() }
}
impl<T, B, I: Leafy> Leafy for LsbInteger<T, B, I> {
    fn put(&self, out: &mut Vec<i128>) { (**self).put(out) }
    fn take(it: &mut std::slice::Iter<i128>) -> Self { I::take(it).into() }
}
impl<T: Leafy, const N: usize> Leafy for [T; N] {
    fn put(&self, out: &mut Vec<i128>) { for x in self { x.put(out) } }
    fn take(it: &mut std::slice::Iter<i128>) -> Self { core::array::from_fn(|_| T::take(it)) }
}
/// Marks a catch-all value that holds a number which should have been recognised as a declared variant.
pub const MISCLASSIFIED: i128 = 1 << 100;
impl<E: PrimitiveEnum + crate::enums::Declared> Leafy for EnumCatchAll<E> where E::Primitive: Native {
    fn put(&self, out: &mut Vec<i128>) {
        out.push(match self {
            EnumCatchAll::Enum(e) => e.num(),
            EnumCatchAll::CatchAll(p) => if E::INFO.disc.contains(&p.to()) { p.to() + MISCLASSIFIED } else { p.to() },
        })
    }
    fn take(it: &mut std::slice::Iter<i128>) -> Self {
        let v = next(it);
        match E::of(v) { Some(e) => EnumCatchAll::Enum(e), None => EnumCatchAll::CatchAll(Native::of(v)) }
    }
}

/// A type of the zoo together with its reference layout. (Implemented by the record itself, or by a marker for
/// types that are not local to the zoo.)
pub trait Def: 'static {
    type T: Leafy + PackedStruct + PackedStructSlice + PackedStructInfo + 'static;
    const INFO: RecInfo;
    fn render(_v: &Self::T, _flags: u8, _w: &mut dyn fmt::Write) -> Option<fmt::Result> { None }
    fn field_table(_v: &Self::T, _w: &mut dyn fmt::Write) -> Option<fmt::Result> { None }
    /// Debug form of every field (array elements one by one), as a user would print them
    fn debug_rows(_v: &Self::T) -> Vec<String> { vec![] }
}

#[cfg(not(feature = "bare"))]
pub struct FieldTable<'a, P>(pub &'a P);
#[cfg(not(feature = "bare"))]
impl<'a, P: packed_struct::debug_fmt::PackedStructDebug> fmt::Display for FieldTable<'a, P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.fmt_fields(f) }
}

/// Goes into the Record implementation of every derived record.
#[macro_export]
macro_rules! derived_render { () => {
    fn render(v: &Self, flags: u8, w: &mut dyn core::fmt::Write) -> Option<core::fmt::Result> {
        if flags & 32 != 0 { return Some(core::write!(w, "{}", v)); }
        let mut d = packed_struct::debug_fmt::PackedStructDisplay::new(v);
        d.header = flags & 1 != 0;
        d.raw_decimal = flags & 2 != 0;
        d.raw_hex = flags & 4 != 0;
        d.raw_binary = flags & 8 != 0;
        d.fields = flags & 16 != 0;
        Some(core::write!(w, "{}", d))
    }
    fn field_table(v: &Self, w: &mut dyn core::fmt::Write) -> Option<core::fmt::Result> { Some(core::write!(w, "{}", $crate::FieldTable(v))) }
} }

pub type Tup<T> = (u8, Vec<T>, T);
pub type STup<T> = (T, [u8; 3], T);

fn leaves<T: Leafy>(v: &T) -> Vec<i128> { let mut o = vec![]; v.put(&mut o); o }
fn mk<T: Leafy>(v: &[i128]) -> T { T::take(&mut v.iter()) }

fn no_heap<T>() -> T { panic!("harness: containers need an allocator") }
pub trait Ops: Sync {
    fn info(&self) -> &'static RecInfo;
    fn pack(&self, v: &[i128]) -> Lib<PR<Vec<u8>>>;
    /// the array must have the packed length
    fn unpack_array(&self, b: &[u8]) -> Lib<PR<Vec<i128>>>;
    fn unpack(&self, b: &[u8]) -> Lib<PR<Vec<i128>>>;
    fn pack_into(&self, v: &[i128], out: &mut [u8]) -> Lib<PR<()>>;
    fn pack_to_vec(&self, _v: &[i128]) -> Lib<PR<Vec<u8>>> { no_heap() }
    fn size(&self, v: Option<&[i128]>) -> Lib<PR<usize>>;
    fn packed_bits(&self) -> Lib<usize>;
    fn render(&self, v: &[i128], flags: u8, w: &mut dyn fmt::Write) -> Option<Lib<fmt::Result>>;
    fn field_table(&self, v: &[i128], w: &mut dyn fmt::Write) -> Option<Lib<fmt::Result>>;
    fn debug_rows(&self, v: &[i128]) -> Vec<String>;
    fn vec_unpack(&self, _b: &[u8]) -> Lib<PR<Vec<Vec<i128>>>> { no_heap() }
    fn vec_pack_into(&self, _v: &[Vec<i128>], _out: &mut [u8]) -> Lib<PR<()>> { no_heap() }
    fn vec_to_vec(&self, _v: &[Vec<i128>]) -> Lib<PR<Vec<u8>>> { no_heap() }
    fn vec_size(&self, _v: Option<&[Vec<i128>]>) -> Lib<PR<usize>> { no_heap() }
    /// (u8, Vec<T>, T)
    fn tup_unpack(&self, _b: &[u8]) -> Lib<PR<(u8, Vec<Vec<i128>>, Vec<i128>)>> { no_heap() }
    fn tup_pack_into(&self, _a: u8, _v: &[Vec<i128>], _t: &[i128], _out: &mut [u8]) -> Lib<PR<()>> { no_heap() }
    fn tup_to_vec(&self, _a: u8, _v: &[Vec<i128>], _t: &[i128]) -> Lib<PR<Vec<u8>>> { no_heap() }
    fn tup_size(&self, _v: Option<(u8, &[Vec<i128>], &[i128])>) -> Lib<PR<usize>> { no_heap() }
    /// (T, [u8; 3], T)
    fn stup_unpack(&self, b: &[u8]) -> Lib<PR<(Vec<i128>, [u8; 3], Vec<i128>)>>;
    fn stup_pack_into(&self, a: &[i128], m: [u8; 3], t: &[i128], out: &mut [u8]) -> Lib<PR<()>>;
    fn stup_size(&self, v: Option<(&[i128], &[i128])>) -> Lib<PR<usize>>;
    /// size of the Rust value, for heap bounds
    fn rust_size(&self) -> usize;
}

pub struct RecOps<D>(pub PhantomData<D>);
unsafe impl<D> Sync for RecOps<D> {}
impl<D: Def> RecOps<D> {
    const I: &'static RecInfo = &D::INFO;
    pub const NEW: RecOps<D> = RecOps(PhantomData);
}
use packed_struct::types::bits::ByteArray;

impl<D: Def> Ops for RecOps<D> {
    fn info(&self) -> &'static RecInfo { Self::I }
    fn pack(&self, v: &[i128]) -> Lib<PR<Vec<u8>>> {
        let x: D::T = mk(v);
        Ok(call(|| x.pack())?.map(|b| b.as_bytes_slice().to_vec()))
    }
    fn unpack_array(&self, b: &[u8]) -> Lib<PR<Vec<i128>>> {
        let mut a = <<D::T as PackedStruct>::ByteArray as ByteArray>::new(0);
        a.as_mut_bytes_slice().copy_from_slice(b);
        Ok(call(|| D::T::unpack(&a))?.map(|x| leaves(&x)))
    }
    fn unpack(&self, b: &[u8]) -> Lib<PR<Vec<i128>>> { Ok(call(|| D::T::unpack_from_slice(b))?.map(|x| leaves(&x))) }
    fn pack_into(&self, v: &[i128], out: &mut [u8]) -> Lib<PR<()>> { let x: D::T = mk(v); call(|| x.pack_to_slice(out)) }
    #[cfg(not(feature = "bare"))]
    fn pack_to_vec(&self, v: &[i128]) -> Lib<PR<Vec<u8>>> { let x: D::T = mk(v); call(|| x.pack_to_vec()) }
    fn size(&self, v: Option<&[i128]>) -> Lib<PR<usize>> {
        let x: Option<D::T> = v.map(mk);
        call(|| <D::T as PackedStructSlice>::packed_bytes_size(x.as_ref()))
    }
    fn packed_bits(&self) -> Lib<usize> { call(|| <D::T as PackedStructInfo>::packed_bits()) }
    fn render(&self, v: &[i128], flags: u8, w: &mut dyn fmt::Write) -> Option<Lib<fmt::Result>> {
        let x: D::T = mk(v);
        match call(|| D::render(&x, flags, w)) { Ok(None) => None, Ok(Some(r)) => Some(Ok(r)), Err(p) => Some(Err(p)) }
    }
    fn field_table(&self, v: &[i128], w: &mut dyn fmt::Write) -> Option<Lib<fmt::Result>> {
        let x: D::T = mk(v);
        match call(|| D::field_table(&x, w)) { Ok(None) => None, Ok(Some(r)) => Some(Ok(r)), Err(p) => Some(Err(p)) }
    }
    fn debug_rows(&self, v: &[i128]) -> Vec<String> { let x: D::T = mk(v); D::debug_rows(&x) }
    #[cfg(not(feature = "bare"))]
    fn vec_unpack(&self, b: &[u8]) -> Lib<PR<Vec<Vec<i128>>>> {
        Ok(call(|| Vec::<D::T>::unpack_from_slice(b))?.map(|x| x.iter().map(leaves).collect()))
    }
    #[cfg(not(feature = "bare"))]
    fn vec_pack_into(&self, v: &[Vec<i128>], out: &mut [u8]) -> Lib<PR<()>> {
        let x: Vec<D::T> = v.iter().map(|v| mk(v)).collect();
        call(|| x.pack_to_slice(out))
    }
    #[cfg(not(feature = "bare"))]
    fn vec_to_vec(&self, v: &[Vec<i128>]) -> Lib<PR<Vec<u8>>> {
        let x: Vec<D::T> = v.iter().map(|v| mk(v)).collect();
        call(|| x.pack_to_vec())
    }
    #[cfg(not(feature = "bare"))]
    fn vec_size(&self, v: Option<&[Vec<i128>]>) -> Lib<PR<usize>> {
        let x: Option<Vec<D::T>> = v.map(|v| v.iter().map(|v| mk(v)).collect());
        call(|| Vec::<D::T>::packed_bytes_size(x.as_ref()))
    }
    #[cfg(not(feature = "bare"))]
    fn tup_unpack(&self, b: &[u8]) -> Lib<PR<(u8, Vec<Vec<i128>>, Vec<i128>)>> {
        Ok(call(|| <Tup<D::T>>::unpack_from_slice(b))?.map(|x| (x.0, x.1.iter().map(leaves).collect(), leaves(&x.2))))
    }
    #[cfg(not(feature = "bare"))]
    fn tup_pack_into(&self, a: u8, v: &[Vec<i128>], t: &[i128], out: &mut [u8]) -> Lib<PR<()>> {
        let x: Tup<D::T> = (a, v.iter().map(|v| mk(v)).collect(), mk(t));
        call(|| x.pack_to_slice(out))
    }
    #[cfg(not(feature = "bare"))]
    fn tup_to_vec(&self, a: u8, v: &[Vec<i128>], t: &[i128]) -> Lib<PR<Vec<u8>>> {
        let x: Tup<D::T> = (a, v.iter().map(|v| mk(v)).collect(), mk(t));
        call(|| x.pack_to_vec())
    }
    #[cfg(not(feature = "bare"))]
    fn tup_size(&self, v: Option<(u8, &[Vec<i128>], &[i128])>) -> Lib<PR<usize>> {
        let x: Option<Tup<D::T>> = v.map(|(a, v, t)| (a, v.iter().map(|v| mk(v)).collect(), mk(t)));
        call(|| <Tup<D::T>>::packed_bytes_size(x.as_ref()))
    }
    fn stup_unpack(&self, b: &[u8]) -> Lib<PR<(Vec<i128>, [u8; 3], Vec<i128>)>> {
        Ok(call(|| <STup<D::T>>::unpack_from_slice(b))?.map(|x| (leaves(&x.0), x.1, leaves(&x.2))))
    }
    fn stup_pack_into(&self, a: &[i128], m: [u8; 3], t: &[i128], out: &mut [u8]) -> Lib<PR<()>> {
        let x: STup<D::T> = (mk(a), m, mk(t));
        call(|| x.pack_to_slice(out))
    }
    fn stup_size(&self, v: Option<(&[i128], &[i128])>) -> Lib<PR<usize>> {
        let x: Option<STup<D::T>> = v.map(|(a, t)| (mk(a), [0; 3], mk(t)));
        call(|| <STup<D::T>>::packed_bytes_size(x.as_ref()))
    }
    fn rust_size(&self) -> usize { std::mem::size_of::<D::T>() }
}
