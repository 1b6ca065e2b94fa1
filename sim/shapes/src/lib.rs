//! Compositions of scripted components: vectors, tuples of every arity, nested tuples, derived records.
#![allow(arithmetic_overflow, unconditional_panic, unused, deprecated)]
use packed_struct::debug_fmt::PackedStructDebug;
use packed_struct::prelude::*;
use packed_struct::types::bits::ByteArray;
use simcore::ops::{FieldTable, PR};
use simcore::probe::*;
use simcore::seam::{call, Lib};
use std::fmt;
use std::marker::PhantomData;

#[macro_use]
mod recs;
mod list;
pub use list::SHAPES;
pub use recs::*;

/// A value of some shape.
pub trait Obj {
    fn tags(&self) -> Vec<u16>;
    fn tokens(&self) -> Vec<u64>;
    fn regions(&self) -> Vec<Region>;
    fn image(&self) -> Vec<u8> { self.regions().into_iter().flat_map(|r| r.bytes).collect() }
    fn pack_into(&self, out: &mut [u8]) -> Lib<PR<()>>;
    fn to_vec(&self) -> Lib<PR<Vec<u8>>>;
    fn size(&self) -> Lib<PR<usize>>;
    fn pack_array(&self) -> Option<Lib<PR<Vec<u8>>>>;
    fn render(&self, flags: u8, w: &mut dyn fmt::Write) -> Option<Lib<fmt::Result>>;
}
pub trait Shape: Sync {
    fn name(&self) -> &'static str;
    fn lay(&self) -> Lay;
    fn make(&self, lens: &[u64]) -> Box<dyn Obj>;
    /// as `make`, with component tags counted from another number
    fn make_at(&self, lens: &[u64], tag: u16) -> Box<dyn Obj>;
    fn unpack(&self, b: &[u8]) -> Lib<PR<Box<dyn Obj>>>;
    fn unpack_array(&self, b: &[u8]) -> Option<Lib<PR<Box<dyn Obj>>>>;
    fn static_size(&self) -> Lib<PR<usize>>;
    fn can_array(&self) -> bool;
    fn can_render(&self) -> bool;
    fn rust_size(&self) -> usize;
    /// memory an element of the variable part occupies
    fn elem_size(&self) -> usize;
}

pub trait Cap<T>: 'static {
    const ARRAY: bool = false;
    const RENDER: bool = false;
    fn pack_array(_: &T) -> Option<Lib<PR<Vec<u8>>>> { None }
    fn unpack_array(_: &[u8]) -> Option<Lib<PR<T>>> { None }
    fn render(_: &T, _: u8, _: &mut dyn fmt::Write) -> Option<Lib<fmt::Result>> { None }
}
pub struct Slice;
pub struct Rec;
pub struct Den;
impl<T> Cap<T> for Slice {}
fn pa<T: PackedStruct>(t: &T) -> Lib<PR<Vec<u8>>> { Ok(call(|| t.pack())?.map(|a| a.as_bytes_slice().to_vec())) }
fn ua<T: PackedStruct>(b: &[u8]) -> Option<Lib<PR<T>>> {
    let mut a = <T::ByteArray as ByteArray>::new(0);
    if b.len() != a.as_bytes_slice().len() { return None; }
    a.as_mut_bytes_slice().copy_from_slice(b);
    Some(call(|| T::unpack(&a)))
}
impl<T: PackedStruct> Cap<T> for Rec {
    const ARRAY: bool = true;
    fn pack_array(t: &T) -> Option<Lib<PR<Vec<u8>>>> { Some(pa(t)) }
    fn unpack_array(b: &[u8]) -> Option<Lib<PR<T>>> { ua(b) }
}
impl<T: PackedStruct + PackedStructDebug + fmt::Display> Cap<T> for Den {
    const ARRAY: bool = true;
    const RENDER: bool = true;
    fn pack_array(t: &T) -> Option<Lib<PR<Vec<u8>>>> { Some(pa(t)) }
    fn unpack_array(b: &[u8]) -> Option<Lib<PR<T>>> { ua(b) }
    fn render(v: &T, flags: u8, w: &mut dyn fmt::Write) -> Option<Lib<fmt::Result>> {
        Some(call(|| {
            if flags & 64 != 0 { return write!(w, "{}", FieldTable(v)); }
            if flags & 32 != 0 { return write!(w, "{}", v); }
            let mut d = packed_struct::debug_fmt::PackedStructDisplay::new(v);
            d.header = flags & 1 != 0;
            d.raw_decimal = flags & 2 != 0;
            d.raw_hex = flags & 4 != 0;
            d.raw_binary = flags & 8 != 0;
            d.fields = flags & 16 != 0;
            write!(w, "{}", d)
        }))
    }
}

struct Val<T, K>(T, PhantomData<K>);
impl<T: Comp + PackedStructSlice, K: Cap<T>> Obj for Val<T, K> {
    fn tags(&self) -> Vec<u16> { let mut v = vec![]; self.0.tags(&mut v); v }
    fn tokens(&self) -> Vec<u64> { let mut v = vec![]; self.0.tokens(&mut v); v }
    fn regions(&self) -> Vec<Region> { let mut v = vec![]; self.0.regions(&mut v); v }
    fn pack_into(&self, out: &mut [u8]) -> Lib<PR<()>> { call(|| self.0.pack_to_slice(out)) }
    fn to_vec(&self) -> Lib<PR<Vec<u8>>> { call(|| self.0.pack_to_vec()) }
    fn size(&self) -> Lib<PR<usize>> { call(|| T::packed_bytes_size(Some(&self.0))) }
    fn pack_array(&self) -> Option<Lib<PR<Vec<u8>>>> { K::pack_array(&self.0) }
    fn render(&self, flags: u8, w: &mut dyn fmt::Write) -> Option<Lib<fmt::Result>> { K::render(&self.0, flags, w) }
}

pub struct Sh<T, K> { pub name: &'static str, pub p: PhantomData<(T, K)> }
unsafe impl<T, K> Sync for Sh<T, K> {}
impl<T: Comp + PackedStructSlice + 'static, K: Cap<T>> Shape for Sh<T, K> {
    fn name(&self) -> &'static str { self.name }
    fn lay(&self) -> Lay { T::lay() }
    fn make(&self, lens: &[u64]) -> Box<dyn Obj> { Box::new(Val::<T, K>(T::make(&mut Gen::new(lens)), PhantomData)) }
    fn make_at(&self, lens: &[u64], tag: u16) -> Box<dyn Obj> { let mut g = Gen::new(lens); g.tag = tag; Box::new(Val::<T, K>(T::make(&mut g), PhantomData)) }
    fn unpack(&self, b: &[u8]) -> Lib<PR<Box<dyn Obj>>> { Ok(call(|| T::unpack_from_slice(b))?.map(|x| Box::new(Val::<T, K>(x, PhantomData)) as Box<dyn Obj>)) }
    fn unpack_array(&self, b: &[u8]) -> Option<Lib<PR<Box<dyn Obj>>>> { K::unpack_array(b).map(|r| r.map(|r| r.map(|x| Box::new(Val::<T, K>(x, PhantomData)) as Box<dyn Obj>))) }
    fn static_size(&self) -> Lib<PR<usize>> { call(|| T::packed_bytes_size(None)) }
    fn can_array(&self) -> bool { K::ARRAY }
    fn can_render(&self) -> bool { K::RENDER }
    fn rust_size(&self) -> usize { std::mem::size_of::<T>() }
    fn elem_size(&self) -> usize { T::elem() }
}
#[macro_export]
macro_rules! sh { ($k:ident, $t:ty) => { &$crate::Sh::<$t, $crate::$k> { name: stringify!($t), p: std::marker::PhantomData } as &dyn $crate::Shape } }
