//! Questions about the parts of the library that are not declared records of the zoo: other compositions, components
//! that fail, bit-limited integers, helper traits. The same source is compiled against every build of the library;
//! answers are texts, so that answers of different builds can be compared.
use crate::remote::Sink;
use crate::seam::{call, last_heap, Lib};
use packed_struct::prelude::*;
use packed_struct::PackedStructInfo;
use packed_struct::types::bits::{ByteArray, NumberOfBits, NumberOfBytes};
use std::fmt::{Debug, Display, Write};
use std::hash::{Hash, Hasher};
#[cfg(not(feature = "full"))]
#[allow(unused_imports)]
use std::vec::Vec;

/// A component that refuses certain values, in its own words.
#[derive(Clone, Debug, PartialEq, Default, Copy)]
pub struct Touchy(pub u8);
fn refusal(x: u8) -> PackingError {
    use PackingError::*;
    match x % 10 { 0 => InvalidValue, 1 => BitsError, 2 => BufferTooSmall, 3 => NotImplemented, 4 => InstanceRequiredForSize, 5 => MoreThanOneDynamicType,
        6 => BufferSizeMismatch { expected: 3, actual: x as usize }, 7 => BufferModMismatch { actual_size: x as usize, modulo_required: 5 }, 8 => SliceIndexingError { slice_len: 9 }, _ => InternalError }
}
impl PackedStruct for Touchy {
    type ByteArray = [u8; 1];
    fn pack(&self) -> Result<[u8; 1], PackingError> { match self.0 { 0xE0..=0xE9 => Err(refusal(self.0 - 0xE0)), 0xEF => panic!("component"), x => Ok([x]) } }
    fn unpack(b: &[u8; 1]) -> Result<Self, PackingError> { match b[0] { 0xF0..=0xF9 => Err(refusal(b[0] - 0xF0)), 0xFF => panic!("component"), x => Ok(Touchy(x)) } }
}
impl PackedStructInfo for Touchy { fn packed_bits() -> usize { 8 } }

#[derive(PackedStruct, Debug, Clone, PartialEq)]
#[packed_struct(bit_numbering = "msb0", endian = "lsb")]
pub struct Inner { #[packed_field(bits = "0..=3")] n: Integer<u8, packed_bits::Bits<4>>, #[packed_field(bits = "4..=11", element_size_bits = "8")] t: Touchy, #[packed_field(bits = "12")] f: bool, #[packed_field(bits = "13..=23")] z: Integer<i16, packed_bits::Bits<11>> }
#[derive(PackedStruct, Debug, Clone, PartialEq)]
#[packed_struct(bit_numbering = "msb0", size_bytes = "14", endian = "msb")]
pub struct Outer { #[packed_field(bits = "4..=7", ty = "enum")] m: EnumCatchAll<crate::enums::EA>, #[packed_field(bytes = "1..=3")] a: Inner, #[packed_field(bits = "33..=80", element_size_bytes = "3")] b: [Inner; 2], #[packed_field(bytes = "11..=12", element_size_bytes = "1")] c: [Touchy; 2], #[packed_field(bits = "104..=106")] r: ReservedOnes<packed_bits::Bits<3>> }

/// What the library wrote, or that it panicked. No heap.
fn show(f: impl FnOnce(&mut Sink) -> std::fmt::Result) -> String {
    let mut s = Sink { text: String::new(), room: 1 << 40 };
    match call(|| f(&mut s)) { Ok(Ok(())) => s.text, Ok(Err(_)) => s.text + " (failed)", Err(_) => s.text + " (panicked)" }
}
fn lib<T: Debug>(out: &mut String, r: Lib<T>) { match r { Ok(x) => write!(out, " {:?};", x).unwrap(), Err(_) => out.push_str(" panicked;") } }

/// The answer, and whether any call that could do without a heap used it.
#[derive(PartialEq)]
pub struct Answer { pub text: String, pub heap: bool }

fn codec<T: PackedStructSlice + Debug>(fixed: bool, q: u64, b: &[u8]) -> Answer {
    let mut s = String::new();
    let mut heap = false;
    lib(&mut s, call(|| T::packed_bytes_size(None)));
    heap |= last_heap().requests > 0;
    let v = call(|| T::unpack_from_slice(b));
    heap |= last_heap().requests > 0;
    match v {
        Err(_) => s.push_str(" unpacking panicked"),
        Ok(Err(e)) => { write!(s, " refused {:?} {}", e, e).unwrap(); }
        Ok(Ok(v)) => {
            write!(s, " {}", show(|w| write!(w, "{:?}", v))).unwrap();
            let n = call(|| T::packed_bytes_size(Some(&v)));
            heap |= last_heap().requests > 0;
            let len = match n { Ok(Ok(n)) => n, _ => b.len() };
            lib(&mut s, n);
            // into a buffer that fits and into one that does not
            for len in [len, match q >> 8 & 7 { 0 => 0, 1 => len + 1, 2 => len.saturating_sub(1), 3 => 2 * len, k => len + k as usize * 3 - 12 }] {
                let mut o = vec![q as u8; len];
                let r = call(|| v.pack_to_slice(&mut o));
                heap |= last_heap().requests > 0;
                // what a failed operation leaves in the parts it reached is up to each build
                let show = matches!(r, Ok(Ok(())));
                write!(s, " into {}", len).unwrap();
                lib(&mut s, r);
                if show { write!(s, " {:02x?}", o).unwrap(); }
            }
        }
    }
    Answer { text: s, heap: heap && fixed }
}

struct Std<H>(H);
impl<H: Hasher> Hasher for Std<H> { fn finish(&self) -> u64 { self.0.finish() } fn write(&mut self, b: &[u8]) { self.0.write(b) } }
fn digest<T: Hash>(x: &T) -> u64 { let mut h = Std(std::collections::hash_map::DefaultHasher::new()); x.hash(&mut h); h.finish() }

fn integer<T, const N: usize>(p: u64, q: u64, b: &[u8], of: fn(u64) -> T) -> Answer
where T: Copy + Debug + Display + PartialEq + Hash, packed_bits::Bits<N>: NumberOfBits, Integer<T, packed_bits::Bits<N>>: SizedInteger<T, packed_bits::Bits<N>> + Into<T> + Copy, T: Into<Integer<T, packed_bits::Bits<N>>> {
    type By<const N: usize> = <<packed_bits::Bits<N> as NumberOfBits>::Bytes as NumberOfBytes>::AsBytes;
    let mut s = format!("{} bits, {} {};", N, <packed_bits::Bits<N> as NumberOfBits>::number_of_bits(), <packed_bits::Bits<N> as NumberOfBits>::byte_array_len());
    let (x, y) = (of(p), of(q));
    let mut heap = false;
    fn by<A: ByteArray>(r: Lib<Result<A, PackingError>>) -> Lib<Result<Vec<u8>, PackingError>> { r.map(|r| r.map(|a| a.as_bytes_slice().to_vec())) }
    let Ok((i, j)) = call(|| -> (Integer<T, packed_bits::Bits<N>>, Integer<T, packed_bits::Bits<N>>) { (<Integer<T, packed_bits::Bits<N>> as SizedInteger<T, packed_bits::Bits<N>>>::from_primitive(x), y.into()) }) else { return Answer { text: s + " panicked", heap } };
    let raw: T = i.into();
    write!(s, " {:?} {} {} {:?} {} {:x}", raw, show(|w| write!(w, "{:?}", i)), show(|w| write!(w, "{}", i)), Integer::<T, packed_bits::Bits<N>>::value_bit_mask(), i == j, digest(&i)).unwrap();
    lib(&mut s, by(call(|| i.to_msb_bytes()))); heap |= last_heap().requests > 0;
    lib(&mut s, by(call(|| i.to_lsb_bytes()))); heap |= last_heap().requests > 0;
    lib(&mut s, by(call(|| i.as_packed_msb().pack()))); heap |= last_heap().requests > 0;
    lib(&mut s, by(call(|| i.as_packed_lsb().pack()))); heap |= last_heap().requests > 0;
    let mut a = <By<N> as ByteArray>::new(0);
    for (o, x) in a.as_mut_bytes_slice().iter_mut().zip(b.iter().cycle()) { *o = *x }
    let t = |r: Lib<Result<Integer<T, packed_bits::Bits<N>>, PackingError>>| r.map(|r| r.map(|v| -> T { v.to_primitive() }));
    lib(&mut s, t(call(|| Integer::from_msb_bytes(&a)))); heap |= last_heap().requests > 0;
    lib(&mut s, t(call(|| Integer::from_lsb_bytes(&a)))); heap |= last_heap().requests > 0;
    lib(&mut s, t(call(|| MsbInteger::<T, packed_bits::Bits<N>, Integer<T, packed_bits::Bits<N>>>::unpack(&a).map(|v| *v)))); heap |= last_heap().requests > 0;
    lib(&mut s, t(call(|| LsbInteger::<T, packed_bits::Bits<N>, Integer<T, packed_bits::Bits<N>>>::unpack(&a).map(|v| *v)))); heap |= last_heap().requests > 0;
    lib(&mut s, t(call(|| LsbInteger::<T, packed_bits::Bits<N>, Integer<T, packed_bits::Bits<N>>>::unpack_from_slice(b).map(|v| *v)))); heap |= last_heap().requests > 0;
    let (m, l) = (i.as_packed_msb(), i.as_packed_lsb());
    write!(s, " {} {}", show(|w| write!(w, "{:?} {}", m, l)), show(|w| write!(w, "{} {:?}", m, l))).unwrap();
    Answer { text: s, heap }
}
fn native<T: IntegerAsBytes<AsBytes = [u8; N]> + Debug, const N: usize>(x: T, b: &[u8]) -> Answer {
    let mut s = String::new();
    let a: [u8; N] = std::array::from_fn(|i| b.get(i).copied().unwrap_or(i as u8));
    lib(&mut s, call(|| x.to_msb_bytes()));
    lib(&mut s, call(|| x.to_lsb_bytes()));
    lib(&mut s, call(|| T::from_msb_bytes(&a)));
    lib(&mut s, call(|| T::from_lsb_bytes(&a)));
    Answer { text: s, heap: last_heap().requests > 0 }
}
fn reserved<const N: usize>(b: &[u8]) -> Answer where packed_bits::Bits<N>: NumberOfBits {
    let mut s = String::new();
    let (z, o) = (ReservedZero::<packed_bits::Bits<N>>::default(), ReservedOne::<packed_bits::Bits<N>>::default());
    s.push_str(&show(|w| write!(w, "{} {:?} {} {:?}", z, z, o, o)));
    lib(&mut s, call(|| z.pack()).map(|r| r.map(|a| a.as_bytes_slice().to_vec())));
    lib(&mut s, call(|| o.pack()).map(|r| r.map(|a| a.as_bytes_slice().to_vec())));
    let heap = last_heap().requests > 0;
    lib(&mut s, call(|| ReservedOne::<packed_bits::Bits<N>>::unpack_from_slice(b)));
    lib(&mut s, call(|| <ReservedZero::<packed_bits::Bits<N>> as PackedStructInfo>::packed_bits()));
    Answer { text: s, heap }
}
fn array<const N: usize>(p: u64, b: &[u8]) -> Answer {
    let mut s = String::new();
    let mut a: [u8; N] = std::array::from_fn(|i| b.get(i).copied().unwrap_or(i as u8));
    let by = (p % N as u64) as usize;
    lib(&mut s, call(|| { ByteArray::rotate_right(&mut a, by); a }));
    lib(&mut s, call(|| <[u8; N] as ByteArray>::new(p as u8)));
    lib(&mut s, call(|| <[u8; N] as ByteArray>::len()));
    lib(&mut s, call(|| <packed_struct::types::bits::Bytes<N> as NumberOfBytes>::number_of_bytes()));
    Answer { text: s, heap: last_heap().requests > 0 }
}
fn error(p: u64) -> Answer {
    let e = refusal((p % 10) as u8);
    Answer { text: show(|w| write!(w, "{} {:?} {} {:?}", e, e, e == refusal((p >> 8) as u8), std::fmt::Error::from(e))), heap: last_heap().requests > 0 }
}
#[cfg(not(feature = "bare"))]
fn rendering(p: u64, q: u64, b: &[u8]) -> Answer {
    let at = |i: usize| b.get(i).copied().unwrap_or(i as u8);
    let inner = |i: usize| Inner { n: at(i).into(), t: Touchy(at(i + 1)), f: at(i) & 1 == 1, z: ((at(i + 1) as i16) << 4).into() };
    let v = Outer { m: EnumCatchAll::from_primitive(at(0) & 15).unwrap(), a: inner(0), b: [inner(1), inner(2)], c: [Touchy(at(3)), Touchy(at(4))], r: Default::default() };
    let mut d = v.packed_struct_display_formatter();
    d.header = p & 1 == 0; d.raw_decimal = p & 2 == 0; d.raw_hex = p & 4 == 0; d.raw_binary = p & 8 == 0; d.fields = p & 16 == 0;
    let mut s = Sink { text: String::new(), room: if q & 3 == 0 { (q >> 2) as usize % 900 } else { 1 << 40 } };
    let r = call(|| if p & 32 == 0 { write!(s, "{}", d) } else { write!(s, "{}", crate::ops::FieldTable(&v)) });
    let mut t = s.text;
    lib(&mut t, r);
    lib(&mut t, call(|| v.pack_to_vec()));
    Answer { text: t, heap: false }
}

macro_rules! compositions { ($name:ident, $count:ident, $fixed:expr; $($t:ty),* $(,)?) => {
    fn $name(k: usize, q: u64, b: &[u8]) -> (&'static str, Answer) {
        let all: &[(&'static str, fn(bool, u64, &[u8]) -> Answer)] = &[$((stringify!($t), codec::<$t>)),*];
        (all[k % all.len()].0, all[k % all.len()].1($fixed, q, b))
    }
    pub const $count: usize = [$(stringify!($t)),*].len();
} }
type T3 = (u8, [u8; 2], bool);
type B<const N: usize> = packed_bits::Bits<N>;
compositions!(fixed, FIXED, true; (), (u8,), T3, (Touchy, Touchy, Touchy), (u8, (u8, (u8, bool))), (u8, i8, bool, u8, i8, u8, u8, u8, [u8; 5], u8), [u8; 0], [u8; 300], ((), ()),
    (Inner, u8), Inner, Outer, (Outer, Inner, (Touchy, bool)), ReservedZero<B<9>>, (ReservedOnes<B<17>>, [u8; 7], Touchy), MsbInteger<u16, B<12>, Integer<u16, B<12>>>,
    (LsbInteger<u32, B<27>, Integer<u32, B<27>>>, MsbInteger<i64, B<55>, Integer<i64, B<55>>>), LsbInteger<i64, B<63>, Integer<i64, B<63>>>, bool, i8);
#[cfg(not(feature = "bare"))]
compositions!(dynamic, DYNAMIC, false; (Vec<u8>,), ((u8, Vec<[u8; 3]>), i8), Vec<Vec<u8>>, Vec<()>, ((), Vec<()>), (Vec<u8>, Vec<u8>), (u8, (u8, (u8, Vec<bool>))), Vec<T3>, Vec<(u8, Vec<u8>)>,
    (u8, i8, bool, u8, i8, u8, u8, u8, Vec<[u8; 5]>, u8), Vec<[u8; 0]>, (Vec<[u8; 300]>, [u8; 7]), Vec<ReservedOnes<B<17>>>, Vec<Touchy>, (Vec<Touchy>, Touchy), (bool, Vec<Inner>, Outer), Vec<Outer>,
    Vec<LsbInteger<u16, B<13>, Integer<u16, B<13>>>>, (Vec<MsbInteger<i32, B<17>, Integer<i32, B<17>>>>, Inner), Vec<Inner>);

macro_rules! widths { ($p:expr, $q:expr, $b:expr; $($u:ident $i:ident: $($n:literal)*;)*) => { {
    type F = fn(u64, u64, &[u8]) -> Answer;
    let all: &[F] = &[$($(|p, q, b| integer::<$u, $n>(p, q, b, |x| x as $u), |p, q, b| integer::<$i, $n>(p, q, b, |x| x as $i),)*)*];
    all[($p >> 56) as usize % all.len()]($p, $q, $b)
} } }

/// What can be asked; the first `COMMON` questions can be asked of a node without an allocator too.
pub const COMMON: u64 = 6;
pub const ALL: u64 = 8;
/// The question in words, and its answer.
pub fn ask(what: u64, p: u64, q: u64, b: &[u8]) -> (String, Answer) {
    match what {
        0 => { let (n, a) = fixed((p >> 32) as usize, q, b); (format!("bytes {:02x?} as {}", b, n), a) }
        1 => ("bit-limited integer".to_string() + &format!(" {:#x} {:#x} {:02x?}", p, q, b), widths!(p, q, b; u8 i8: 1 2 3 4 5 6 7 8; u16 i16: 9 10 11 12 13 14 15 16; u32 i32: 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32;
            u64 i64: 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64;)),
        2 => (format!("native integer {:#x} {:02x?}", p, b), match q % 8 { 0 => native(p as u8, b), 1 => native(p as i8, b), 2 => native(p as u16, b), 3 => native(p as i16, b), 4 => native(p as u32, b), 5 => native(p as i32, b), 6 => native(p, b), _ => native(p as i64, b) }),
        3 => ("reserved bits".into(), match p % 8 { 0 => reserved::<1>(b), 1 => reserved::<3>(b), 2 => reserved::<8>(b), 3 => reserved::<9>(b), 4 => reserved::<17>(b), 5 => reserved::<32>(b), 6 => reserved::<63>(b), _ => reserved::<64>(b) }),
        4 => (format!("byte array {:#x} {:02x?}", p, b), match q % 5 { 0 => array::<1>(p, b), 1 => array::<2>(p, b), 2 => array::<5>(p, b), 3 => array::<8>(p, b), _ => array::<40>(p, b) }),
        5 => ("error".into(), error(p)),
        #[cfg(not(feature = "bare"))]
        6 => { let (n, a) = dynamic((p >> 32) as usize, q, b); (format!("bytes {:02x?} as {}", b, n), a) }
        #[cfg(not(feature = "bare"))]
        7 => (format!("rendering {:02x?}", b), rendering(p, q, b)),
        _ => panic!("harness: unknown question"),
    }
}
/// A length that fits the type of question 0 or 6, as far as that is fixed.
pub fn fitting(what: u64, p: u64) -> usize {
    let k = (p >> 32) as usize;
    const F: [usize; FIXED] = [0, 1, 4, 3, 4, 14, 0, 300, 0, 4, 3, 14, 19, 2, 11, 2, 11, 8, 1, 1];
    const D: [usize; 20] = [3, 5, 0, 0, 0, 0, 5, 8, 0, 14, 0, 307, 6, 5, 5, 21, 28, 6, 9, 6];
    if what == 0 { F[k % F.len()] } else { D[k % D.len()] }
}
