//! Further containers: real tuples of every arity, nested ones and vectors of tuples, composed by the library over
//! `Dyn`, an element whose three operations are those of the real record type under test.
use crate::wire::Msg;
use packed_struct::prelude::*;
use packed_struct::PackingError;
use simcore::model::*;
use simcore::ops::{Ops, PR};
use simcore::seam::{call, outside, Lib};
use std::cell::Cell;

/// What a container is made of, in wire order.
#[derive(Clone, Copy, PartialEq)]
pub enum P { /** a record */ R, /** so many plain bytes */ B(usize), /** Vec<T> */ RV, /** Vec<u8> */ BV, /** Vec<(T, u8)> */ PV, /** nested tuple of the next so many parts */ N(usize) }
use P::*;

pub const NWIDE: u64 = 14;
pub const WIDE: [(&str, &[P]); NWIDE as usize] = [
    ("(T,)", &[R]),
    ("(Vec<T>,u8)", &[RV, B(1)]),
    ("(T,Vec<u8>)", &[R, BV]),
    ("Vec<(T,u8)>", &[PV]),
    ("((u8,Vec<T>),T,u8)", &[N(2), B(1), RV, R, B(1)]),
    ("(u8,[u8;1],Vec<u8>,T)", &[B(1), B(1), BV, R]),
    ("(T,u8,Vec<T>,T,u8)", &[R, B(1), RV, R, B(1)]),
    ("(u8,T,T,u8,T,Vec<T>)", &[B(1), R, R, B(1), R, RV]),
    ("(Vec<T>,T,u8,T,u8,u8,T)", &[RV, R, B(1), R, B(1), B(1), R]),
    ("(u8,u8,T,u8,T,u8,Vec<T>,u8)", &[B(1), B(1), R, B(1), R, B(1), RV, B(1)]),
    ("(T,u8,T,T,u8,T,(),[u8;3],T)", &[R, B(1), R, R, B(1), R, B(0), B(3), R]),
    ("(u8,T,u8,T,Vec<T>,T,u8,[u8;2],T,u8)", &[B(1), R, B(1), R, RV, R, B(1), B(2), R, B(1)]),
    ("(u8,u8,u8,u8,u8,u8,u8,u8,T,Vec<u8>)", &[B(1), B(1), B(1), B(1), B(1), B(1), B(1), B(1), R, BV]),
    ("(T,(u8,T),(T,(T,[u8;2])))", &[R, N(2), B(1), R, N(2), R, N(2), R, B(2)]),
];
pub fn parts(k: u64) -> &'static [P] { WIDE[k as usize].1 }
/// Bytes the parts of fixed length take.
pub fn fixed_len(k: u64, n: usize) -> usize { parts(k).iter().map(|p| match p { R => n, B(b) => *b, _ => 0 }).sum() }
pub fn fixed_records(k: u64) -> usize { parts(k).iter().filter(|p| **p == R).count() }
pub fn fixed_bytes(k: u64) -> usize { parts(k).iter().map(|p| if let B(b) = p { *b } else { 0 }).sum() }
pub fn variable(k: u64) -> Option<P> { parts(k).iter().copied().find(|p| matches!(p, RV | BV | PV)) }
pub fn is_tuple(k: u64) -> bool { !matches!(parts(k)[0], PV) }

/// Offsets of the record images and of the plain bytes, or the refusal the length must cause.
pub fn layout(k: u64, n: usize, len: usize) -> PR<(Vec<usize>, Vec<usize>)> {
    let fixed = fixed_len(k, n);
    match variable(k) {
        None => if len != fixed { return Err(PackingError::BufferSizeMismatch { expected: fixed, actual: len }); },
        Some(_) => if is_tuple(k) && len < fixed {
            // of a nested tuple only what the outer one cannot place is reported by the outer one
            if let [N(_), B(b), RV, ..] = parts(k) {
                let outer = fixed - b;
                if len < outer { return Err(PackingError::BufferSizeMismatch { expected: outer, actual: len }); }
                return Err(PackingError::BufferSizeMismatch { expected: *b, actual: len - outer });
            }
            return Err(PackingError::BufferSizeMismatch { expected: fixed, actual: len });
        },
    }
    let var = len - fixed;
    let unit = match variable(k) { Some(RV) => n, Some(PV) => n + 1, _ => 1 };
    if var % unit != 0 { return Err(PackingError::BufferModMismatch { actual_size: var, modulo_required: unit }); }
    let (mut rec, mut raw, mut at) = (vec![], vec![], 0);
    for p in parts(k) { match p {
        R => { rec.push(at); at += n; }
        B(b) => { raw.extend(at..at + b); at += b; }
        RV => { rec.extend((0..var / n).map(|j| at + j * n)); at += var; }
        BV => { raw.extend(at..at + var); at += var; }
        PV => { for j in 0..var / unit { rec.push(at + j * unit); raw.push(at + j * unit + n); } at += var; }
        N(_) => {}
    } }
    Ok((rec, raw))
}
/// Offsets of the records in front of the part of variable length.
pub fn in_front(k: u64, n: usize) -> Vec<usize> {
    let (mut rec, mut at) = (vec![], 0);
    for p in parts(k) { match p { R => { rec.push(at); at += n; } B(b) => at += b, RV | BV | PV => return rec, N(_) => {} } }
    vec![]
}
pub fn len_of(k: u64, n: usize, m: &Msg) -> usize { m.elems.len() * n + m.raw.len() }
pub fn encode(k: u64, i: &RecInfo, m: &Msg) -> Vec<u8> {
    let len = len_of(k, i.nbytes, m);
    let (rec, raw) = layout(k, i.nbytes, len).expect("harness: a message of another container");
    let mut b = vec![0; len];
    for (o, e) in rec.iter().zip(&m.elems) { b[*o..*o + i.nbytes].copy_from_slice(&i.encode(e)); }
    for (o, x) in raw.iter().zip(&m.raw) { b[*o] = *x; }
    b
}

thread_local! { static CUR: Cell<Option<&'static dyn Ops>> = const { Cell::new(None) }; }
/// A record of the type under test, as a component of the library's containers.
#[derive(Clone)]
pub struct Dyn(Vec<i128>);
fn cur() -> &'static dyn Ops { CUR.with(|c| c.get()).expect("harness: no record type selected") }
fn pass<T>(r: Lib<PR<T>>) -> PR<T> { match r { Ok(r) => r, Err(p) => std::panic::resume_unwind(Box::new(p.0)) } }
impl PackedStructSlice for Dyn {
    fn pack_to_slice(&self, out: &mut [u8]) -> PR<()> { pass(outside(|| cur().pack_into(&self.0, out))) }
    fn unpack_from_slice(b: &[u8]) -> PR<Self> { pass(outside(|| cur().unpack(b))).map(Dyn) }
    fn packed_bytes_size(v: Option<&Self>) -> PR<usize> { pass(outside(|| cur().size(v.map(|v| &v.0[..])))) }
}
impl Drop for Dyn { fn drop(&mut self) { outside(|| self.0 = Vec::new()) } }

/// Parts of a message, handed out in wire order.
struct Src<'a> { k: u64, e: std::slice::Iter<'a, Vec<i128>>, b: std::slice::Iter<'a, u8>, nvar: usize }
impl<'a> Src<'a> {
    fn new(k: u64, m: &'a Msg) -> Self {
        let nvar = match variable(k) { Some(RV | PV) => m.elems.len() - fixed_records(k), Some(BV) => m.raw.len() - fixed_bytes(k), _ => 0 };
        Src { k, e: m.elems.iter(), b: m.raw.iter(), nvar }
    }
}
trait Part: Sized { fn take(s: &mut Src) -> Self; fn put(&self, m: &mut Msg); }
impl Part for Dyn {
    fn take(s: &mut Src) -> Self { let _ = s.k; Dyn(s.e.next().expect("harness: too few records").clone()) }
    fn put(&self, m: &mut Msg) { m.elems.push(self.0.clone()) }
}
impl Part for u8 { fn take(s: &mut Src) -> Self { *s.b.next().expect("harness: too few bytes") } fn put(&self, m: &mut Msg) { m.raw.push(*self) } }
impl Part for () { fn take(_: &mut Src) -> Self {} fn put(&self, _: &mut Msg) {} }
impl<const N: usize> Part for [u8; N] { fn take(s: &mut Src) -> Self { core::array::from_fn(|_| u8::take(s)) } fn put(&self, m: &mut Msg) { m.raw.extend(self) } }
impl<T: Part> Part for Vec<T> { fn take(s: &mut Src) -> Self { (0..s.nvar).map(|_| T::take(s)).collect() } fn put(&self, m: &mut Msg) { for x in self { x.put(m) } } }
macro_rules! tuple { ($($t:ident $i:tt),*) => { impl<$($t: Part),*> Part for ($($t,)*) {
    fn take(s: &mut Src) -> Self { ($($t::take(s),)*) }
    fn put(&self, m: &mut Msg) { $(self.$i.put(m);)* }
} } }
tuple!(A 0); tuple!(A 0, B 1); tuple!(A 0, B 1, C 2); tuple!(A 0, B 1, C 2, D 3); tuple!(A 0, B 1, C 2, D 3, E 4);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5); tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6); tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8); tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);

enum Do<'a> { Unpack(&'a [u8]), Pack(&'a Msg, &'a mut [u8]), ToVec(&'a Msg), Size(Option<&'a Msg>) }
enum Done { Msg(Msg), Unit, Bytes(Vec<u8>), Size(usize) }
fn go<C: Part + PackedStructSlice>(k: u64, d: Do) -> Lib<PR<Done>> {
    Ok(match d {
        Do::Unpack(b) => call(|| C::unpack_from_slice(b))?.map(|c| { let mut m = Msg::default(); c.put(&mut m); Done::Msg(m) }),
        Do::Pack(m, out) => { let c = C::take(&mut Src::new(k, m)); call(|| c.pack_to_slice(out))?.map(|_| Done::Unit) }
        Do::ToVec(m) => { let c = C::take(&mut Src::new(k, m)); call(|| c.pack_to_vec())?.map(Done::Bytes) }
        Do::Size(m) => { let c = m.map(|m| C::take(&mut Src::new(k, m))); call(|| C::packed_bytes_size(c.as_ref()))?.map(Done::Size) }
    })
}
type V = Vec<Dyn>;
fn run(k: u64, o: &'static dyn Ops, d: Do) -> Lib<PR<Done>> {
    CUR.with(|c| c.set(Some(o)));
    match k {
        0 => go::<(Dyn,)>(k, d),
        1 => go::<(V, u8)>(k, d),
        2 => go::<(Dyn, Vec<u8>)>(k, d),
        3 => go::<Vec<(Dyn, u8)>>(k, d),
        4 => go::<((u8, V), Dyn, u8)>(k, d),
        5 => go::<(u8, [u8; 1], Vec<u8>, Dyn)>(k, d),
        6 => go::<(Dyn, u8, V, Dyn, u8)>(k, d),
        7 => go::<(u8, Dyn, Dyn, u8, Dyn, V)>(k, d),
        8 => go::<(V, Dyn, u8, Dyn, u8, u8, Dyn)>(k, d),
        9 => go::<(u8, u8, Dyn, u8, Dyn, u8, V, u8)>(k, d),
        10 => go::<(Dyn, u8, Dyn, Dyn, u8, Dyn, (), [u8; 3], Dyn)>(k, d),
        11 => go::<(u8, Dyn, u8, Dyn, V, Dyn, u8, [u8; 2], Dyn, u8)>(k, d),
        12 => go::<(u8, u8, u8, u8, u8, u8, u8, u8, Dyn, Vec<u8>)>(k, d),
        _ => go::<(Dyn, (u8, Dyn), (Dyn, (Dyn, [u8; 2])))>(k, d),
    }
}
pub fn unpack(k: u64, o: &'static dyn Ops, b: &[u8]) -> Lib<PR<Msg>> { run(k, o, Do::Unpack(b)).map(|r| r.map(|d| match d { Done::Msg(m) => m, _ => unreachable!() })) }
pub fn pack_into(k: u64, o: &'static dyn Ops, m: &Msg, out: &mut [u8]) -> Lib<PR<()>> { run(k, o, Do::Pack(m, out)).map(|r| r.map(|_| ())) }
pub fn to_vec(k: u64, o: &'static dyn Ops, m: &Msg) -> Lib<PR<Vec<u8>>> { run(k, o, Do::ToVec(m)).map(|r| r.map(|d| match d { Done::Bytes(b) => b, _ => unreachable!() })) }
pub fn size(k: u64, o: &'static dyn Ops, m: Option<&Msg>) -> Lib<PR<usize>> { run(k, o, Do::Size(m)).map(|r| r.map(|d| match d { Done::Size(s) => s, _ => unreachable!() })) }
