//! Nodes that run the library in another build configuration: a request goes into a loaded module as bytes and the
//! answer comes back as bytes. `serve` runs inside that module, `Remote` and `RemoteEnum` stand for it outside.
use crate::enums::EnumOps;
use crate::model::{EnumInfo, RecInfo};
use crate::ops::{Ops, PR};
use crate::seam::{Lib, Panic};
use packed_struct::PackingError;
use std::fmt;

#[derive(Default)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn n(&mut self, x: u64) { self.0.extend_from_slice(&x.to_le_bytes()) }
    pub fn b(&mut self, x: &[u8]) { self.n(x.len() as u64); self.0.extend_from_slice(x) }
    pub fn i(&mut self, x: i128) { self.0.extend_from_slice(&x.to_le_bytes()) }
    pub fn v(&mut self, x: &[i128]) { self.n(x.len() as u64); for y in x { self.i(*y) } }
    pub fn vv(&mut self, x: &[Vec<i128>]) { self.n(x.len() as u64); for y in x { self.v(y) } }
    fn lib<T>(&mut self, r: Lib<T>, f: impl FnOnce(&mut W, T)) {
        match r { Err(p) => { self.n(1); self.b(p.0.as_bytes()) } Ok(x) => { self.n(0); f(self, x) } }
    }
    fn pr<T>(&mut self, r: Lib<PR<T>>, f: impl FnOnce(&mut W, T)) {
        self.lib(r, |w, x| match x { Ok(x) => { w.n(0); f(w, x) } Err(e) => { w.n(1); w.e(&e) } })
    }
    fn e(&mut self, e: &PackingError) {
        use PackingError::*;
        let (k, a, b) = match *e {
            InvalidValue => (0, 0, 0), BitsError => (1, 0, 0), BufferTooSmall => (2, 0, 0), NotImplemented => (3, 0, 0),
            InstanceRequiredForSize => (4, 0, 0), MoreThanOneDynamicType => (5, 0, 0),
            BufferSizeMismatch { expected, actual } => (6, expected, actual),
            BufferModMismatch { actual_size, modulo_required } => (7, actual_size, modulo_required),
            SliceIndexingError { slice_len } => (8, slice_len, 0), InternalError => (9, 0, 0),
        };
        self.n(k); self.n(a as u64); self.n(b as u64);
        self.b(e.to_string().as_bytes());
    }
}
pub struct R<'a>(pub &'a [u8]);
impl<'a> R<'a> {
    pub fn raw(&mut self, k: usize) -> &'a [u8] { let (a, b) = self.0.split_at(k); self.0 = b; a }
    pub fn n(&mut self) -> u64 { u64::from_le_bytes(self.raw(8).try_into().unwrap()) }
    pub fn b(&mut self) -> &'a [u8] { let k = self.n() as usize; self.raw(k) }
    pub fn s(&mut self) -> String { String::from_utf8_lossy(self.b()).into_owned() }
    pub fn i(&mut self) -> i128 { i128::from_le_bytes(self.raw(16).try_into().unwrap()) }
    pub fn v(&mut self) -> Vec<i128> { let k = self.n(); (0..k).map(|_| self.i()).collect() }
    pub fn vv(&mut self) -> Vec<Vec<i128>> { let k = self.n(); (0..k).map(|_| self.v()).collect() }
    fn lib<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> Lib<T> { if self.n() == 1 { Err(Panic(self.s())) } else { Ok(f(self)) } }
    fn pr<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> Lib<PR<T>> { self.lib(|r| if r.n() == 0 { Ok(f(r)) } else { Err(r.e()) }) }
    fn e(&mut self) -> PackingError {
        use PackingError::*;
        let (k, a, b, text) = (self.n(), self.n() as usize, self.n() as usize, self.s());
        let e = match k {
            0 => InvalidValue, 1 => BitsError, 2 => BufferTooSmall, 3 => NotImplemented, 4 => InstanceRequiredForSize, 5 => MoreThanOneDynamicType,
            6 => BufferSizeMismatch { expected: a, actual: b }, 7 => BufferModMismatch { actual_size: a, modulo_required: b },
            8 => SliceIndexingError { slice_len: a }, _ => InternalError,
        };
        // the text of the error is part of the answer
        TEXTS.with(|t| t.borrow_mut().push((e, text)));
        e
    }
}
thread_local! { static TEXTS: std::cell::RefCell<Vec<(PackingError, String)>> = const { std::cell::RefCell::new(vec![]) }; }
/// Errors answered by other modules since the last call, with the text each shows to a user.
pub fn error_texts() -> Vec<(PackingError, String)> { TEXTS.with(|t| std::mem::take(&mut *t.borrow_mut())) }

// ops
pub const COUNT: u64 = 0;
pub const NAME: u64 = 1;
const PACK: u64 = 2;
const UNPACK_ARRAY: u64 = 3;
const UNPACK: u64 = 4;
const PACK_INTO: u64 = 5;
const TO_VEC: u64 = 6;
const SIZE: u64 = 7;
const BITS: u64 = 8;
const RENDER: u64 = 9;
const TABLE: u64 = 10;
const VUNPACK: u64 = 11;
const VPACK: u64 = 12;
const VTO_VEC: u64 = 13;
const VSIZE: u64 = 14;
const TUNPACK: u64 = 15;
const TPACK: u64 = 16;
const TTO_VEC: u64 = 17;
const TSIZE: u64 = 18;
const SUNPACK: u64 = 19;
const SPACK: u64 = 20;
const SSIZE: u64 = 21;
const MISC: u64 = 31;
pub const ENAME: u64 = 32;
const LIFT: u64 = 33;
const LOWER: u64 = 34;
const PARSE: u64 = 35;
const SHOW: u64 = 36;
const LIST: u64 = 37;
const ALIFT: u64 = 38;
const APARSE: u64 = 39;
const ASHOW: u64 = 40;
const ALIST: u64 = 41;
const AEQ: u64 = 42;
const ALOWER: u64 = 43;
const AOF: u64 = 44;
const TOB: u64 = 45;
const FROMB: u64 = 46;

/// Inside the other module: op, entry, arguments. Answer: heap requests of the library, result.
pub fn serve(ops: &[&dyn Ops], enums: &[&dyn EnumOps], req: &[u8]) -> Vec<u8> {
    let mut r = R(req);
    let (op, k) = (r.n(), r.n() as usize);
    let mut w = W::default();
    if op == COUNT { w.n(ops.len() as u64); w.n(enums.len() as u64); }
    else if op == MISC { let (p, q) = (r.n(), r.n()); let (t, a) = crate::misc::ask(k as u64, p, q, r.b()); w.b(t.as_bytes()); w.b(a.text.as_bytes()); w.n(a.heap as u64) }
    else if op < ENAME { record(op, ops[k], &mut r, &mut w) }
    else { names(op, enums[k], &mut r, &mut w) }
    let mut out = W::default();
    out.n(crate::seam::last_heap().requests);
    out.0.extend_from_slice(&w.0);
    out.0
}
fn record(op: u64, o: &dyn Ops, r: &mut R, w: &mut W) {
    fn opt<'a, T>(r: &mut R<'a>, f: impl FnOnce(&mut R<'a>) -> T) -> Option<T> { if r.n() == 1 { Some(f(r)) } else { None } }
    match op {
        NAME => w.b(o.info().name.as_bytes()),
        PACK => w.pr(o.pack(&r.v()), |w, b| w.b(&b)),
        UNPACK_ARRAY => w.pr(o.unpack_array(r.b()), |w, v| w.v(&v)),
        UNPACK => w.pr(o.unpack(r.b()), |w, v| w.v(&v)),
        PACK_INTO => { let v = r.v(); let mut b = r.b().to_vec(); let x = o.pack_into(&v, &mut b); w.b(&b); w.pr(x, |_, _| {}) }
        TO_VEC => w.pr(o.pack_to_vec(&r.v()), |w, b| w.b(&b)),
        SIZE => { let v = opt(r, |r| r.v()); w.pr(o.size(v.as_deref()), |w, n| w.n(n as u64)) }
        BITS => w.lib(o.packed_bits(), |w, n| w.n(n as u64)),
        RENDER | TABLE => {
            let (v, flags, room) = (r.v(), r.n() as u8, r.n() as usize);
            let mut s = Sink { text: String::new(), room };
            let x = if op == RENDER { o.render(&v, flags, &mut s) } else { o.field_table(&v, &mut s) };
            w.b(s.text.as_bytes());
            match x { None => w.n(2), Some(x) => w.lib(x, |w, x| w.n(x.is_ok() as u64)) }
        }
        VUNPACK => w.pr(o.vec_unpack(r.b()), |w, v| w.vv(&v)),
        VPACK => { let v = r.vv(); let mut b = r.b().to_vec(); let x = o.vec_pack_into(&v, &mut b); w.b(&b); w.pr(x, |_, _| {}) }
        VTO_VEC => w.pr(o.vec_to_vec(&r.vv()), |w, b| w.b(&b)),
        VSIZE => { let v = opt(r, |r| r.vv()); w.pr(o.vec_size(v.as_deref()), |w, n| w.n(n as u64)) }
        TUNPACK => w.pr(o.tup_unpack(r.b()), |w, (a, v, t)| { w.n(a as u64); w.vv(&v); w.v(&t) }),
        TPACK => { let (a, v, t) = (r.n() as u8, r.vv(), r.v()); let mut b = r.b().to_vec(); let x = o.tup_pack_into(a, &v, &t, &mut b); w.b(&b); w.pr(x, |_, _| {}) }
        TTO_VEC => w.pr(o.tup_to_vec(r.n() as u8, &r.vv(), &r.v()), |w, b| w.b(&b)),
        TSIZE => { let v = opt(r, |r| (r.n() as u8, r.vv(), r.v())); w.pr(o.tup_size(v.as_ref().map(|(a, v, t)| (*a, &v[..], &t[..]))), |w, n| w.n(n as u64)) }
        SUNPACK => w.pr(o.stup_unpack(r.b()), |w, (a, m, t)| { w.v(&a); w.b(&m); w.v(&t) }),
        SPACK => { let (a, m, t) = (r.v(), r.b(), r.v()); let mut b = r.b().to_vec(); let x = o.stup_pack_into(&a, m.try_into().unwrap(), &t, &mut b); w.b(&b); w.pr(x, |_, _| {}) }
        SSIZE => { let v = opt(r, |r| (r.v(), r.v())); w.pr(o.stup_size(v.as_ref().map(|(a, t)| (&a[..], &t[..]))), |w, n| w.n(n as u64)) }
        _ => panic!("harness: unknown request"),
    }
}
fn names(op: u64, o: &dyn EnumOps, r: &mut R, w: &mut W) {
    fn oi(w: &mut W, x: Option<i128>) { match x { Some(x) => { w.n(1); w.i(x) } None => w.n(0) } }
    fn bi(w: &mut W, x: (bool, i128)) { w.n(x.0 as u64); w.i(x.1) }
    fn obi(w: &mut W, x: Option<(bool, i128)>) { match x { Some(x) => { w.n(1); bi(w, x) } None => w.n(0) } }
    match op {
        ENAME => w.b(o.info().name.as_bytes()),
        LIFT => w.lib(o.lift(r.i()), oi),
        LOWER => w.lib(o.lower(r.i()), |w, x| w.i(x)),
        PARSE => w.lib(o.parse(&r.s(), r.n() == 1), oi),
        SHOW => w.lib(o.show(r.i(), r.n() == 1), |w, s| w.b(s.as_bytes())),
        LIST => w.lib(o.list(r.n() == 1), |w, v| w.v(&v)),
        ALIFT => w.lib(o.any_lift(r.i()), obi),
        APARSE => w.lib(o.any_parse(&r.s(), r.n() == 1), obi),
        ASHOW => w.lib(o.any_show(r.i(), r.n() == 1), |w, s| w.b(s.as_bytes())),
        ALIST => w.lib(o.any_list(), |w, v| { w.n(v.len() as u64); for x in v { bi(w, x) } }),
        AEQ => w.lib(o.any_eq(r.i(), r.i(), r.n()), |w, x| w.n(x as u64)),
        ALOWER => w.lib(o.any_lower(r.i(), r.n() == 1), |w, x| w.i(x)),
        AOF => w.lib(o.any_of(r.i(), r.n() == 1), bi),
        TOB => w.lib(o.to_bytes(r.i(), r.n() == 1), |w, b| w.b(&b)),
        FROMB => w.lib(o.from_bytes(r.b(), r.n() == 1), |w, x| w.i(x)),
        _ => panic!("harness: unknown request"),
    }
}
/// A text sink with limited room.
pub struct Sink { pub text: String, pub room: usize }
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result { crate::seam::outside(|| { if s.len() > self.room { return Err(fmt::Error) } self.room -= s.len(); self.text.push_str(s); Ok(()) }) }
}

pub type Call = extern "C" fn(req: *const u8, len: usize, out: *mut u8, cap: usize) -> usize;
thread_local! { static REQUESTS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
/// Heap requests of the last call.
pub fn requests() -> u64 { REQUESTS.with(|d| d.get()) }
pub fn ask(call: Call, op: u64, k: usize, args: impl FnOnce(&mut W)) -> Vec<u8> {
    let mut w = W::default();
    w.n(op); w.n(k as u64);
    args(&mut w);
    let mut out = vec![0u8; 4096];
    let mut n = call(w.0.as_ptr(), w.0.len(), out.as_mut_ptr(), out.len());
    assert!(n != usize::MAX, "harness: request refused");
    if n > out.len() { out = vec![0; n]; n = call(w.0.as_ptr(), w.0.len(), out.as_mut_ptr(), out.len()); }
    out.truncate(n);
    let mut r = R(&out);
    REQUESTS.with(|q| q.set(r.n()));
    out.drain(..8);
    out
}

pub struct Remote { pub call: Call, pub k: usize, pub info: &'static RecInfo }
impl Remote {
    fn q(&self, op: u64, args: impl FnOnce(&mut W)) -> Vec<u8> { ask(self.call, op, self.k, args) }
    fn into(&self, op: u64, out: &mut [u8], args: impl FnOnce(&mut W)) -> Lib<PR<()>> {
        let a = self.q(op, |w| { args(w); w.b(out) });
        let mut r = R(&a);
        out.copy_from_slice(r.b());
        r.pr(|_| ())
    }
}
impl Ops for Remote {
    fn info(&self) -> &'static RecInfo { self.info }
    fn pack(&self, v: &[i128]) -> Lib<PR<Vec<u8>>> { R(&self.q(PACK, |w| w.v(v))).pr(|r| r.b().to_vec()) }
    fn unpack_array(&self, b: &[u8]) -> Lib<PR<Vec<i128>>> { R(&self.q(UNPACK_ARRAY, |w| w.b(b))).pr(|r| r.v()) }
    fn unpack(&self, b: &[u8]) -> Lib<PR<Vec<i128>>> { R(&self.q(UNPACK, |w| w.b(b))).pr(|r| r.v()) }
    fn pack_into(&self, v: &[i128], out: &mut [u8]) -> Lib<PR<()>> { self.into(PACK_INTO, out, |w| w.v(v)) }
    fn pack_to_vec(&self, v: &[i128]) -> Lib<PR<Vec<u8>>> { R(&self.q(TO_VEC, |w| w.v(v))).pr(|r| r.b().to_vec()) }
    fn size(&self, v: Option<&[i128]>) -> Lib<PR<usize>> { R(&self.q(SIZE, |w| match v { Some(v) => { w.n(1); w.v(v) } None => w.n(0) })).pr(|r| r.n() as usize) }
    fn packed_bits(&self) -> Lib<usize> { R(&self.q(BITS, |_| {})).lib(|r| r.n() as usize) }
    fn render(&self, v: &[i128], flags: u8, s: &mut dyn fmt::Write) -> Option<Lib<fmt::Result>> { text(&self.q(RENDER, |w| { w.v(v); w.n(flags as u64); w.n(1 << 40) }), s) }
    fn field_table(&self, v: &[i128], s: &mut dyn fmt::Write) -> Option<Lib<fmt::Result>> { text(&self.q(TABLE, |w| { w.v(v); w.n(0); w.n(1 << 40) }), s) }
    fn debug_rows(&self, _v: &[i128]) -> Vec<String> { vec![] }
    fn vec_unpack(&self, b: &[u8]) -> Lib<PR<Vec<Vec<i128>>>> { R(&self.q(VUNPACK, |w| w.b(b))).pr(|r| r.vv()) }
    fn vec_pack_into(&self, v: &[Vec<i128>], out: &mut [u8]) -> Lib<PR<()>> { self.into(VPACK, out, |w| w.vv(v)) }
    fn vec_to_vec(&self, v: &[Vec<i128>]) -> Lib<PR<Vec<u8>>> { R(&self.q(VTO_VEC, |w| w.vv(v))).pr(|r| r.b().to_vec()) }
    fn vec_size(&self, v: Option<&[Vec<i128>]>) -> Lib<PR<usize>> { R(&self.q(VSIZE, |w| match v { Some(v) => { w.n(1); w.vv(v) } None => w.n(0) })).pr(|r| r.n() as usize) }
    fn tup_unpack(&self, b: &[u8]) -> Lib<PR<(u8, Vec<Vec<i128>>, Vec<i128>)>> { R(&self.q(TUNPACK, |w| w.b(b))).pr(|r| (r.n() as u8, r.vv(), r.v())) }
    fn tup_pack_into(&self, a: u8, v: &[Vec<i128>], t: &[i128], out: &mut [u8]) -> Lib<PR<()>> { self.into(TPACK, out, |w| { w.n(a as u64); w.vv(v); w.v(t) }) }
    fn tup_to_vec(&self, a: u8, v: &[Vec<i128>], t: &[i128]) -> Lib<PR<Vec<u8>>> { R(&self.q(TTO_VEC, |w| { w.n(a as u64); w.vv(v); w.v(t) })).pr(|r| r.b().to_vec()) }
    fn tup_size(&self, v: Option<(u8, &[Vec<i128>], &[i128])>) -> Lib<PR<usize>> {
        R(&self.q(TSIZE, |w| match v { Some((a, v, t)) => { w.n(1); w.n(a as u64); w.vv(v); w.v(t) } None => w.n(0) })).pr(|r| r.n() as usize)
    }
    fn stup_unpack(&self, b: &[u8]) -> Lib<PR<(Vec<i128>, [u8; 3], Vec<i128>)>> { R(&self.q(SUNPACK, |w| w.b(b))).pr(|r| (r.v(), r.b().try_into().unwrap(), r.v())) }
    fn stup_pack_into(&self, a: &[i128], m: [u8; 3], t: &[i128], out: &mut [u8]) -> Lib<PR<()>> { self.into(SPACK, out, |w| { w.v(a); w.b(&m); w.v(t) }) }
    fn stup_size(&self, v: Option<(&[i128], &[i128])>) -> Lib<PR<usize>> { R(&self.q(SSIZE, |w| match v { Some((a, t)) => { w.n(1); w.v(a); w.v(t) } None => w.n(0) })).pr(|r| r.n() as usize) }
    fn rust_size(&self) -> usize { 0 }
}
fn text(a: &[u8], s: &mut dyn fmt::Write) -> Option<Lib<fmt::Result>> {
    let mut r = R(a);
    let t = r.s();
    match r.n() { 2 => None, 1 => Some(Err(Panic(r.s()))), _ => { let ok = r.n() == 1; let w = s.write_str(&t); Some(Ok(if ok { w } else { Err(fmt::Error) })) } }
}

pub fn misc(call: Call, what: u64, p: u64, q: u64, b: &[u8]) -> (String, crate::misc::Answer) {
    let a = ask(call, MISC, what as usize, |w| { w.n(p); w.n(q); w.b(b) });
    let mut r = R(&a);
    (r.s(), crate::misc::Answer { text: r.s(), heap: r.n() == 1 })
}

pub struct RemoteEnum { pub call: Call, pub k: usize, pub local: &'static dyn EnumOps }
impl RemoteEnum { fn q(&self, op: u64, args: impl FnOnce(&mut W)) -> Vec<u8> { ask(self.call, op, self.k, args) } }
impl EnumOps for RemoteEnum {
    fn info(&self) -> &'static EnumInfo { self.local.info() }
    fn backing_bytes(&self) -> usize { self.local.backing_bytes() }
    fn fits(&self, n: i128) -> bool { self.local.fits(n) }
    fn lift(&self, n: i128) -> Lib<Option<i128>> { R(&self.q(LIFT, |w| w.i(n))).lib(roi) }
    fn lower(&self, n: i128) -> Lib<i128> { R(&self.q(LOWER, |w| w.i(n))).lib(|r| r.i()) }
    fn parse(&self, s: &str, lower: bool) -> Lib<Option<i128>> { R(&self.q(PARSE, |w| { w.b(s.as_bytes()); w.n(lower as u64) })).lib(roi) }
    fn show(&self, n: i128, dynamic: bool) -> Lib<String> { R(&self.q(SHOW, |w| { w.i(n); w.n(dynamic as u64) })).lib(|r| r.s()) }
    fn list(&self, dynamic: bool) -> Lib<Vec<i128>> { R(&self.q(LIST, |w| w.n(dynamic as u64))).lib(|r| r.v()) }
    fn any_lift(&self, n: i128) -> Lib<Option<(bool, i128)>> { R(&self.q(ALIFT, |w| w.i(n))).lib(robi) }
    fn any_parse(&self, s: &str, lower: bool) -> Lib<Option<(bool, i128)>> { R(&self.q(APARSE, |w| { w.b(s.as_bytes()); w.n(lower as u64) })).lib(robi) }
    fn any_show(&self, n: i128, wrap: bool) -> Lib<String> { R(&self.q(ASHOW, |w| { w.i(n); w.n(wrap as u64) })).lib(|r| r.s()) }
    fn any_list(&self) -> Lib<Vec<(bool, i128)>> { R(&self.q(ALIST, |_| {})).lib(|r| { let k = r.n(); (0..k).map(|_| rbi(r)).collect() }) }
    fn any_eq(&self, a: i128, b: i128, wrap: u64) -> Lib<bool> { R(&self.q(AEQ, |w| { w.i(a); w.i(b); w.n(wrap) })).lib(|r| r.n() == 1) }
    fn any_lower(&self, n: i128, wrap: bool) -> Lib<i128> { R(&self.q(ALOWER, |w| { w.i(n); w.n(wrap as u64) })).lib(|r| r.i()) }
    fn any_of(&self, n: i128, from: bool) -> Lib<(bool, i128)> { R(&self.q(AOF, |w| { w.i(n); w.n(from as u64) })).lib(rbi) }
    fn to_bytes(&self, n: i128, lsb: bool) -> Lib<Vec<u8>> { R(&self.q(TOB, |w| { w.i(n); w.n(lsb as u64) })).lib(|r| r.b().to_vec()) }
    fn from_bytes(&self, b: &[u8], lsb: bool) -> Lib<i128> { R(&self.q(FROMB, |w| { w.b(b); w.n(lsb as u64) })).lib(|r| r.i()) }
}
fn roi(r: &mut R) -> Option<i128> { if r.n() == 1 { Some(r.i()) } else { None } }
fn rbi(r: &mut R) -> (bool, i128) { (r.n() == 1, r.i()) }
fn robi(r: &mut R) -> Option<(bool, i128)> { if r.n() == 1 { Some(rbi(r)) } else { None } }
