//! P03, P07, P08, P09, P10: one node serving requests whose components fail, whose buffers have the wrong
//! length, whose heap is exhausted. Components are scripted (simcore::probe); compositions come from `shapes`
//! and, for the properties that need no failing component, from the zoo of declared layouts.
use crate::fw::*;
use crate::wire::*;
use crate::zoo;
use packed_struct::PackingError;
use shapes::{Obj, Shape, SHAPES};
use simcore::model::hex;
use simcore::ops::PR;
use simcore::probe::{self, Arm, Call, Lay, Region, CONV, PACK, PANIC, SIZE, UNPACK};
use simcore::rng::{hash_str, mix, Rng};
use simcore::seam::{exhaust_heap, last_heap, HeapStats, Lib};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Focus { P03, P07, P08, P09, P10 }
pub struct Comp(pub Focus);

// steps
pub const OP: u8 = 0; // id shape kind prior delta lens..
pub const ARM: u8 = 1; // op callback nth fault sticky
pub const ZOO: u8 = 2; // entry container kind prior delta count hdr raws..

pub const K_PACK: u64 = 0;
pub const K_VEC: u64 = 1;
pub const K_UNPACK: u64 = 2;
pub const K_SIZE: u64 = 3;
pub const K_STATIC: u64 = 4;
pub const K_ARRAY: u64 = 5;
pub const K_UNARRAY: u64 = 6;
pub const K_RENDER: u64 = 7;
pub const KINDS: [&str; 8] = ["pack_to_slice", "pack_to_vec", "unpack_from_slice", "packed_bytes_size(Some)", "packed_bytes_size(None)", "pack", "unpack", "render"];

pub const GUARD: usize = 16;

/// What one library operation did.
pub struct Done {
    pub r: Lib<PR<Vec<u64>>>,
    pub got: Option<Box<dyn Obj>>,
    pub host: Vec<u8>,
    pub before: Vec<u8>,
    pub calls: Vec<Call>,
    pub first: Option<PackingError>,
    pub first_tag: u16,
    pub first_op: u8,
    pub fired: u64,
    pub panicked: bool,
    pub after_first: u64,
    pub created: Vec<u64>,
    pub dropped: Vec<u64>,
    pub double: u64,
    pub heap: HeapStats,
}

pub fn fill(n: usize, prior: u64) -> Vec<u8> {
    match prior % 4 { 0 => vec![0; n], 1 => vec![0xFF; n], 2 => vec![(prior >> 2) as u8; n], _ => (0..n).map(|i| mix(prior, i as u64) as u8).collect() }
}
/// Puts the wire image into the length and content a faulty delivery has.
pub fn deliver(img: &[u8], delta: u64, seed: u64) -> Vec<u8> {
    let mut b = img.to_vec();
    let k = (delta / 8) as usize;
    match delta % 8 {
        1 => { let n = b.len().saturating_sub(1 + k); b.truncate(n); }
        2 => b.extend(fill(1 + k, seed)),
        3 => { let c = b.clone(); for _ in 0..1 + k % 3 { b.extend_from_slice(&c); } }
        4 => b.clear(),
        5 => { let n = (1 + k).min(b.len()); b.drain(..n); }
        6 => { let h = b.len() / 2; b.truncate(h); }
        7 => b.extend(fill(if k % 8 == 7 { 65536 * (1 + k / 8 % 2) } else { 256 * (1 + k % 300) }, seed)),
        _ => {}
    }
    b
}
/// Address space of 4 GiB and a little more that reads as zeros and takes no memory until it is written to.
fn vast() -> Option<&'static mut [u8]> {
    extern "C" { fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8; }
    const N: usize = (1 << 32) + 65536;
    static mut AT: *mut u8 = std::ptr::null_mut();
    unsafe {
        // readable, writable; private, anonymous, not reserved
        if AT.is_null() { AT = mmap(std::ptr::null_mut(), N, 3, 0x4022, -1, 0); }
        if AT as isize == -1 { return None; }
        Some(std::slice::from_raw_parts_mut(AT, N))
    }
}

pub struct Sink { pub s: String, pub fail_at: usize }
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result { probe::touch(); simcore::seam::outside(|| { self.s.push_str(s); Ok(()) }) }
}

pub fn run_op(sh: &dyn Shape, obj: &dyn Obj, kind: u64, img: &[u8], delta: u64, prior: u64, arms: Vec<Arm>, sticky: bool) -> Done {
    run_op_nested(sh, obj, kind, img, delta, prior, arms, sticky, None, None)
}
#[allow(clippy::too_many_arguments)]
pub fn run_op_nested(sh: &dyn Shape, obj: &dyn Obj, kind: u64, img: &[u8], delta: u64, prior: u64, arms: Vec<Arm>, sticky: bool, nest_at: Option<u64>, nest: Option<fn()>) -> Done {
    let data = match kind { K_UNPACK | K_UNARRAY => deliver(img, delta, prior), _ => fill(deliver(img, delta, prior).len(), prior) };
    let n = data.len();
    let mut host = fill(n + 2 * GUARD, prior ^ 0x55);
    host[GUARD..GUARD + n].copy_from_slice(&data);
    let before = host.clone();
    let live0 = probe::with(|s| s.live.clone());
    probe::reset(arms, sticky);
    probe::with(|s| { s.live = live0; s.nest_at = nest_at; s.nest = nest; });
    let win = &mut host[GUARD..GUARD + n];
    let mut got = None;
    let mut keep = |r: Lib<PR<Box<dyn Obj>>>| r.map(|r| r.map(|o| { let t = o.tags().iter().map(|x| *x as u64).collect(); got = Some(o); t }));
    let bytes = |v: Vec<u8>| v.into_iter().map(|x| x as u64).collect::<Vec<u64>>();
    let r = probe::active(|| match kind {
        K_PACK => obj.pack_into(win).map(|r| r.map(|_| vec![])),
        K_VEC => obj.to_vec().map(|r| r.map(bytes)),
        K_UNPACK => keep(sh.unpack(win)),
        K_SIZE => obj.size().map(|r| r.map(|n| vec![n as u64])),
        K_STATIC => sh.static_size().map(|r| r.map(|n| vec![n as u64])),
        K_ARRAY => match obj.pack_array() { Some(r) => r.map(|r| r.map(bytes)), None => obj.to_vec().map(|r| r.map(bytes)) },
        K_UNARRAY => match sh.unpack_array(win) { Some(r) => keep(r), None => keep(sh.unpack(win)) },
        _ => { let mut s = Sink { s: String::new(), fail_at: 0 }; match obj.render((prior & 0x7F) as u8, &mut s) { Some(r) => r.map(|r| match r { Ok(()) => Ok(bytes(s.s.into_bytes())), Err(_) => Err(PackingError::InternalError) }), None => obj.size().map(|r| r.map(|n| vec![n as u64])) } }
    });
    let heap = last_heap();
    probe::with(|s| Done { r, got, host, before, calls: std::mem::take(&mut s.calls), first: s.first, first_tag: s.first_tag, first_op: s.first_op, fired: s.fired, panicked: s.panicked,
        after_first: s.after_first, created: std::mem::take(&mut s.created_in_lib), dropped: std::mem::take(&mut s.dropped_in_lib), double: s.double_drops, heap })
}
pub fn outcome(d: &Done) -> u64 { match &d.r { Ok(Ok(_)) => 0, Ok(Err(e)) => 1 + match e { PackingError::InvalidValue => 0, PackingError::BitsError => 1, PackingError::BufferTooSmall => 2, PackingError::NotImplemented => 3, PackingError::InstanceRequiredForSize => 4,
    PackingError::MoreThanOneDynamicType => 5, PackingError::BufferSizeMismatch { .. } => 6, PackingError::BufferModMismatch { .. } => 7, PackingError::SliceIndexingError { .. } => 8, PackingError::InternalError => 9 }, Err(_) => 20 } }

/// The lengths of the variable parts: few enough components that tags stay unique.
pub fn lens_of(sh: &dyn Shape, s: &[u64]) -> Vec<u64> {
    let n = sh.lay().seqs().max(1);
    let cap = (120 / n as u64).max(2);
    let width = match sh.lay() { Lay::Seq(_) => 1, _ => 1 };
    let wide = sh.lay().seq_is_any();
    (0..n).map(|i| (i, s.get(i).copied().unwrap_or(1))).map(|(i, x)| {
        if x >= probe::HUGE && wide.get(i) == Some(&true) { return probe::HUGE + x % 4096; }
        let x = x % (cap / width);
        if sh.rust_size() > 400 { x % 4 } else if heavy(&sh.lay()) { x % 12 } else { x }
    }).collect()
}
fn heavy(l: &Lay) -> bool { match l { Lay::Seq(e) => !matches!(**e, Lay::Fixed(n) if n <= 2), Lay::Tup(v) => v.iter().any(heavy), _ => false } }

struct W<'a> { f: Focus, ctx: &'a mut Ctx, kept: Vec<Box<dyn Obj>> }

fn dry(sh: &dyn Shape, obj: &dyn Obj, kind: u64, img: &[u8]) -> [u64; 4] {
    let d = run_op(sh, obj, kind, img, 0, 0, vec![], false);
    drop(d);
    probe::with(|s| s.counts)
}
pub fn kind_for(sh: &dyn Shape, k: u64) -> u64 {
    let k = k % 8;
    if (k == K_ARRAY || k == K_UNARRAY) && !sh.can_array() { return if k == K_ARRAY { K_PACK } else { K_UNPACK }; }
    if k == K_RENDER && !sh.can_render() { return K_PACK; }
    k
}

impl<'a> W<'a> {
    fn op(&mut self, plan: &Plan, s: &Step) -> Res {
        let sh = SHAPES[(s.g(1) % SHAPES.len() as u64) as usize];
        let lay = sh.lay();
        let kind = kind_for(sh, s.g(2));
        let (prior, delta) = (s.g(3), if matches!(self.f, Focus::P03 | Focus::P10) { s.g(4) } else { 0 });
        if matches!(self.f, Focus::P07 | Focus::P08) && kind == K_RENDER { return Ok(()); }
        let lens = lens_of(sh, s.a.get(5..).unwrap_or(&[]));
        let obj = sh.make(&lens);
        let img = obj.image();
        // faults land on callbacks that really happen
        let mut arms = vec![];
        let mut sticky = false;
        let steps: Vec<&Step> = plan.steps.iter().filter(|x| x.op == ARM && x.g(0) == s.g(0)).collect();
        if !steps.is_empty() {
            let counts = dry(sh, &*obj, kind, &img);
            for a in steps {
                let mut op = (a.g(1) % 4) as u8;
                // a callback kind this operation makes
                for _ in 0..4 { if counts[op as usize] > 0 { break; } op = (op + 1) % 4; }
                let n = counts[op as usize];
                if n == 0 { continue; }
                let fault = a.g(3) % 11;
                if fault == PANIC && !matches!(self.f, Focus::P07 | Focus::P08 | Focus::P09) { continue; }
                arms.push(Arm { op, nth: a.g(2) % n, fault });
                sticky |= a.g(4) % 4 == 1;
            }
        }
        let armed = !arms.is_empty();
        let d = run_op(sh, &*obj, kind, &img, delta, prior, arms.clone(), sticky);
        self.ctx.evals += 1;
        self.ctx.count(match &d.r { Ok(Ok(_)) => "outcome:ok", Ok(Err(_)) => "outcome:error", Err(_) => "outcome:panic" });
        if let Some(a) = arms.iter().find(|_| d.fired > 0) { let _ = a; self.ctx.count(&format!("fault:{}_{}", if d.panicked { "panic_in" } else { "error_in" }, probe::OPS[d.first_op as usize])); }
        if delta % 8 != 0 && img.len() != d.host.len() - 2 * GUARD { self.ctx.count("fault:wrong_length"); }
        self.ctx.sig(mix(mix(hash_str(sh.name()), kind), mix(outcome(&d), d.first_op as u64 * 1000 + d.calls.iter().position(|c| c.raised).unwrap_or(999) as u64)));
        self.ctx.hb(&d.host);
        self.ctx.h(mix(outcome(&d), d.calls.len() as u64));
        let what = format!("{} of {} (lengths {:?}, {} bytes{})", KINDS[kind as usize], sh.name(), lens, d.host.len() - 2 * GUARD, if armed { format!(", faults {:?}", arms) } else { String::new() });
        self.ctx.ev(|| format!("{} -> {}", what, match &d.r { Ok(Ok(v)) => format!("Ok {:?}", &v[..v.len().min(12)]), Ok(Err(e)) => format!("{:?}", e), Err(p) => format!("panic {}", p.0) }));
        let inp = Inp { sh, lay, kind, obj: &*obj, img: &img, what, delta };
        match self.f {
            Focus::P03 => p03(&inp, &d, self.ctx)?,
            Focus::P07 => p07(&inp, &d, self.ctx)?,
            Focus::P08 => p08(&inp, &d, self.ctx)?,
            Focus::P09 => p09(&inp, &d, self.ctx)?,
            Focus::P10 => p10(&inp, &d, prior, self.ctx)?,
        }
        if let Some(o) = d.got { if self.kept.len() < 6 { self.kept.push(o); } }
        if self.f == Focus::P09 {
            let tok = obj.tokens();
            if let Some(t) = tok.iter().find(|t| !probe::with(|s| s.live.contains(t))) { return viol("P09/callers-value-dropped", format!("{}: component value {} of the caller was dropped", inp.what, t)); }
        }
        Ok(())
    }

    /// Declared layouts without scripted components.
    fn zoo(&mut self, s: &Step) -> Res {
        let o = zoo::at(s.g(0));
        let i = o.info();
        let c = s.g(1) % NCONT;
        let kind = s.g(2);
        let m = build_msg(c, i, s.g(5) % 3000, s.g(6), s.a.get(7..).unwrap_or(&[]));
        let img = encode(c, i, &m);
        let name = format!("{} of {}", container(c), i.name);
        self.ctx.evals += 1;
        let delta = s.g(4);
        self.ctx.sig(mix(mix(hash_str(i.name), c * 32 + kind % 4), delta % 8));
        match self.f {
            Focus::P03 if fixed(c) && s.g(3) % 8 == 0 => {
                // a length that differs from the right one only above the 32nd bit
                let b = match vast() { Some(b) => b, None => return Ok(()) };
                let n = (1usize << 32) + img.len();
                let want = PackingError::BufferSizeMismatch { expected: img.len(), actual: n };
                self.ctx.count("fault:wrong_length_by_4_gib");
                let r = if kind % 2 == 0 { lib_unpack(c, 0, o, &b[..n]).map(|r| r.map(|_| ())) } else { lib_pack_into(c, o, &m, &mut b[..n]) };
                self.ctx.ev(|| format!("{}: {} bytes -> {:?}", name, n, r));
                match r {
                    Err(p) => return viol("P03/panicked", format!("{} and {} bytes: {}", name, n, p.0)),
                    Ok(Ok(())) => return viol("P03/wrong-length-accepted", format!("{}: {} bytes were accepted, expected {:?}", name, n, want)),
                    Ok(Err(e)) if e != want => return viol("P03/wrong-sizes-reported", format!("{}: {} bytes were refused with {:?}, expected {:?}", name, n, e, want)),
                    Ok(Err(_)) => {}
                }
                if b[..img.len()].iter().any(|x| *x != 0) { return viol("P03/refused-but-written", format!("{}: packing into {} bytes was refused, yet the buffer changed", name, n)); }
            }
            Focus::P03 => {
                let b = deliver(&img, delta, s.g(3));
                let wrong = b.len() != img.len();
                if wrong { self.ctx.count("fault:wrong_length"); }
                if kind % 2 == 0 {
                    let want = size_error(c, i, b.len());
                    let r = lib_unpack(c, s.g(3), o, &b);
                    self.ctx.ev(|| format!("{} unpacks {} bytes -> {:?}", name, b.len(), r.as_ref().map(|x| x.as_ref().err())));
                    match (want, r) {
                        (Some(e), Ok(Err(g))) if e == g => self.ctx.count("probe:refused_length"),
                        (Some(PackingError::BufferModMismatch { .. }), Ok(Err(PackingError::InvalidValue))) if undefined_in_front(c, i, &b) => {}
                        (Some(e), Ok(Err(g))) => return viol("P03/wrong-sizes-reported", format!("{}: {} bytes for a {}-byte element were refused with {:?}, expected {:?}", name, b.len(), i.nbytes, g, e)),
                        (Some(e), Ok(Ok(_))) => return viol("P03/wrong-length-accepted", format!("{}: {} bytes were accepted, expected {:?}", name, b.len(), e)),
                        (Some(_), Err(p)) | (None, Err(p)) => return viol("P03/panicked", format!("{} unpacking {} bytes: {}", name, b.len(), p.0)),
                        (None, Ok(Ok(_))) | (None, Ok(Err(PackingError::InvalidValue))) => self.ctx.count("probe:length_accepted"),
                        (None, Ok(Err(e))) => return viol("P03/right-length-refused", format!("{}: {} bytes were refused with {:?}", name, b.len(), e)),
                    }
                } else {
                    let mut host = fill(b.len() + 2 * GUARD, s.g(3));
                    let before = host.clone();
                    let n = b.len();
                    let r = lib_pack_into(c, o, &m, &mut host[GUARD..GUARD + n]);
                    match r {
                        Err(p) => return viol("P03/panicked", format!("{} packing into {} bytes: {}", name, n, p.0)),
                        Ok(Ok(())) if wrong => return viol("P03/wrong-length-accepted", format!("{}: packed into {} bytes, needs {}", name, n, img.len())),
                        Ok(Ok(())) => self.ctx.count("probe:length_accepted"),
                        Ok(Err(e)) => {
                            if !wrong { return viol("P03/right-length-refused", format!("{}: packing into {} bytes refused with {:?}", name, n, e)); }
                            self.ctx.count("probe:refused_length");
                            let want = PackingError::BufferSizeMismatch { expected: img.len(), actual: n };
                            if e != want { return viol("P03/wrong-sizes-reported", format!("{}: packing into {} bytes refused with {:?}, expected {:?}", name, n, e, want)); }
                            if host != before { return viol("P03/refused-but-written", format!("{}: packing into {} bytes was refused, yet the buffer changed", name, n)); }
                        }
                    }
                    let st = lib_size(c, o, None);
                    let want = if fixed(c) { Ok(least(c, i.nbytes)) } else { Err(PackingError::InstanceRequiredForSize) };
                    if st != Ok(want) { return viol("P03/advertised-size-wrong", format!("{}: advertised size {:?}, expected {:?}", name, st, want)); }
                    if lib_size(c, o, Some(&m)) != Ok(Ok(img.len())) { return viol("P03/advertised-size-wrong", format!("{}: instance size {:?}, expected {}", name, lib_size(c, o, Some(&m)), img.len())); }
                }
            }
            Focus::P08 => {
                let n = img.len();
                let spec = mask(c, i, n);
                for prior in [s.g(3), !s.g(3), 0, 1] {
                    let mut host = fill(n + 2 * GUARD, prior);
                    let before = host.clone();
                    match lib_pack_into(c, o, &m, &mut host[GUARD..GUARD + n]) {
                        Ok(Ok(())) => {}
                        Ok(Err(_)) | Err(_) => { if host != before { return viol("P08/torn", format!("{}: packing failed, yet the buffer changed", name)); } continue; }
                    }
                    if host[..GUARD] != before[..GUARD] || host[GUARD + n..] != before[GUARD + n..] { return viol("P08/wrote-outside", format!("{}: bytes around the buffer changed", name)); }
                    if !same_under(&spec, &host[GUARD..GUARD + n], &img) { return viol("P08/buffer-not-set-by-value-alone", format!("{}: packed into a buffer holding {}: {} instead of {}", name, hex(&before[GUARD..GUARD + n]), hex(&host[GUARD..GUARD + n]), hex(&img))); }
                }
                self.ctx.count("probe:prior_content_irrelevant");
                let b = deliver(&img, delta, s.g(3));
                let copy = b.clone();
                let _ = lib_unpack(c, s.g(3), o, &b);
                if b != copy { return viol("P08/unpack-changed-input", format!("{}: {} became {}", name, hex(&copy), hex(&b))); }
            }
            Focus::P10 => {
                let b = deliver(&img, delta, s.g(3));
                let refused = size_error(c, i, b.len()).is_some();
                // sizing
                let mut check = |what: &str, heap: HeapStats, allowed: u64| -> Res {
                    if heap.bytes > allowed { return viol(if allowed == 0 { "P10/heap-used" } else { "P10/heap-out-of-proportion" }, format!("{}: {} ({} bytes on the wire) made {} heap requests for {} bytes, allowed {}", name, what, b.len(), heap.requests, heap.bytes, allowed)); }
                    Ok(())
                };
                exhaust_heap(false);
                let r0 = lib_size(c, o, Some(&m)); let h = last_heap(); check("sizing", h, 0)?;
                let mut out = fill(img.len(), s.g(3));
                let r1 = lib_pack_into(c, o, &m, &mut out); let h = last_heap(); if r1.is_ok() { check("packing into the caller's buffer", h, 0)?; }
                let r2 = lib_unpack(c, s.g(3), o, &b); let h = last_heap();
                let fixed = fixed(c);
                if r2.is_ok() { check("unpacking", h, if fixed || refused { 0 } else { if c >= NBASE { bound(b.len() / i.nbytes.max(1), o.rust_size().max(64)).max(bound(b.len(), 1)) /* a variable part may be plain bytes */ } else { bound(b.len() / i.nbytes.max(1), o.rust_size()) } })?; }
                if refused { self.ctx.count("probe:refusal_without_heap"); }
                // the same while every request fails
                if r0.is_ok() && r1.is_ok() && r2.is_ok() {
                    exhaust_heap(true);
                    let q0 = lib_size(c, o, Some(&m));
                    let mut out2 = fill(img.len(), s.g(3));
                    let q1 = lib_pack_into(c, o, &m, &mut out2);
                    let q2 = if fixed || refused { Some(lib_unpack(c, s.g(3), o, &b)) } else { None };
                    exhaust_heap(false);
                    self.ctx.count("fault:heap_exhausted");
                    if q0 != r0 || q1 != r1 || out2 != out || q2.map_or(false, |q| q != r2) { return viol("P10/exhausted-heap-changes-result", format!("{}: results differ while every allocation fails", name)); }
                }
            }
            _ => {}
        }
        Ok(())
    }
}

/// Heap an unpacked vector may ask for in total: growing by doubling is fine, asking per byte is not.
fn bound(elems: usize, size: usize) -> u64 { (elems as u64 + 8) * size.max(1) as u64 * 5 + 512 }

struct Inp<'a> { sh: &'a dyn Shape, lay: Lay, kind: u64, obj: &'a dyn Obj, img: &'a [u8], what: String, delta: u64 }

fn p03(i: &Inp, d: &Done, ctx: &mut Ctx) -> Res {
    let n = d.host.len() - 2 * GUARD;
    let r = match &d.r { Err(p) => return viol("P03/panicked", format!("{}: {}", i.what, p.0)), Ok(r) => r };
    let packable = i.lay.packable();
    match i.kind {
        K_UNPACK | K_UNARRAY => {
            let want = i.lay.refusal(n);
            match (want, r) {
                (Some(e), Err(g)) if e == *g => { ctx.count("probe:refused_length"); if e == PackingError::MoreThanOneDynamicType { ctx.count("probe:two_dynamic_parts"); } }
                (Some(e), Err(g)) => return viol("P03/wrong-sizes-reported", format!("{}: refused with {:?}, expected {:?}", i.what, g, e)),
                (Some(e), Ok(_)) => return viol("P03/wrong-length-accepted", format!("{}: accepted, expected {:?}", i.what, e)),
                (None, Ok(_)) => ctx.count("probe:length_accepted"),
                (None, Err(e)) => return viol("P03/right-length-refused", format!("{}: refused with {:?}", i.what, e)),
            }
        }
        K_PACK => {
            let wrong = n != i.img.len();
            match r {
                Ok(_) if wrong => return viol("P03/wrong-length-accepted", format!("{}: needs {} bytes", i.what, i.img.len())),
                Ok(_) => ctx.count("probe:length_accepted"),
                Err(e) => {
                    if packable {
                        if !wrong { return viol("P03/right-length-refused", format!("{}: {:?}", i.what, e)); }
                        let want = PackingError::BufferSizeMismatch { expected: i.img.len(), actual: n };
                        if *e != want { return viol("P03/wrong-sizes-reported", format!("{}: {:?}, expected {:?}", i.what, e, want)); }
                    }
                    ctx.count("probe:refused_length");
                    if d.host != d.before { return viol("P03/refused-but-written", format!("{}: refused with {:?}, yet the buffer changed from {} to {}", i.what, e, hex(&d.before), hex(&d.host))); }
                    if wrong && packable && d.calls.iter().any(|c| c.op == PACK) { ctx.count("probe:component_packed_before_refusal"); }
                }
            }
        }
        K_SIZE => if packable && *r != Ok(vec![i.img.len() as u64]) { return viol("P03/advertised-size-wrong", format!("{}: {:?}, expected {}", i.what, r, i.img.len())); },
        K_STATIC => {
            let want = i.lay.static_size().map(|n| vec![n as u64]).ok_or(PackingError::InstanceRequiredForSize);
            if *r != want { return viol("P03/advertised-size-wrong", format!("{}: {:?}, expected {:?}", i.what, r, want)); }
        }
        K_VEC | K_ARRAY => if packable { match r {
            Ok(v) if v.len() == i.img.len() => {}
            x => return viol("P03/advertised-size-wrong", format!("{}: {:?}, expected {} bytes", i.what, x, i.img.len())),
        } },
        _ => {}
    }
    Ok(())
}

fn p07(i: &Inp, d: &Done, ctx: &mut Ctx) -> Res {
    let packs = matches!(i.kind, K_PACK | K_VEC | K_ARRAY | K_SIZE);
    let fits = if packs { i.lay.packable() } else if i.kind == K_STATIC { i.lay.static_size().is_some() } else { i.lay.refusal(i.img.len()).is_none() };
    let say = |x: String| format!("{}: {}; calls {:?}", i.what, x, d.calls.iter().map(|c| format!("{}#{}{}", probe::OPS[c.op as usize], c.tag, if c.raised { "!" } else { "" })).take(60).collect::<Vec<_>>().join(" "));
    match &d.r {
        Err(p) => { if !d.panicked { return viol("P07/panicked", say(p.0.clone())); } ctx.count("probe:panic_passed_on"); }
        Ok(Ok(v)) => {
            if d.first.is_some() || d.panicked { return viol("P07/succeeded-although-a-component-failed", say(format!("component error {:?} was lost", d.first))); }
            if fits {
                match i.kind {
                    K_PACK => if d.host[GUARD..GUARD + i.img.len()] != *i.img { return viol("P07/succeeded-without-every-component", say(format!("packed {} instead of {}", hex(&d.host[GUARD..GUARD + i.img.len()]), hex(i.img)))); },
                    K_VEC | K_ARRAY => if *v != i.img.iter().map(|x| *x as u64).collect::<Vec<_>>() { return viol("P07/succeeded-without-every-component", say(format!("packed {} bytes {:?}.. instead of {}", v.len(), &v[..v.len().min(96)], hex(i.img)))); },
                    K_UNPACK | K_UNARRAY => {
                        let want: Vec<u64> = i.obj.tags().into_iter().map(|x| x as u64).filter(|x| *x != 0).collect();
                        let got: Vec<u64> = v.iter().copied().filter(|x| *x != 0).collect();
                        if want != got { return viol("P07/succeeded-without-every-component", say(format!("unpacked components {:?} instead of {:?}", got, want))); }
                    }
                    _ => {}
                }
                ctx.count("probe:all_components_succeeded");
            }
        }
        Ok(Err(e)) => match &d.first {
            Some(f) => { if fits { if f != e { return viol("P07/other-error-reported", say(format!("returned {:?}, but the first failing component raised {:?}", e, f))); } ctx.count("probe:first_error_reported"); } }
            None => if fits { return viol("P07/failed-without-a-failing-component", say(format!("returned {:?}", e))); },
        },
    }
    if d.after_first > 0 && fits { return viol("P07/continued-after-failure", say(format!("{} further components were packed or unpacked after the first failure", d.after_first))); }
    Ok(())
}

fn p08(i: &Inp, d: &Done, ctx: &mut Ctx) -> Res {
    let n = d.host.len() - 2 * GUARD;
    let (win, was) = (&d.host[GUARD..GUARD + n], &d.before[GUARD..GUARD + n]);
    if d.host[..GUARD] != d.before[..GUARD] || d.host[GUARD + n..] != d.before[GUARD + n..] { return viol("P08/wrote-outside", format!("{}: bytes around the buffer changed", i.what)); }
    if matches!(i.kind, K_UNPACK | K_UNARRAY) {
        if win != was { return viol("P08/unpack-changed-input", format!("{}: {} became {}", i.what, hex(was), hex(win))); }
        return Ok(());
    }
    if i.kind != K_PACK || !i.lay.packable() { return Ok(()); }
    let failed = !matches!(d.r, Ok(Ok(_)));
    if !failed {
        if win != i.img { return viol("P08/buffer-not-set-by-value-alone", format!("{}: buffer held {}, now {} instead of {}", i.what, hex(was), hex(win), hex(i.img))); }
        ctx.count("probe:complete_image");
        return Ok(());
    }
    ctx.count(if d.panicked { "probe:panicked_pack_inspected" } else { "probe:failed_pack_inspected" });
    let regs: Vec<Region> = i.obj.regions();
    // position of the component that failed; unknown when sizing without an instance failed
    let failing = if d.first_op == SIZE || d.first_tag == 0 { None } else { regs.iter().position(|r| r.tags.contains(&d.first_tag)) };
    let mut at = 0;
    let single = matches!(i.lay, Lay::Fixed(_));
    for (k, r) in regs.iter().enumerate() {
        let (a, b) = (&win[at..at + r.bytes.len()], &was[at..at + r.bytes.len()]);
        let (old, new) = (a == b, a == &r.bytes[..]);
        if !old && !new { return viol("P08/torn", format!("{}: after the failure bytes {}..{} are {}, neither the old {} nor the new {}", i.what, at, at + r.bytes.len(), hex(a), hex(b), hex(&r.bytes))); }
        if !old && single { return viol("P08/failed-record-written", format!("{}: failed, yet the buffer changed from {} to {}", i.what, hex(was), hex(win))); }
        if !old { if let Some(f) = failing { if k >= f { return viol("P08/written-at-or-after-failing-component", format!("{}: component {} failed, yet component {} was written", i.what, f, k)); } } ctx.count("probe:leading_component_written"); }
        at += r.bytes.len();
    }
    Ok(())
}

fn p09(i: &Inp, d: &Done, ctx: &mut Ctx) -> Res {
    let say = |x: String| format!("{}: {} (created {:?}, dropped {:?}, result {})", i.what, x, d.created, d.dropped, match &d.r { Ok(Ok(_)) => "ok".into(), Ok(Err(e)) => format!("{:?}", e), Err(p) => format!("panic: {}", p.0) });
    if let Err(p) = &d.r { if !d.panicked { return viol("P09/panicked", say(p.0.clone())); } }
    if d.double > 0 { return viol("P09/dropped-twice", say(format!("{} values were dropped that were not alive", d.double))); }
    if let Some(t) = d.dropped.iter().find(|t| !d.created.contains(t)) { return viol("P09/callers-value-dropped", say(format!("value {} belongs to the caller", t))); }
    if !matches!(i.kind, K_UNPACK | K_UNARRAY) {
        if !d.created.is_empty() { return viol("P09/values-created", say("packing, sizing or formatting created component values".into())); }
        ctx.count("probe:nothing_created");
        return Ok(());
    }
    let mut left: Vec<u64> = d.created.clone();
    for t in &d.dropped { match left.iter().position(|x| x == t) { Some(p) => { left.remove(p); } None => return viol("P09/dropped-twice", say(format!("value {}", t))) } }
    match &d.got {
        Some(o) => {
            let toks = o.tokens();
            if !d.dropped.is_empty() { return viol("P09/not-what-was-created", say("values were created and thrown away".into())); }
            if toks != left { let mut s = toks.clone(); s.sort(); left.sort(); return viol(if s == left { "P09/out-of-order" } else { "P09/not-what-was-created" }, say(format!("the caller received {:?}", toks))); }
            if i.lay.refusal(i.img.len()).is_none() {
                let want: Vec<u16> = i.obj.tags().into_iter().filter(|x| *x != 0).collect();
                let got: Vec<u16> = o.tags().into_iter().filter(|x| *x != 0).collect();
                if want != got { return viol("P09/out-of-order", say(format!("components {:?} instead of {:?}", got, want))); }
            }
            ctx.count("probe:values_handed_over");
        }
        None => {
            if !left.is_empty() { return viol("P09/leaked", say(format!("values {:?} were never dropped", left))); }
            if !d.created.is_empty() { ctx.count(if d.panicked { "probe:cleaned_up_after_panic" } else { "probe:cleaned_up_after_error" }); }
        }
    }
    Ok(())
}

fn p10(i: &Inp, d: &Done, prior: u64, ctx: &mut Ctx) -> Res {
    let n = d.host.len() - 2 * GUARD;
    if d.r.is_err() { return Ok(()); }
    let refused = matches!(i.kind, K_UNPACK | K_UNARRAY) && i.lay.refusal(n).is_some();
    let allowed = match i.kind {
        K_VEC | K_RENDER => return Ok(()),
        K_UNPACK | K_UNARRAY if !refused && i.lay.static_size().is_none() => bound(elements(&i.lay, n), i.sh.elem_size()),
        _ => 0,
    };
    if d.heap.bytes > allowed || allowed == 0 && d.heap.requests > 0 {
        return viol(if allowed == 0 { "P10/heap-used" } else { "P10/heap-out-of-proportion" }, format!("{}: {} heap requests for {} bytes, allowed {}", i.what, d.heap.requests, d.heap.bytes, allowed));
    }
    if refused { ctx.count("probe:refusal_without_heap"); }
    if allowed == 0 {
        // again, while every request fails
        let fill = d.before.clone();
        exhaust_heap(true);
        let e = run_op(i.sh, i.obj, i.kind, i.img, i.delta, prior, vec![], false);
        exhaust_heap(false);
        ctx.count("fault:heap_exhausted");
        if d.fired == 0 && (e.r != d.r || e.host != d.host || e.before != fill) { return viol("P10/exhausted-heap-changes-result", format!("{}: {:?} with heap, {:?} without", i.what, d.r, e.r)); }
    } else { ctx.count("probe:vector_heap_bounded"); }
    Ok(())
}
fn elements(l: &Lay, n: usize) -> usize { match l { Lay::Seq(e) => n / e.static_size().unwrap_or(1).max(1), Lay::Tup(v) => { let fixed: usize = v.iter().filter_map(|l| l.static_size()).sum(); v.iter().filter(|l| l.static_size().is_none()).map(|l| elements(l, n.saturating_sub(fixed))).sum() } _ => 0 } }

impl Scenario for Comp {
    fn id(&self) -> &'static str { match self.0 { Focus::P03 => "P03", Focus::P07 => "P07", Focus::P08 => "P08", Focus::P09 => "P09", Focus::P10 => "P10" } }
    fn op_names(&self) -> &'static [&'static str] { &["operation(id,shape,kind,prior,delta,lengths..)", "component-fault(op,callback,nth,fault,sticky)", "declared-layout(entry,container,kind,prior,delta,count,hdr,values..)"] }
    fn describe(&self, s: &Step) -> String {
        match s.op {
            OP => { let sh = SHAPES[(s.g(1) % SHAPES.len() as u64) as usize]; format!("operation {}: {} of {} prior={:#x} delta={} lengths={:?}", s.g(0), KINDS[kind_for(sh, s.g(2)) as usize], sh.name(), s.g(3), s.g(4), lens_of(sh, s.a.get(5..).unwrap_or(&[]))) }
            ARM => format!("operation {}: callback '{}' number {} {}", s.g(0), probe::OPS[(s.g(1) % 4) as usize], s.g(2), if s.g(3) % 11 == PANIC { "panics".into() } else { format!("fails with {:?}", probe::error_of(s.g(3) % 11)) }),
            _ => format!("{} of {} kind={} prior={:#x} delta={} count={}", container(s.g(1) % NCONT), zoo::at(s.g(0)).info().name, s.g(2), s.g(3), s.g(4), s.g(5)),
        }
    }
    fn budget(&self, th: bool) -> u64 { let q = match self.0 { Focus::P03 => 20_000, Focus::P10 => 12_000, _ => 30_000 }; if th { q * 8 } else { q } }
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["packed_struct slice packing (vectors, tuples 1-10, blanket implementation)", "generated pack/unpack code of the shape records and of the zoo"], &["components (scripted, with a ledger of live values)", "heap (counting, can refuse every request)", "delivery lengths", "caller's buffers"])
    }
    fn rule(&self) -> &'static str { "a run is 2-8 operations on random compositions with component faults, wrong lengths, prior buffer contents and an exhausted heap drawn from its seed; counted as distinct: (composition, operation, outcome, callback at which the fault fired) tuples" }
    fn must_reach(&self) -> &'static [&'static str] {
        match self.0 {
            Focus::P03 => &["probe:refused_length", "probe:two_dynamic_parts", "probe:length_accepted"],
            Focus::P07 => &["probe:first_error_reported", "probe:all_components_succeeded", "probe:panic_passed_on", "fault:error_in_pack", "fault:error_in_unpack", "fault:error_in_size", "fault:error_in_convert"],
            Focus::P08 => &["probe:failed_pack_inspected", "probe:panicked_pack_inspected", "probe:leading_component_written", "probe:complete_image", "probe:prior_content_irrelevant"],
            Focus::P09 => &["probe:cleaned_up_after_error", "probe:cleaned_up_after_panic", "probe:values_handed_over", "probe:nothing_created"],
            Focus::P10 => &["fault:heap_exhausted", "probe:refusal_without_heap", "probe:vector_heap_bounded"],
        }
    }
    fn gen(&self, r: &mut Rng) -> Plan {
        let mut p = Plan { cfg: vec![], steps: vec![] };
        let n = 2 + r.below(7);
        let faulty = r.below(4) != 0;
        let panics = r.chance(1, 3);
        for id in 0..n {
            let zoo_share = match self.0 { Focus::P03 | Focus::P10 => 2, Focus::P08 => 4, _ => u64::MAX };
            if zoo_share != u64::MAX && r.chance(1, zoo_share) {
                let e = r.below(zoo::usual().len() as u64);
                let c = gen_container(r);
                let i = zoo::at(e).info();
                let count = gen_count(i, r) % 3000;
                let mut a = vec![e, c, r.below(4), r.u64(), if r.chance(2, 3) { r.below(64) } else { r.below(2048) }, count, r.u64() & 0xFFFF_FFFF];
                a.extend(gen_raws(c, i, count, r));
                p.push(ZOO, a);
                continue;
            }
            let shape = r.below(SHAPES.len() as u64);
            let kind = match self.0 { Focus::P08 => if r.chance(3, 4) { K_PACK } else { r.below(7) }, Focus::P09 => if r.chance(2, 3) { K_UNPACK } else { r.below(8) }, _ => r.below(7) };
            let mut a = vec![id, shape, kind, r.u64(), if r.chance(1, 3) { 0 } else if r.chance(2, 3) { r.below(64) } else { r.below(2048) }];
            let long = r.chance(1, 12);
            for _ in 0..SHAPES[shape as usize].lay().seqs().max(1) { a.push(if long { if r.chance(1, 4) { probe::HUGE + r.below(4096) } else { r.below(120) } } else { r.below(6) }); }
            p.push(OP, a);
            if faulty {
                let k = if self.0 == Focus::P10 || self.0 == Focus::P03 { 0 } else { match r.below(6) { 0 => 0, 1..=4 => 1, _ => 2 } };
                for _ in 0..k {
                    let op = match r.below(8) { 0 => SIZE, 1 => CONV, 2..=4 => PACK, _ => UNPACK } as u64;
                    let nth = if r.chance(1, 4) { 0 } else { r.below(130) };
                    p.push(ARM, vec![id, op, nth, if panics && r.chance(1, 2) { PANIC } else { r.below(10) }, r.below(4)]);
                }
            }
        }
        p
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> Res {
        probe::reset(vec![], false);
        let mut w = W { f: self.0, ctx, kept: vec![] };
        let r = (|| { for s in &plan.steps { match s.op { OP => w.op(plan, s)?, ZOO => w.zoo(s)?, _ => {} } } Ok(()) })();
        let kept = std::mem::take(&mut w.kept);
        let n = plan.steps.len() as u64;
        drop(kept);
        r?;
        if self.0 == Focus::P09 {
            let (live, double) = probe::with(|s| (s.live.len(), s.double_drops));
            if double > 0 { return viol("P09/dropped-twice", format!("{} values handed over earlier were dropped twice", double)); }
            if live > 0 { return viol("P09/leaked", format!("{} component values are still alive at the end of the run", live)); }
        }
        ctx.sim_ns += n * 1000;
        Ok(())
    }
}
