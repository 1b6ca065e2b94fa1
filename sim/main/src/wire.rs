//! Messages, containers, links: the part of the world shared by P01-P06 (and P13).
use packed_struct::PackingError;
use simcore::model::*;
use simcore::ops::{Ops, PR};
use simcore::rng::{mix, Rng};
use simcore::seam::Lib;
use crate::wide;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Msg { pub hdr: u8, pub mid: [u8; 3], pub elems: Vec<Vec<i128>>, pub tail: Vec<i128>, /** plain bytes of the wider containers */ pub raw: Vec<u8> }

/// Containers a record travels in.
pub const SINGLE: u64 = 0;
pub const VEC: u64 = 1;
pub const TUP: u64 = 2; // (u8, Vec<T>, T)
pub const STUP: u64 = 3; // (T, [u8; 3], T)
/// the containers every peer build knows
pub const NBASE: u64 = 4;
/// and with those of wide.rs
pub const NCONT: u64 = NBASE + wide::NWIDE;
pub fn container(c: u64) -> &'static str { ["T", "Vec<T>", "(u8,Vec<T>,T)", "(T,[u8;3],T)"].get(c as usize).copied().unwrap_or_else(|| wide::WIDE[(c - NBASE) as usize].0) }
/// Of one length whatever the message.
pub fn fixed(c: u64) -> bool { match c { SINGLE | STUP => true, VEC | TUP => false, _ => wide::variable(c - NBASE).is_none() } }
/// How often the record occurs in the fixed part.
fn fixed_records(c: u64) -> u64 { match c { SINGLE | TUP => 1, VEC => 0, STUP => 2, _ => wide::fixed_records(c - NBASE) as u64 } }
/// Bytes every message of this kind takes at least.
pub fn least(c: u64, n: usize) -> usize { match c { SINGLE => n, VEC => 0, TUP => n + 1, STUP => 2 * n + 3, _ => wide::fixed_len(c - NBASE, n) } }

#[derive(Debug, PartialEq, Clone)]
pub enum Dec { Ok(Msg), Size(PackingError), Invalid }

/// (offset, kind) of each record image inside a frame of the right length; None = raw bytes.
pub fn record_offsets(c: u64, i: &RecInfo, len: usize) -> Vec<usize> {
    let n = i.nbytes;
    match c {
        SINGLE => vec![0],
        VEC => (0..len / n).map(|k| k * n).collect(),
        TUP => { let k = (len - 1 - n) / n; let mut v: Vec<usize> = (0..k).map(|j| 1 + j * n).collect(); v.push(1 + k * n); v }
        STUP => vec![0, n + 3],
        _ => wide::layout(c - NBASE, n, len).map(|x| x.0).unwrap_or_default(),
    }
}
/// Size the declared container demands; None when the length fits.
pub fn size_error(c: u64, i: &RecInfo, len: usize) -> Option<PackingError> {
    let n = i.nbytes;
    match c {
        SINGLE => if len != n { Some(PackingError::BufferSizeMismatch { expected: n, actual: len }) } else { None },
        VEC => if len % n != 0 { Some(PackingError::BufferModMismatch { actual_size: len, modulo_required: n }) } else { None },
        TUP => if len < 1 + n { Some(PackingError::BufferSizeMismatch { expected: 1 + n, actual: len }) }
            else if (len - 1 - n) % n != 0 { Some(PackingError::BufferModMismatch { actual_size: len - 1 - n, modulo_required: n }) } else { None },
        STUP => if len != 2 * n + 3 { Some(PackingError::BufferSizeMismatch { expected: 2 * n + 3, actual: len }) } else { None },
        _ => wide::layout(c - NBASE, n, len).err(),
    }
}
pub fn encode(c: u64, i: &RecInfo, m: &Msg) -> Vec<u8> {
    let mut b = vec![];
    match c {
        SINGLE => b = i.encode(&m.elems[0]),
        VEC => for e in &m.elems { b.extend(i.encode(e)) },
        TUP => { b.push(m.hdr); for e in &m.elems { b.extend(i.encode(e)) } b.extend(i.encode(&m.tail)); }
        NBASE.. => b = wide::encode(c - NBASE, i, m),
        STUP => { b.extend(i.encode(&m.elems[0])); b.extend(m.mid); b.extend(i.encode(&m.tail)); }
    }
    b
}
pub fn decode(c: u64, i: &RecInfo, b: &[u8]) -> Dec {
    if let Some(e) = size_error(c, i, b.len()) { return Dec::Size(e); }
    let n = i.nbytes;
    let mut m = Msg::default();
    let offs = record_offsets(c, i, b.len());
    for (k, o) in offs.iter().enumerate() {
        match i.decode(&b[*o..*o + n]) {
            Err(_) => return Dec::Invalid,
            Ok(v) => if (c == TUP || c == STUP) && k + 1 == offs.len() { m.tail = v } else { m.elems.push(v) },
        }
    }
    if c == TUP { m.hdr = b[0]; }
    if c == STUP { m.mid.copy_from_slice(&b[n..n + 3]); }
    m.raw = raw_bytes(c, i, b);
    Dec::Ok(m)
}
/// Whether a part in front of the one whose length is wrong holds an undefined value (which error comes first is open).
pub fn undefined_in_front(c: u64, i: &RecInfo, b: &[u8]) -> bool {
    c >= NBASE && wide::in_front(c - NBASE, i.nbytes).iter().any(|o| b.get(*o..*o + i.nbytes).map_or(false, |x| i.decode(x).is_err()))
}
/// The plain bytes of a frame of the wider containers.
pub fn raw_bytes(c: u64, i: &RecInfo, b: &[u8]) -> Vec<u8> {
    if c < NBASE { return vec![]; }
    wide::layout(c - NBASE, i.nbytes, b.len()).map(|x| x.1.iter().map(|o| b[*o]).collect()).unwrap_or_default()
}
/// Canonical form of a frame that unpacks: field bits kept, reserved bits at their constant, the rest zero.
pub fn canonical(c: u64, i: &RecInfo, b: &[u8]) -> Vec<u8> {
    let mut r = b.to_vec();
    for o in record_offsets(c, i, b.len()) {
        let src = b[o..o + i.nbytes].to_vec();
        let dst = &mut r[o..o + i.nbytes];
        dst.iter_mut().for_each(|x| *x = 0);
        for l in i.leaves { for k in 0..l.width {
            let v = match l.kind { Kind::Res(one) => one, _ => get_bit(&src, l.start + k) };
            set_bit(dst, l.start + k, v);
        } }
    }
    r
}
/// Which bits of a frame are specified (all but the padding of stand-alone partial-byte integers).
pub fn mask(c: u64, i: &RecInfo, len: usize) -> Vec<u8> {
    let mut m = vec![0xFF; len];
    if i.pad_any { let s = i.specified_mask(); for o in record_offsets(c, i, len) { m[o..o + i.nbytes].copy_from_slice(&s); } }
    m
}
pub fn same_under(m: &[u8], a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && a.iter().zip(b).zip(m).all(|((x, y), m)| (x ^ y) & m == 0) }

pub fn lib_unpack(c: u64, api: u64, o: &'static dyn Ops, b: &[u8]) -> Lib<PR<Msg>> {
    let one = |v: Vec<i128>| Msg { elems: vec![v], ..Default::default() };
    Ok(match c {
        SINGLE => if api & 1 == 1 && b.len() == o.info().nbytes { o.unpack_array(b)?.map(one) } else { o.unpack(b)?.map(one) },
        VEC => o.vec_unpack(b)?.map(|elems| Msg { elems, ..Default::default() }),
        TUP => o.tup_unpack(b)?.map(|(hdr, elems, tail)| Msg { hdr, elems, tail, ..Default::default() }),
        NBASE.. => wide::unpack(c - NBASE, o, b)?,
        _ => o.stup_unpack(b)?.map(|(a, mid, tail)| Msg { mid, elems: vec![a], tail, ..Default::default() }),
    })
}
pub fn true_len(c: u64, i: &RecInfo, m: &Msg) -> usize {
    match c { SINGLE => i.nbytes, VEC => m.elems.len() * i.nbytes, TUP => 1 + (m.elems.len() + 1) * i.nbytes, STUP => 3 + 2 * i.nbytes, _ => wide::len_of(c - NBASE, i.nbytes, m) }
}
/// `api`: 0 into a caller's buffer, 1 to a fresh vector, 2 to an array (single records)
pub fn lib_pack(c: u64, api: u64, o: &'static dyn Ops, m: &Msg, prior: u8) -> Lib<PR<Vec<u8>>> {
    let api = api % 3;
    if api == 1 && c != STUP {
        return match c { SINGLE => o.pack_to_vec(&m.elems[0]), VEC => o.vec_to_vec(&m.elems), NBASE.. => wide::to_vec(c - NBASE, o, m), _ => o.tup_to_vec(m.hdr, &m.elems, &m.tail) };
    }
    if api == 2 && c == SINGLE { return o.pack(&m.elems[0]); }
    let mut out = vec![prior; true_len(c, o.info(), m)];
    Ok(lib_pack_into(c, o, m, &mut out)?.map(|_| out))
}
pub fn lib_pack_into(c: u64, o: &'static dyn Ops, m: &Msg, out: &mut [u8]) -> Lib<PR<()>> {
    match c {
        SINGLE => o.pack_into(&m.elems[0], out),
        VEC => o.vec_pack_into(&m.elems, out),
        TUP => o.tup_pack_into(m.hdr, &m.elems, &m.tail, out),
        NBASE.. => wide::pack_into(c - NBASE, o, m, out),
        _ => o.stup_pack_into(&m.elems[0], m.mid, &m.tail, out),
    }
}
pub fn lib_size(c: u64, o: &'static dyn Ops, m: Option<&Msg>) -> Lib<PR<usize>> {
    match c {
        SINGLE => o.size(m.map(|m| &m.elems[0][..])),
        VEC => o.vec_size(m.map(|m| &m.elems[..])),
        TUP => o.tup_size(m.map(|m| (m.hdr, &m.elems[..], &m.tail[..]))),
        NBASE.. => wide::size(c - NBASE, o, m),
        _ => o.stup_size(m.map(|m| (&m.elems[0][..], &m.tail[..]))),
    }
}

/// Builds the message a plan step describes: total over any arguments.
pub fn build_msg(c: u64, i: &RecInfo, count: u64, hdr: u64, raws: &[u64]) -> Msg {
    let nv = i.nvals();
    let ne = match c { SINGLE | STUP => 1, _ => count as usize };
    let nt = match c { TUP | STUP => 1, _ => 0 };
    let get = |k: usize| -> Vec<i128> {
        let r: Vec<u64> = (0..nv).map(|j| {
            let p = k * nv + j;
            if p < raws.len() { raws[p] } else if k >= 4 && !raws.is_empty() { mix(raws[p % raws.len()], p as u64) } else { 0 }
        }).collect();
        i.fix_vals(&r)
    };
    if c >= NBASE {
        let k = c - NBASE;
        let var = wide::variable(k);
        let ne = wide::fixed_records(k) + if matches!(var, Some(wide::P::RV | wide::P::PV)) { count as usize } else { 0 };
        let nr = wide::fixed_bytes(k) + if matches!(var, Some(wide::P::BV | wide::P::PV)) { count as usize } else { 0 };
        return Msg { elems: (0..ne).map(|e| get(e)).collect(), raw: (0..nr).map(|j| mix(hdr, j as u64) as u8).collect(), ..Default::default() };
    }
    let mut m = Msg::default();
    if c == TUP { m.hdr = hdr as u8; }
    if c == STUP { m.mid = [(hdr >> 8) as u8, (hdr >> 16) as u8, (hdr >> 24) as u8]; }
    for k in 0..ne { m.elems.push(get(k + nt)); }
    if nt == 1 { m.tail = get(0); }
    m
}
/// Raw numbers for build_msg.
pub fn gen_raws(c: u64, i: &RecInfo, count: u64, rng: &mut Rng) -> Vec<u64> {
    let k = (fixed_records(c) + if fixed(c) { 0 } else { count }).min(6);
    let mut r = vec![];
    for _ in 0..k { for v in i.gen_vals(rng) { r.push(v as u64) } }
    r
}
/// A container for a run: mostly plain ones.
pub fn gen_container(rng: &mut Rng) -> u64 {
    match rng.below(11) { 0..=3 => SINGLE, 4 | 5 => VEC, 6 => TUP, 7 => STUP, _ => NBASE + rng.below(wide::NWIDE) }
}
pub fn gen_count(i: &RecInfo, rng: &mut Rng) -> u64 {
    match rng.below(60) {
        0 => (66_000 / i.nbytes as u64 + 2).min(9000),
        1..=3 => rng.range(250, 270),
        4..=8 => rng.range(7, 40),
        9..=14 => 0,
        _ => rng.range(1, 6),
    }
}

// ---------------------------------------------------------------------------------------------------
// Damage

pub const DROP: u64 = 0;
pub const DUP: u64 = 1;
pub const DELAY: u64 = 2;
pub const FLIP: u64 = 3;
pub const BURST: u64 = 4;
pub const STUCK: u64 = 5;
pub const TRUNC: u64 = 6;
pub const EXTEND: u64 = 7;
pub const SPLICE: u64 = 8;
pub const MISROUTE: u64 = 9;
pub const TORN: u64 = 10;
pub const SETFIELD: u64 = 11;
pub const MERGE: u64 = 12;
pub const NOISE: u64 = 13;
pub const GAPS: u64 = 14;
pub const NFAULTS: u64 = 15;
pub const FAULTS: [&str; 15] = ["drop", "duplicate", "delay_reorder", "bit_flip", "burst", "stuck_bits", "truncate", "extend", "splice",
    "misroute", "torn_read", "foreign_field_value", "merge", "noise", "gap_and_reserved_bits"];

pub fn noise(len: usize, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed);
    match seed % 5 { 0 => vec![0; len], 1 => vec![0xFF; len], 2 => vec![r.u64() as u8; len], _ => (0..len).map(|_| r.u64() as u8).collect() }
}
fn noise_len(x: u64, around: usize) -> usize {
    match x % 8 { 0 => (x >> 3) as usize % 4, 1 => around, 2 => around + (x >> 3) as usize % 3, 3 => around.saturating_sub((x >> 3) as usize % 3), 4 => (x >> 3) as usize % 70_000, _ => (x >> 3) as usize % (4 * around + 4) }
}

/// Applies one kind of damage; `prev` is the previous frame seen on this link. Returns whether anything changed.
pub fn damage(kind: u64, p: [u64; 3], c: u64, i: &RecInfo, f: &mut Vec<u8>, prev: Option<&Vec<u8>>) -> bool {
    let before = f.clone();
    let nb = f.len() as u64 * 8;
    match kind {
        FLIP => if nb > 0 { for k in 0..1 + p[1] % 3 { let b = (p[0].wrapping_add(k.wrapping_mul(p[2]))) % nb; let v = get_bit(f, b as u32); set_bit(f, b as u32, !v); } },
        BURST => if nb > 0 { let s = p[0] % nb; let l = 1 + p[1] % 40; let mut r = Rng::new(p[2]); for k in s..(s + l).min(nb) { let v = r.chance(1, 2); set_bit(f, k as u32, v); } },
        STUCK => if nb > 0 { let s = p[0] % nb; let l = 1 + p[1] % nb; for k in s..(s + l).min(nb) { set_bit(f, k as u32, p[2] & 1 == 1); } },
        TRUNC => if !f.is_empty() {
            let n = match p[0] % 4 { 0 => 1, 1 => f.len(), 2 => i.nbytes.min(f.len()), _ => 1 + (p[1] as usize) % f.len() };
            if p[2] & 1 == 0 { f.truncate(f.len() - n) } else { f.drain(..n); }
        },
        EXTEND => {
            let n = match p[0] % 4 { 0 => 1, 1 => i.nbytes, 2 => 1 + (p[1] as usize) % 9, _ => 1 + (p[1] as usize) % (2 * f.len() + 300) };
            f.extend(noise(n, p[2]));
        }
        SPLICE => if let Some(q) = prev { if !f.is_empty() && !q.is_empty() { let at = p[0] as usize % f.len(); let from = if p[2] & 1 == 0 { at.min(q.len()) } else { p[1] as usize % q.len() };
            f.truncate(at); f.extend_from_slice(&q[from..]); } },
        TORN => if let Some(q) = prev { if q.len() == f.len() && !f.is_empty() {
            // chunk-wise read while the device replaces the old image by the new one
            let chunk = 1 + p[0] as usize % 8;
            let switch = p[1] as usize % (f.len() + 1);
            for k in 0..f.len() { let old = if p[2] & 1 == 0 { k / chunk * chunk < switch } else { k / chunk * chunk >= switch }; if old { f[k] = q[k]; } }
        } },
        SETFIELD => if size_error(c, i, f.len()).is_none() {
            let offs = record_offsets(c, i, f.len());
            let ls: Vec<&Leaf> = i.value_leaves().collect();
            if !offs.is_empty() && !ls.is_empty() {
                let o = offs[p[0] as usize % offs.len()];
                let l = ls[p[1] as usize % ls.len()];
                let raw = match l.kind {
                    // near and aliasing declared numbers
                    Kind::Enum { info, .. } => { let d = info.disc[(p[2] >> 8) as usize % info.disc.len()]; match p[2] % 6 {
                        0 => l.raw_of(d + 1), 1 => l.raw_of(d - 1), 2 => l.raw_of(d) ^ (1 << ((p[2] >> 16) % l.width.max(1) as u64)), 3 => l.raw_of(-d), 4 => l.raw_of(d), _ => l.raw_of((p[2] >> 3) as i128) } }
                    Kind::Bool => l.raw_of(match p[2] % 4 { 0 => 2, 1 => -1, 2 => 1, _ => (p[2] >> 2) as i128 }),
                    _ => l.raw_of(p[2] as i128),
                };
                l.put_raw(&mut f[o..o + i.nbytes], raw);
            }
        },
        MERGE => if let Some(q) = prev { if p[0] & 1 == 0 { f.extend_from_slice(q) } else { let mut x = q.clone(); x.extend_from_slice(f); *f = x; } },
        NOISE => { *f = noise(noise_len(p[0], f.len()), p[1]); return true; }
        GAPS => if size_error(c, i, f.len()).is_none() {
            let mut r = Rng::new(p[0]);
            for o in record_offsets(c, i, f.len()) {
                let b = &mut f[o..o + i.nbytes];
                let mut owned = vec![false; i.nbytes * 8];
                for l in i.value_leaves() { for k in 0..l.width { owned[(l.start + k) as usize] = true } }
                for (k, own) in owned.iter().enumerate() { if !own { let v = match p[1] % 3 { 0 => true, 1 => r.chance(1, 2), _ => !get_bit(b, k as u32) }; set_bit(b, k as u32, v); } }
            }
        },
        _ => {}
    }
    *f != before
}
pub fn keeps_length(kind: u64) -> bool { matches!(kind, FLIP | BURST | STUCK | TORN | SETFIELD | GAPS) }
