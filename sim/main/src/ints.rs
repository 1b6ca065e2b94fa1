//! P14: a device with bit-limited registers. Bytes arrive damaged, state is saved to and restored from storage that
//! fails, tears and decays. Every integer that comes out of any of it is judged.
use crate::fw::*;
use crate::wire::noise;
use crate::zoo;
use ::ints::*;
use simcore::model::*;
use simcore::rng::{hash_str, mix, Rng};
use std::io::{Error, ErrorKind, Read, Write};

pub struct Ints;
const CONVERT: u8 = 0; // type way raw
const RECEIVE: u8 = 1; // type way seed style
const GIVEN: u8 = 2; // type form raw
const SET: u8 = 3; // kind seed
const SAVE: u8 = 4; // format chunk-seed fault at
const CRASH: u8 = 5; // keep fill
const DECAY: u8 = 6; // slot kind a b
const RESTORE: u8 = 7; // chunk-seed fault at
const RECORD: u8 = 8; // zoo type, seed, style

/// Storage of one slot.
#[derive(Clone, Default)]
struct Slot { kind: u64, format: u64, bytes: Vec<u8>, full: usize, saved: Option<usize>, state: State }
#[derive(Clone, Copy, PartialEq, Debug, Default)]
enum State { #[default] Empty, Whole, Cut, Damaged }

struct Dev<'a> { out: &'a mut Vec<u8>, chunks: Rng, calm: bool, fail: Option<(usize, u64)>, short: u64, intr: u64, failed: bool }
impl<'a> Write for Dev<'a> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        simcore::seam::outside(|| {
            if b.is_empty() { return Ok(0); }
            if !self.calm && self.chunks.chance(1, 9) { self.intr += 1; return Err(ErrorKind::Interrupted.into()); }
            let mut n = if self.calm { b.len() } else { (1 + self.chunks.below(9) as usize).min(b.len()) };
            if let Some((at, how)) = self.fail {
                if self.out.len() >= at { self.failed = true; return match how % 3 { 0 => Err(Error::new(ErrorKind::Other, "device error")), 1 => Err(Error::new(ErrorKind::StorageFull, "disk full")), _ => Ok(0) }; }
                n = n.min(at - self.out.len());
            }
            if n < b.len() { self.short += 1; }
            self.out.extend_from_slice(&b[..n]);
            Ok(n)
        })
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
struct Src<'a> { b: &'a [u8], pos: usize, chunks: Rng, calm: bool, fail: Option<usize>, short: u64, intr: u64, failed: bool }
impl<'a> Read for Src<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        simcore::seam::outside(|| {
            if b.is_empty() { return Ok(0); }
            if !self.calm && self.chunks.chance(1, 9) { self.intr += 1; return Err(ErrorKind::Interrupted.into()); }
            let mut n = b.len().min(self.b.len() - self.pos);
            if let Some(at) = self.fail { if self.pos >= at { self.failed = true; return Err(Error::new(ErrorKind::Other, "read error")); } n = n.min(at - self.pos); }
            if !self.calm && n > 1 { let m = (1 + self.chunks.below(9) as usize).min(n); if m < n { self.short += 1; } n = m; }
            b[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
            self.pos += n;
            Ok(n)
        })
    }
}

fn range(width: u32, signed: bool) -> (i128, i128) { if signed { (-(1i128 << (width - 1)), (1i128 << (width - 1)) - 1) } else { (0, (1i128 << width) - 1) } }
fn judge(v: &Val, how: &str) -> Res {
    let (lo, hi) = range(v.width, v.signed);
    let say = |m: String| format!("a {} integer of {} bits {} holds {}: {}", if v.signed { "signed" } else { "unsigned" }, v.width, how, v.v, m);
    if v.v < lo || v.v > hi { return viol("P14/out-of-range", say(format!("outside of {}..={}", lo, hi))); }
    if v.again != v.v || !v.eq_again { return viol("P14/not-stable-under-conversion", say(format!("converting that number again gives {}{}", v.again, if v.eq_again { "" } else { ", which does not compare equal" }))); }
    if v.deref != v.v || v.into != v.v { return viol("P14/native-values-differ", say(format!("but shows {} and converts into {}", v.deref, v.into))); }
    Ok(())
}

struct World<'a> { cur: Box<dyn Snap>, kind: u64, slots: [Slot; 2], next: usize, saves: Vec<Box<dyn Snap>>, ctx: &'a mut Ctx }

impl<'a> World<'a> {
    fn judge_all(&mut self, s: &dyn Snap, how: &str) -> Res {
        let mut v = vec![];
        s.values(&mut v);
        self.ctx.evals += v.len() as u64;
        for x in &v { judge(x, how)?; }
        Ok(())
    }
    fn convert(&mut self, s: &Step) -> Res {
        let t = INTS[(s.g(0) % INTS.len() as u64) as usize];
        let (nb, w) = (t.native_bits(), t.width());
        let raw = if nb == 64 { s.g(2) } else { s.g(2) & ((1 << nb) - 1) };
        let native = if t.signed() && raw >> (nb - 1) & 1 == 1 { raw as i128 - (1i128 << nb) } else { raw as i128 };
        self.ctx.evals += 1;
        let v = match t.convert(native as u64, s.g(1)) { Ok(v) => v, Err(p) => return viol("P14/panicked", format!("converting {} into {}: {}", native, t.name(), p.0)) };
        let (lo, hi) = range(w, t.signed());
        let fits = native >= lo && native <= hi;
        if !fits { self.ctx.count("probe:excess_native_bits"); }
        self.ctx.sig(mix(mix(hash_str(&t.name()), 1), mix(fits as u64, native.signum() as u64)));
        self.ctx.ev(|| format!("{} from {}: {}", t.name(), native, v.v));
        self.ctx.h(v.v as u64);
        judge(&v, &format!("converted from {}", native))?;
        if fits && v.v != native { return viol("P14/in-range-number-changed", format!("{} from {} became {}", t.name(), native, v.v)); }
        Ok(())
    }
    fn receive(&mut self, s: &Step) -> Res {
        let t = INTS[(s.g(0) % INTS.len() as u64) as usize];
        let mut b = noise(t.nbytes(), s.g(2));
        let spare = 8 * t.nbytes() as u32 - t.width();
        // what a device with other ideas about the unused bits would send
        if spare > 0 { match s.g(3) % 3 { 0 => b[0] |= !(0xFFu8 >> spare), 1 => b[0] ^= !(0xFFu8 >> spare), _ => {} } }
        if spare > 0 && b[0] >> (8 - spare) != 0 { self.ctx.count("probe:excess_wire_bits"); }
        self.ctx.evals += 1;
        self.ctx.sig(mix(mix(hash_str(&t.name()), 2 + s.g(1) % 6), (spare > 0 && b[0] >> (8 - spare) != 0) as u64));
        let how = ["MSB array", "LSB array", "MSB slice", "LSB slice", "MSB bytes", "LSB bytes"][(s.g(1) % 6) as usize];
        match t.unpack(&b, s.g(1)) {
            Err(p) => viol("P14/panicked", format!("unpacking {} as {} from {}: {}", hex(&b), t.name(), how, p.0)),
            Ok(Err(e)) => viol("P14/bytes-refused", format!("unpacking {} as {} from {}: {:?}", hex(&b), t.name(), how, e)),
            Ok(Ok(v)) => { self.ctx.ev(|| format!("{} from {} {}: {}", t.name(), how, hex(&b), v.v)); self.ctx.h(v.v as u64); judge(&v, &format!("unpacked from {} ({})", hex(&b), how)) }
        }
    }
    fn given(&mut self, s: &Step) -> Res {
        let t = INTS[(s.g(0) % INTS.len() as u64) as usize];
        let x = s.g(2);
        let big = (x as i128) << (x % 60);
        let (g, num) = match s.g(1) % 18 {
            0 | 16 => (Given::U(x), Some(x as i128)), 1 | 17 => (Given::I(x as i64), Some(x as i64 as i128)),
            2 => (Given::UInPlace(x), Some(x as i128)), 3 => (Given::IInPlace(x as i64), Some(x as i64 as i128)),
            4 => (Given::U8(x as u8), Some(x as u8 as i128)), 5 => (Given::I8(x as i8), Some(x as i8 as i128)),
            6 => (Given::U16(x as u16), Some(x as u16 as i128)), 7 => (Given::I16(x as i16), Some(x as i16 as i128)),
            8 => (Given::U32(x as u32), Some(x as u32 as i128)), 9 => (Given::I32(x as i32), Some(x as i32 as i128)),
            10 => (Given::U128(big as u128), None), 11 => (Given::I128(-big), None),
            12 => (Given::F(x as i64 as f64 / 4.0), None), 13 => (Given::S(format!("{}", x as i64)), None),
            14 => (match x % 3 { 0 => Given::B(x & 8 != 0), 1 => Given::C((x >> 8) as u8 as char), _ => Given::Unit }, None),
            _ => (Given::Bytes(x.to_le_bytes()[..(x % 9) as usize].to_vec()), None),
        };
        self.ctx.evals += 1;
        let r = match t.restore(&g) { Ok(r) => r, Err(p) => return viol("P14/panicked", format!("restoring {} from {:?}: {}", t.name(), g, p.0)) };
        self.ctx.ev(|| format!("{} restored from {:?}: {:?}", t.name(), g, r.map(|v| v.v)));
        let (lo, hi) = range(t.width(), t.signed());
        let fits = num.map(|n| n >= lo && n <= hi);
        self.ctx.sig(mix(mix(hash_str(&t.name()), 10 + s.g(1) % 18), mix(r.is_some() as u64, (fits == Some(true)) as u64)));
        self.ctx.h(r.map_or(1, |v| v.v as u64));
        if let Some(v) = r {
            if fits == Some(false) { self.ctx.count("probe:excess_stored_number"); }
            judge(&v, &format!("restored from {:?}", g))?;
            if fits == Some(true) && Some(v.v) != num { return viol("P14/restored-other-value", format!("{} restored from {:?} is {}", t.name(), g, v.v)); }
        } else if fits == Some(true) { return viol("P14/saved-value-refused", format!("{} refuses {:?}, which it can hold", t.name(), g)); }
        Ok(())
    }
    fn record(&mut self, s: &Step) -> Res {
        let o = zoo::at(s.g(0));
        let i = o.info();
        let mut b = noise(i.nbytes, s.g(1));
        if s.g(2) % 2 == 1 { // valid values, then damage
            let mut r = Rng::new(s.g(1));
            b = i.encode(&i.gen_vals(&mut r));
            for _ in 0..s.g(2) % 5 { let k = r.below(b.len() as u64) as usize; b[k] = r.u64() as u8; }
        }
        self.ctx.evals += 1;
        match o.unpack(&b) {
            Err(p) => viol("P14/panicked", format!("unpacking {} from {}: {}", i.name, hex(&b), p.0)),
            Ok(Err(_)) => Ok(()),
            Ok(Ok(v)) => {
                self.ctx.count("probe:foreign_record_accepted");
                for (l, x) in i.value_leaves().zip(&v) {
                    if !matches!(l.kind, Kind::U | Kind::S) { continue; }
                    let (lo, hi) = range(l.width, l.signed());
                    if *x < lo || *x > hi { return viol("P14/out-of-range", format!("{} unpacked from {}: field {} ({} bits, {}) holds {}", i.name, hex(&b), l.name, l.width, if l.signed() { "signed" } else { "unsigned" }, x)); }
                }
                Ok(())
            }
        }
    }
    fn save(&mut self, s: &Step) -> Res {
        // the untagged and flattened forms need a self-describing format
        let mut format = s.g(0) % NFORMATS;
        if self.kind == DESCRIBED && format == BINARY { format = JSON; }
        let mut bytes = vec![];
        let fail = if s.g(2) % 4 == 1 { Some((s.g(3) as usize, s.g(2) / 4)) } else { None };
        let mut d = Dev { out: &mut bytes, chunks: Rng::new(s.g(1)), calm: s.g(1) % 4 == 0, fail, short: 0, intr: 0, failed: false };
        let r = self.cur.save(format, &mut d);
        let (short, intr, failed) = (d.short, d.intr, d.failed);
        if short > 0 { self.ctx.add("fault:short_write", short); }
        if intr > 0 { self.ctx.add("fault:interrupted", intr); }
        if failed { self.ctx.count("fault:write_error"); }
        self.ctx.evals += 1;
        let r = match r { Ok(r) => r, Err(p) => return viol("P14/panicked", format!("saving {}: {}", self.cur.show(), p.0)) };
        let n = bytes.len();
        self.ctx.hb(&bytes);
        let k = self.next;
        self.ctx.ev(|| format!("save in form {} to slot {}: {} bytes, {:?}{}", format, k, n, r, if failed { " (storage failed)" } else { "" }));
        match (&r, failed) {
            (Ok(()), true) => return viol("P14/failed-save-reported-as-done", format!("saving {} to storage that failed after {} bytes reported success", self.cur.show(), n)),
            (Err(e), false) => return viol("P14/save-refused", format!("saving {} to working storage: {}", self.cur.show(), e)),
            _ => {}
        }
        self.saves.push(self.cur.copy());
        let sl = &mut self.slots[self.next];
        *sl = Slot { kind: self.kind, format, full: n, bytes, saved: Some(self.saves.len() - 1), state: if failed { State::Cut } else { State::Whole } };
        self.next ^= 1;
        Ok(())
    }
    /// Power loss: the slot written last may be there in part.
    fn crash(&mut self, s: &Step) -> Res {
        let sl = &mut self.slots[self.next ^ 1];
        if sl.state == State::Whole {
            let keep = match s.g(0) % 4 { 0 => sl.full, 1 => sl.full.saturating_sub(1 + (s.g(0) / 4 % 3) as usize), _ => (s.g(0) / 4) as usize % (sl.full + 1) };
            if keep < sl.full {
                sl.bytes.truncate(keep);
                sl.state = State::Cut;
                self.ctx.count("fault:torn_snapshot");
                if s.g(1) % 4 == 0 { sl.bytes.resize(sl.full, 0); sl.state = State::Damaged; self.ctx.count("fault:zero_filled_tail"); }
            }
        }
        self.ctx.count("fault:power_loss");
        let n = sl.bytes.len();
        self.ctx.ev(|| format!("power loss, {} bytes of the last snapshot are there", n));
        self.restore(&Step { op: RESTORE, a: vec![s.g(2), 0, 0] })
    }
    fn decay(&mut self, s: &Step) -> Res {
        let other = self.slots[(s.g(0) as usize & 1) ^ 1].bytes.clone();
        let sl = &mut self.slots[s.g(0) as usize & 1];
        if sl.state == State::Empty || sl.bytes.is_empty() { return Ok(()); }
        let before = sl.bytes.clone();
        let (a, b) = (s.g(2), s.g(3));
        let n = sl.bytes.len();
        match s.g(1) % 7 {
            0 => { let k = a % (8 * n as u64); let v = get_bit(&sl.bytes, k as u32); set_bit(&mut sl.bytes, k as u32, !v); }
            1 | 2 => {
                // a number in a text becomes another one
                let starts: Vec<usize> = (0..n).filter(|i| sl.bytes[*i].is_ascii_digit() && (*i == 0 || !sl.bytes[i - 1].is_ascii_digit())).collect();
                if let Some(st) = starts.get(a as usize % starts.len().max(1)) {
                    let mut e = *st;
                    while e < n && sl.bytes[e].is_ascii_digit() { e += 1; }
                    let new = match b % 8 { 0 => "255".into(), 1 => "127".into(), 2 => "-1".into(), 3 => "-128".into(), 4 => format!("{}", (b >> 4) as u16), 5 => format!("{}", (b >> 4) as u32 as i32), 6 => format!("{}", b), _ => format!("{}", b as i64) };
                    let mut neg = *st;
                    if new.starts_with('-') && neg > 0 && sl.bytes[neg - 1] == b'-' { neg -= 1; }
                    sl.bytes.splice(neg..e, new.bytes());
                }
            }
            3 => { let st = a as usize % n; let e = (st + 1 + b as usize % 16).min(n); for x in &mut sl.bytes[st..e] { *x = if b & 64 != 0 { 0xFF } else { 0 } } }
            4 => { let mut r = Rng::new(a); for _ in 0..1 + b % 12 { let k = r.below(n as u64) as usize; sl.bytes[k] = r.u64() as u8; } }
            5 => if !other.is_empty() { let at = a as usize % n; sl.bytes.truncate(at); sl.bytes.extend_from_slice(&other[(b as usize % other.len()).min(at.min(other.len()))..]); }
            _ => { let mut r = Rng::new(a); let mut st = b as usize % n; while st < n { sl.bytes[st] = r.u64() as u8; st += 1; } }
        }
        if sl.bytes != before { sl.state = State::Damaged; self.ctx.count("fault:decayed_snapshot"); }
        self.ctx.ev(|| format!("slot {} decays (kind {})", s.g(0) & 1, s.g(1) % 7));
        Ok(())
    }
    /// Start: the newest snapshot that can be restored, otherwise the older one.
    fn restore(&mut self, s: &Step) -> Res {
        for at in [self.next ^ 1, self.next] {
            let sl = self.slots[at].clone();
            if sl.state == State::Empty { continue; }
            let fail = if s.g(1) % 4 == 1 { Some(s.g(2) as usize % (sl.bytes.len() + 1)) } else { None };
            let mut src = Src { b: &sl.bytes, pos: 0, chunks: Rng::new(s.g(0)), calm: s.g(0) % 4 == 0, fail, short: 0, intr: 0, failed: false };
            let r = ::ints::restore(sl.kind, sl.format, &mut src);
            let (short, intr, failed) = (src.short, src.intr, src.failed);
            if short > 0 { self.ctx.add("fault:short_read", short); }
            if intr > 0 { self.ctx.add("fault:interrupted", intr); }
            if failed { self.ctx.count("fault:read_error"); }
            self.ctx.evals += 1;
            let want = &self.saves[sl.saved.unwrap()];
            let text = if sl.format == BINARY { hex(&sl.bytes) } else { String::from_utf8_lossy(&sl.bytes).chars().take(300).collect() };
            let say = |m: &str| format!("snapshot in form {} ({} of {} bytes: {}): {}", sl.format, sl.bytes.len(), sl.full, text, m);
            self.ctx.sig(mix(mix(sl.kind, sl.format), mix(sl.state as u64, failed as u64 + 2 * matches!(r, Ok(Ok(_))) as u64)));
            let r = match r { Ok(r) => r, Err(p) => return viol("P14/panicked", say(&p.0)) };
            self.ctx.ev(|| format!("restore from slot {} ({:?}{}): {}", at, sl.state, if failed { ", read error" } else { "" }, match &r { Ok(_) => "Ok".into(), Err(e) => e.clone() }));
            match (sl.state, r) {
                (_, Ok(_)) if failed => return viol("P14/failed-read-became-a-value", say("reading failed, yet a value was restored")),
                (State::Cut, Ok(_)) => return viol("P14/cut-snapshot-became-a-value", say("cut short, yet a value was restored")),
                (State::Whole, Ok(x)) => {
                    let (mut a, mut b) = (vec![], vec![]);
                    x.values(&mut a);
                    want.values(&mut b);
                    if !x.same(&**want) || a != b { return viol("P14/restored-other-value", say(&format!("restored {} instead of {}", x.show(), want.show()))); }
                    match (x.packed(), want.packed()) {
                        (Some(Ok(Ok(p))), Some(Ok(Ok(q)))) if p == q => {}
                        (None, None) => {}
                        (p, q) => return viol("P14/restored-other-value", say(&format!("the restored registers pack to {:?} instead of {:?}", p, q))),
                    }
                    self.ctx.count("probe:restored_equal");
                    self.judge_all(&*x, "restored from a snapshot")?;
                    self.cur = x;
                    self.kind = sl.kind;
                    return Ok(());
                }
                (State::Whole, Err(e)) if !failed => return viol("P14/whole-snapshot-refused", say(&e)),
                (State::Damaged, Ok(x)) => {
                    self.ctx.count("probe:damaged_snapshot_accepted");
                    self.judge_all(&*x, "restored from a damaged snapshot").map_err(|v| Violation { msg: say(&v.msg), ..v })?;
                    self.cur = x;
                    self.kind = sl.kind;
                    return Ok(());
                }
                (_, Err(_)) => {}
                (State::Empty, _) => {}
            }
        }
        Ok(())
    }
}

impl Scenario for Ints {
    fn id(&self) -> &'static str { "P14" }
    fn op_names(&self) -> &'static [&'static str] { &["convert(type,way,raw)", "receive(type,way,seed,style)", "restore_number(type,form,raw)", "set(kind,seed)", "save(form,chunks,fault,at)", "power_loss(keep,fill,chunks)", "decay(slot,kind,a,b)", "restore(chunks,fault,at)", "foreign_record(type,seed,style)"] }
    fn budget(&self, th: bool) -> u64 { if th { 400_000 } else { 30_000 } }
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["packed_struct integers, reserved bits, PackingError and their serde forms", "serde and serde_json", "generated pack/unpack"], &["storage with two slots (short, interrupted, failing reads and writes, full disk, power loss, decay)", "a positional binary format"])
    }
    fn rule(&self) -> &'static str { "a run draws native numbers and foreign bytes for the 128 integer types, states of a device, and a history of saves, power losses, decay and restores; counted as distinct: (integer type, way in, outcome) and (snapshot kind, form, slot state, outcome) tuples" }
    fn must_reach(&self) -> &'static [&'static str] { &["probe:excess_native_bits", "probe:excess_wire_bits", "probe:excess_stored_number", "probe:restored_equal", "probe:damaged_snapshot_accepted", "probe:foreign_record_accepted", "fault:torn_snapshot", "fault:write_error", "fault:read_error", "fault:short_read", "fault:short_write", "fault:interrupted"] }
    fn gen(&self, r: &mut Rng) -> Plan {
        let mut p = Plan::default();
        let nt = INTS.len() as u64;
        let raw = |r: &mut Rng, t: u64| {
            let w = INTS[t as usize].width();
            match r.below(5) { 0 => r.u64() >> r.below(64), 1 => (1u64 << (w - 1)).wrapping_add(r.below(3)).wrapping_sub(1), 2 => (1u64.checked_shl(w).unwrap_or(0)).wrapping_add(r.below(3)).wrapping_sub(1), 3 => 0u64.wrapping_sub(1u64 << (w - 1)).wrapping_add(r.below(3)).wrapping_sub(1), _ => r.pattern(64) }
        };
        for _ in 0..6 + r.below(20) {
            match r.below(20) {
                0..=3 => { let t = r.below(nt); let x = raw(r, t); p.push(CONVERT, vec![t, r.below(3), x]) }
                4..=6 => p.push(RECEIVE, vec![r.below(nt), r.below(6), r.u64(), r.below(3)]),
                7..=9 => { let t = r.below(nt); let x = raw(r, t); p.push(GIVEN, vec![t, r.below(18), x]) }
                10 | 11 => p.push(SET, vec![r.below(KINDS), r.u64()]),
                12 | 13 => p.push(SAVE, vec![r.below(NFORMATS), r.u64(), r.below(16), r.below(400)]),
                14 => p.push(CRASH, vec![r.u64() >> 32, r.below(4), r.u64()]),
                15 | 16 => p.push(DECAY, vec![r.below(2), r.below(7), r.u64() >> r.below(50), r.u64() >> r.below(50)]),
                17 => p.push(RECORD, vec![r.below(zoo::usual().len() as u64), r.u64(), r.below(10)]),
                _ => p.push(RESTORE, vec![r.u64(), r.below(8), r.below(2000)]),
            }
        }
        p
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> Res {
        let state = |kind: u64, seed: u64| { let mut r = Rng::new(seed); ::ints::make(kind, &mut || r.pattern(64)) };
        let mut w = World { cur: state(0, 1), kind: 0, slots: Default::default(), next: 0, saves: vec![], ctx };
        for s in &plan.steps {
            w.ctx.sim_ns += 1_000_000;
            match s.op {
                CONVERT => w.convert(s)?,
                RECEIVE => w.receive(s)?,
                GIVEN => w.given(s)?,
                SET => {
                    w.kind = s.g(0) % KINDS;
                    w.cur = state(w.kind, s.g(1));
                    w.ctx.ev(|| format!("new state of kind {}", s.g(0) % KINDS));
                    let c = w.cur.copy();
                    w.judge_all(&*c, "converted from random bits")?;
                }
                SAVE => w.save(s)?,
                CRASH => w.crash(s)?,
                DECAY => w.decay(s)?,
                RECORD => w.record(s)?,
                _ => w.restore(s)?,
            }
        }
        // faults stop: saving and restoring works
        w.save(&Step { op: SAVE, a: vec![JSON, 1, 0, 0] })?;
        w.restore(&Step { op: RESTORE, a: vec![2, 0, 0] })
    }
}
