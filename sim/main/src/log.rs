//! P13: a node that appends packed records to a simulated disk, crashes and recovers.
use crate::fw::*;
use crate::wire::*;
use crate::zoo;
use packed_struct::PackingError;
use shapes::{Obj, Shape, SHAPES};
use simcore::model::*;
use simcore::ops::{Ops, PR};
use simcore::probe::{self, Arm, Lay, PANIC, UNPACK};
use simcore::rng::{hash_str, mix, Rng};
use simcore::seam::Lib;

pub struct Log;
const APPEND: u8 = 0; // how count raws..
const SYNC: u8 = 1;
const CRASH: u8 = 2; // mode keep recovery-crash
const READ: u8 = 3;
const MERGE: u8 = 4; // split
const CHECKPOINT: u8 = 5; // count torn-at hdr raws..

/// Storage: what is durable, and writes that only are in the cache.
#[derive(Default)]
struct Disk { durable: Vec<u8>, cache: Vec<Vec<u8>> }
impl Disk {
    fn image(&self) -> Vec<u8> { let mut v = self.durable.clone(); for w in &self.cache { v.extend(w) } v }
    fn append(&mut self, b: Vec<u8>) { self.cache.push(b) }
    fn sync(&mut self) { for w in std::mem::take(&mut self.cache) { self.durable.extend(w) } }
    fn cached(&self) -> usize { self.cache.iter().map(|w| w.len()).sum() }
    /// Power loss: a prefix of the cached bytes, or of the cached writes, made it.
    fn crash(&mut self, mode: u64, keep: u64, rec: usize) -> usize {
        let n = self.cached();
        let k = match mode % 5 {
            0 => keep as usize % (n + 1),
            1 => { let w = keep as usize % (self.cache.len() + 1); self.cache[..w].iter().map(|w| w.len()).sum() }
            2 => 0,
            3 => n,
            _ => { // close to a record boundary
                let at = self.durable.len();
                let m = if rec > 0 { n / rec } else { 0 };
                let r = (at + (keep as usize % (m + 1)) * rec) as i64 - at as i64 + (keep / 7 % 5) as i64 - 2;
                r.clamp(0, n as i64) as usize
            }
        };
        let mut c: Vec<u8> = self.cache.concat();
        c.truncate(k);
        self.cache.clear();
        self.durable.extend(c);
        n - k
    }
    fn cut(&mut self, len: usize) { self.durable.truncate(len) }
    fn read(&self, seed: u64, ctx: &mut Ctx) -> Vec<u8> {
        // short reads
        let mut r = Rng::new(seed);
        let all = self.image();
        let mut out = vec![];
        while out.len() < all.len() { let n = (1 + r.below(300) as usize).min(all.len() - out.len()); if n < all.len() - out.len() { ctx.count("fault:short_read"); } out.extend_from_slice(&all[out.len()..out.len() + n]); }
        out
    }
}

/// What the log is made of: a declared record, or an element of a composition with scripted components.
enum Kind { Zoo(&'static dyn Ops), Shape(&'static dyn Shape) }
type Rec = Vec<i128>;
struct Node<'a> { k: Kind, n: usize, name: String, disk: Disk, history: Vec<Rec>, durable: usize, tag: u16, ctx: &'a mut Ctx }

fn logs() -> Vec<&'static dyn Shape> { SHAPES.iter().copied().filter(|s| matches!(s.lay(), Lay::Seq(e) if e.static_size().unwrap_or(0) > 0)).collect() }
fn unit(s: &dyn Shape) -> usize { match s.lay() { Lay::Seq(e) => e.static_size().unwrap_or(0), _ => 0 } }
fn split(o: &dyn Obj, per: usize) -> Vec<Rec> { let t = o.tags(); if per == 0 { return vec![]; } t.chunks(per).map(|c| c.iter().map(|x| *x as i128).collect()).collect() }
fn tags_per(s: &dyn Shape) -> usize { s.make(&[1]).tags().len() }

impl<'a> Node<'a> {
    fn unpack(&self, b: &[u8], crash_at: Option<u64>) -> Lib<PR<Vec<Rec>>> {
        match &self.k {
            Kind::Zoo(o) => o.vec_unpack(b),
            Kind::Shape(s) => {
                probe::reset(crash_at.map(|n| Arm { op: UNPACK, nth: n, fault: PANIC }).into_iter().collect(), false);
                let r = probe::active(|| s.unpack(b));
                r.map(|r| r.map(|o| split(&*o, tags_per(*s))))
            }
        }
    }
    fn append(&mut self, s: &Step) -> Res {
        let how = s.g(0);
        let count = s.g(1) % 5000;
        let (recs, bytes): (Vec<Rec>, Vec<(Lib<PR<Vec<u8>>>, usize)>) = match &self.k {
            Kind::Zoo(o) => {
                let o = *o;
                let m = build_msg(VEC, o.info(), count, 0, s.a.get(2..).unwrap_or(&[]));
                let b = match how % 4 {
                    0 => m.elems.iter().map(|e| (lib_pack(SINGLE, how / 4, o, &Msg { elems: vec![e.clone()], ..Default::default() }, how as u8), 1)).collect(),
                    1 => vec![(lib_pack(VEC, 0, o, &m, how as u8), m.elems.len())],
                    2 => vec![(lib_pack(VEC, 1, o, &m, 0), m.elems.len())],
                    _ => m.elems.chunks(1 + (how / 4) as usize % 5).map(|c| (lib_pack(VEC, how / 16, o, &Msg { elems: c.to_vec(), ..Default::default() }, how as u8), c.len())).collect(),
                };
                (m.elems, b)
            }
            Kind::Shape(sh) => {
                let count = count % 40;
                probe::reset(vec![], false);
                let o = sh.make_at(&[count], self.tag);
                self.tag = (self.tag + 97) % 3000;
                let b = if how % 2 == 0 { o.to_vec() } else { let mut v = vec![how as u8; count as usize * self.n]; o.pack_into(&mut v).map(|r| r.map(|_| v)) };
                (split(&*o, tags_per(*sh)), vec![(b, count as usize)])
            }
        };
        let (n, name) = (self.n, self.name.clone());
        for (b, c) in bytes {
            self.ctx.evals += 1;
            let b = match b { Ok(Ok(b)) => b, Ok(Err(e)) => return viol("P13/append-refused", format!("packing {} records of {} failed: {:?}", c, name, e)), Err(p) => return viol("P13/panicked", format!("packing {} records of {}: {}", c, name, p.0)) };
            if b.len() != c * n { return viol("P13/batch-of-wrong-size", format!("{} records of {} ({} bytes each) packed to {} bytes", c, name, n, b.len())); }
            self.ctx.hb(&b);
            self.disk.append(b);
        }
        if count > 1 { self.ctx.count("probe:batch"); }
        let k = recs.len();
        self.history.extend(recs);
        let t = self.history.len();
        self.ctx.ev(|| format!("append {} records (way {}), {} in the log", k, how % 4, t));
        Ok(())
    }
    fn same(&self, got: &[Rec], want: &[Rec]) -> Option<String> {
        if got.len() != want.len() { return Some(format!("{} records instead of {}", got.len(), want.len())); }
        (0..got.len()).find(|i| got[*i] != want[*i]).map(|i| format!("record {} of {} is {:?} instead of {:?}", i, got.len(), got[i], want[i]))
    }
    /// Recovery; may itself be cut short, any number of times.
    fn recover(&mut self, crash: u64, seed: u64) -> Res {
        let n = self.n;
        let name = self.name.clone();
        let mut crash = crash;
        loop {
            let b = self.disk.read(seed, self.ctx);
            let torn = b.len() % n != 0;
            let whole = b.len() / n;
            let point = crash % 8;
            crash /= 8;
            if point == 1 { self.ctx.count("fault:crash_in_recovery"); self.ctx.ev(|| "crash before the log was read".into()); continue; }
            let callbacks = if point == 2 && !torn && matches!(self.k, Kind::Shape(_)) && whole > 0 { Some(crash % whole as u64) } else { None };
            let r = self.unpack(&b, callbacks);
            self.ctx.evals += 1;
            self.ctx.sig(mix(mix(hash_str(&name), torn as u64), mix(whole.min(40) as u64, (b.len() % n) as u64)));
            let (len, w) = (b.len(), whole);
            self.ctx.ev(|| format!("recovery reads {} bytes ({} records of {} bytes{}): {}", len, w, n, if torn { ", torn" } else { "" }, match &r { Ok(Ok(v)) => format!("Ok, {} records", v.len()), x => format!("{:?}", x.as_ref().map(|y| y.as_ref().err())) }));
            let say = |m: String| format!("log of {} ({} bytes each): {} bytes left after the crash: {}", name, n, len, m);
            if callbacks.is_some() {
                // the process died in the middle of unpacking; the disk is as it was
                if probe::with(|s| s.panicked) { self.ctx.count("fault:crash_in_recovery"); continue; }
            }
            match r {
                Err(p) => return viol("P13/panicked", say(p.0)),
                Ok(Err(PackingError::BufferModMismatch { actual_size, modulo_required })) if torn && actual_size == len && modulo_required == n => {
                    self.ctx.count("probe:torn_tail");
                    if point == 3 { self.ctx.count("fault:crash_in_recovery"); self.ctx.ev(|| "crash before the torn tail was cut".into()); continue; }
                    self.disk.cut(whole * n);
                    if point == 4 { self.ctx.count("fault:crash_in_recovery"); self.ctx.ev(|| "crash after the torn tail was cut".into()); }
                    continue;
                }
                Ok(Err(e)) => return viol(if torn { "P13/torn-tail-misreported" } else { "P13/whole-records-refused" }, say(format!("{:?}", e))),
                Ok(Ok(v)) => {
                    if torn { return viol("P13/torn-tail-accepted", say(format!("{} records were recovered", v.len()))); }
                    if whole < self.durable { return viol("P13/harness", say("durable bytes vanished".into())); }
                    if let Some(d) = self.same(&v, &self.history[..whole]) { return viol("P13/recovered-other-records", say(d)); }
                    self.ctx.count("probe:recovered");
                    self.ctx.add("records_recovered", whole as u64);
                    self.history.truncate(whole);
                    self.durable = whole;
                    self.disk.sync();
                    return Ok(());
                }
            }
        }
    }
    fn read_live(&mut self, seed: u64) -> Res {
        let b = self.disk.read(seed, self.ctx);
        self.ctx.evals += 1;
        match self.unpack(&b, None) {
            Ok(Ok(v)) => match self.same(&v, &self.history) { None => Ok(()), Some(d) => viol("P13/recovered-other-records", format!("live log of {}: {}", self.name, d)) },
            Ok(Err(e)) => viol("P13/whole-records-refused", format!("live log of {} ({} bytes, {} records of {}): {:?}", self.name, b.len(), self.history.len(), self.n, e)),
            Err(p) => viol("P13/panicked", format!("live log of {}: {}", self.name, p.0)),
        }
    }
    /// Unpacking a concatenation equals concatenating what the parts unpack to.
    fn merge(&mut self, seed: u64) -> Res {
        let all = self.disk.image();
        let w = all.len() / self.n;
        let mut r = Rng::new(seed);
        let mut cuts: Vec<usize> = (0..1 + r.below(3)).map(|_| r.below(w as u64 + 1) as usize * self.n).collect();
        cuts.push(0);
        cuts.push(w * self.n);
        cuts.sort();
        let mut sum = vec![];
        for p in cuts.windows(2) {
            match self.unpack(&all[p[0]..p[1]], None) {
                Ok(Ok(v)) => sum.extend(v),
                Ok(Err(e)) => return viol("P13/whole-records-refused", format!("segment {}..{} of a log of {} ({} bytes each): {:?}", p[0], p[1], self.name, self.n, e)),
                Err(p) => return viol("P13/panicked", format!("segment of a log of {}: {}", self.name, p.0)),
            }
        }
        self.ctx.evals += 1;
        self.ctx.count("probe:segments");
        self.ctx.ev(|| format!("segments {:?} read one by one", cuts));
        match self.same(&sum, &self.history) { None => Ok(()), Some(d) => viol("P13/segments-differ-from-whole", format!("log of {} in segments {:?}: {}", self.name, cuts, d)) }
    }
    /// A checkpoint file (u8, Vec<T>, T), possibly torn.
    fn checkpoint(&mut self, s: &Step) -> Res {
        let o = match &self.k { Kind::Zoo(o) => *o, _ => return Ok(()) };
        let i = o.info();
        let m = build_msg(TUP, i, s.g(0) % 300, s.g(2), s.a.get(3..).unwrap_or(&[]));
        let b = match lib_pack(TUP, s.g(0) % 2, o, &m, 7) { Ok(Ok(b)) => b, Ok(Err(e)) => return viol("P13/append-refused", format!("checkpoint of {}: {:?}", i.name, e)), Err(p) => return viol("P13/panicked", format!("checkpoint of {}: {}", i.name, p.0)) };
        let want = true_len(TUP, i, &m);
        if b.len() != want { return viol("P13/batch-of-wrong-size", format!("checkpoint of {} records of {} ({} bytes each) takes {} bytes instead of {}", m.elems.len(), i.name, i.nbytes, b.len(), want)); }
        let keep = if s.g(1) % 3 == 0 { b.len() } else { (s.g(1) / 3) as usize % (b.len() + 1) };
        let b = &b[..keep];
        if keep < want { self.ctx.count("fault:torn_checkpoint"); }
        self.ctx.evals += 1;
        self.ctx.hb(b);
        let r = lib_unpack(TUP, 0, o, b);
        self.ctx.ev(|| format!("checkpoint of {} records, {} of {} bytes survive: {:?}", m.elems.len(), keep, want, r.as_ref().map(|x| x.as_ref().err())));
        let say = |x: String| format!("checkpoint (u8, Vec<{}>, {}) with {} records of {} bytes, {} of {} bytes survive: {}", i.name, i.name, m.elems.len(), i.nbytes, keep, want, x);
        match (size_error(TUP, i, keep), r) {
            (_, Err(p)) => viol("P13/panicked", say(p.0)),
            (Some(e), Ok(Err(g))) if e == g => Ok(()),
            (Some(e), Ok(x)) => viol(if x.is_ok() { "P13/torn-tail-accepted" } else { "P13/torn-tail-misreported" }, say(format!("{:?} instead of {:?}", x.map(|m| m.elems.len()), e))),
            (None, Ok(Ok(g))) => {
                // whole, or torn at a record boundary: the last whole record then takes the place of the tail
                let k = (keep - 1) / i.nbytes;
                let mut all = m.elems.clone();
                all.push(m.tail.clone());
                all.truncate(k);
                let tail = all.pop().unwrap();
                if g.hdr != m.hdr || g.elems != all || g.tail != tail { return viol("P13/recovered-other-records", say("other records than written".into())); }
                Ok(())
            }
            (None, Ok(Err(e))) => viol("P13/whole-records-refused", say(format!("{:?}", e))),
        }
    }
}

impl Scenario for Log {
    fn id(&self) -> &'static str { "P13" }
    fn op_names(&self) -> &'static [&'static str] { &["append(way,count,values..)", "sync", "crash(mode,keep,crashes in recovery)", "read", "segments(seed)", "checkpoint(count,torn at,hdr,values..)"] }
    fn budget(&self, th: bool) -> u64 { if th { 200_000 } else { 25_000 } }
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["packed_struct vectors, tuples, pack_to_vec", "generated pack/unpack"], &["disk (write cache, sync, power loss, short reads)", "process crashes", "scripted components"])
    }
    fn rule(&self) -> &'static str { "a run draws a record type and a history of appends (single, batched), syncs, reads, segment reads, checkpoints and crashes keeping a drawn prefix of what was cached, with further crashes during recovery; counted as distinct: (record type, torn or not, whole records left up to 40, bytes of the torn record) tuples" }
    fn must_reach(&self) -> &'static [&'static str] { &["probe:torn_tail", "probe:recovered", "probe:batch", "fault:crash_in_recovery", "fault:torn_checkpoint", "probe:segments"] }
    fn gen(&self, r: &mut Rng) -> Plan {
        let shape = r.chance(1, 3);
        let which = if shape { r.below(logs().len() as u64) } else { r.below(zoo::usual().len() as u64) };
        let mut p = Plan { cfg: vec![shape as u64, which], steps: vec![] };
        let info = if shape { None } else { Some(zoo::at(which).info()) };
        for _ in 0..4 + r.below(20) {
            match r.below(12) {
                0..=5 => {
                    let count = match r.below(40) { 0 => if info.map_or(false, |i| i.nbytes < 20) { 66_000 / info.unwrap().nbytes as u64 % 4000 } else { 3 }, 1 => 255 + r.below(4), 2..=8 => r.range(2, 12), 9 => 0, _ => 1 };
                    let mut a = vec![r.below(64), count];
                    if let Some(i) = info { a.extend(gen_raws(VEC, i, count, r)); }
                    p.push(APPEND, a);
                }
                6 => p.push(SYNC, vec![]),
                7 | 8 => p.push(CRASH, vec![r.below(5), r.u64() >> r.below(60), if r.chance(1, 2) { 0 } else { r.u64() & 0o7777 }]),
                9 => p.push(READ, vec![r.below(1000)]),
                10 => p.push(MERGE, vec![r.u64() & 0xFFFF]),
                _ => if let Some(i) = info { let c = r.below(6); let mut a = vec![c, r.u64() & 0xFFFF, r.below(256)]; a.extend(gen_raws(TUP, i, c, r)); p.push(CHECKPOINT, a); },
            }
        }
        p
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> Res {
        probe::reset(vec![], false);
        let (k, n, name) = if plan.c(0) == 1 {
            let l = logs();
            let s = l[(plan.c(1) % l.len() as u64) as usize];
            (Kind::Shape(s), unit(s), s.name().to_string())
        } else { let o = zoo::at(plan.c(1)); (Kind::Zoo(o), o.info().nbytes, o.info().name.to_string()) };
        let mut w = Node { k, n, name, disk: Disk::default(), history: vec![], durable: 0, tag: 0, ctx };
        for (at, s) in plan.steps.iter().enumerate() {
            match s.op {
                APPEND => if w.history.len() < 20_000 { w.append(s)? },
                SYNC => { w.disk.sync(); w.durable = w.history.len(); w.ctx.ev(|| "sync".into()); }
                CRASH => {
                    let n = w.n;
                    let lost = w.disk.crash(s.g(0), s.g(1), n);
                    w.ctx.count("fault:power_loss");
                    if lost > 0 { w.ctx.count("fault:lost_writes"); }
                    w.ctx.ev(|| format!("power loss, {} cached bytes lost", lost));
                    w.recover(s.g(2), at as u64)?;
                }
                READ => w.read_live(s.g(0))?,
                MERGE => w.merge(s.g(0))?,
                _ => w.checkpoint(s)?,
            }
        }
        w.disk.crash(0, 5, w.n);
        w.recover(0, 99)?;
        w.ctx.h(w.history.len() as u64);
        let t = plan.steps.len() as u64 * 1_000_000;
        w.ctx.sim_ns += t;
        let _: Option<Leaf> = None;
        Ok(())
    }
}
