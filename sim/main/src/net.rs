//! P01, P02, P04, P05, P06, P18: nodes exchanging packed records over faulty links.
//!
//! A chain of nodes; each is either the real library or an independent reference peer. Frames travel hop by
//! hop in simulated time; links damage, lose, repeat, delay and misroute them; nodes crash and restart.
use crate::fw::*;
use crate::peers;
use crate::wire::*;
use crate::zoo;
use packed_struct::PackingError;
use simcore::model::*;
use simcore::ops::Ops;
use simcore::rng::{mix, Rng};
use simcore::seam::call;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};

#[derive(Clone, Copy, PartialEq)]
pub enum Focus { P01, P02, P04, P05, P06, P18 }
pub struct Net(pub Focus);

// steps
const MSG: u8 = 0; // id t entry container count hdr unpack_api pack_api raws..
const FAULT: u8 = 1; // id hop kind p1 p2 p3
const CRASH: u8 = 2; // t node downtime
const NAMES: u8 = 3; // t node enum what p1 p2 p3
const MISC: u8 = 4; // t node what p q bytes..

struct Frame { id: u64, hop: u64, bytes: Vec<u8>, sent: Vec<u8>, msg: Option<Msg>, entry: u64, c: u64, hit: u64 }
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct Ev { t: std::cmp::Reverse<u64>, seq: std::cmp::Reverse<u64>, k: usize }

struct World<'a> {
    f: Focus, plan: &'a Plan, ctx: &'a mut Ctx,
    q: BinaryHeap<Ev>, seq: u64, now: u64,
    frames: Vec<Option<Frame>>,
    faults: BTreeMap<(u64, u64), Vec<&'a Step>>,
    /// last frame per (hop, entry, container)
    last: BTreeMap<(u64, u64, u64), Vec<u8>>,
    lastany: BTreeMap<u64, Vec<u8>>,
    down: BTreeMap<u64, u64>,
    msgs: BTreeMap<u64, &'a Step>,
    /// P01: how the receiver handled undamaged probes before any damage
    baseline: BTreeMap<u64, Vec<String>>,
    rejected: BTreeSet<u64>,
}

fn show(m: &Msg) -> String { let s = format!("{:?} {:?}", m.elems, m.tail); if s.len() > 300 { format!("{}..", &s[..300]) } else { s } }
fn is_lib(f: Focus, plan: &Plan, node: u64) -> bool { if f == Focus::P18 { kind(plan, node) != 3 } else { plan.c(1) >> node & 1 == 0 } }
/// P18: how the library of a node is built; 3: independent peer
fn kind(plan: &Plan, node: u64) -> u64 { plan.c(2) >> (2 * node) & 3 }
/// P18: only the containers every peer build exports
fn conts(f: Focus) -> u64 { if f == Focus::P18 { NBASE } else { NCONT } }
fn needs_heap(c: u64) -> bool { c == VEC || c == TUP }

impl<'a> World<'a> {
    fn hops(&self) -> u64 { 1 + self.plan.c(0) % 4 }
    fn at(&mut self, t: u64, k: usize) { self.seq += 1; self.q.push(Ev { t: std::cmp::Reverse(t), seq: std::cmp::Reverse(self.seq), k }); }
    fn entry(&self, i: u64) -> &'static dyn Ops { if self.f == Focus::P18 { peers::at(peers::STD, i) } else { zoo::at(i) } }
    fn nentries(&self) -> u64 { if self.f == Focus::P18 { peers::common().len() as u64 } else { zoo::usual().len() as u64 } }
    /// the declaration as compiled into a node
    fn at_node(&self, node: u64, i: u64) -> &'static dyn Ops { if self.f == Focus::P18 { peers::at(kind(self.plan, node), i) } else { zoo::at(i) } }

    /// P18: a node without an allocator cannot pack to a vector
    fn api(&self, node: u64, api: u64) -> u64 { if self.f == Focus::P18 && kind(self.plan, node) == peers::BARE && api % 3 == 1 { 0 } else { api } }

    /// A node puts a message on the wire of hop `hop`.
    fn transmit(&mut self, id: u64, hop: u64, entry: u64, c: u64, msg: Option<Msg>, bytes: Vec<u8>) {
        let o = self.entry(entry);
        let mut copies = 1;
        let mut delay = 100 + 37 * (hop + 1);
        let sent = bytes.clone();
        let mut f = Frame { id, hop, bytes, sent, msg, entry, c, hit: 0 };
        let steps: Vec<&Step> = self.faults.get(&(id, hop)).cloned().unwrap_or_default();
        let mut later = vec![];
        for s in steps {
            let kind = s.g(2) % NFAULTS;
            let p = [s.g(3), s.g(4), s.g(5)];
            let fired = match kind {
                DROP => { copies = 0; true }
                DUP => { copies += 1 + p[0] % 2; later.push(p[1] % 5000); true }
                DELAY => { delay += p[0] % 20_000; true }
                MISROUTE => { let n = p[0]; f.entry = n; if p[1] % 3 == 0 { f.c = p[2] % conts(self.f); } f.msg = None; true }
                _ => {
                    let prev = self.last.get(&(hop, entry % self.nentries(), c)).or(if kind == TORN { None } else { self.lastany.get(&hop) });
                    damage(kind, p, f.c, o.info(), &mut f.bytes, prev)
                }
            };
            if fired { self.ctx.count(&format!("fault:{}", FAULTS[kind as usize])); f.hit |= 1 << kind; }
        }
        self.last.insert((hop, entry % self.nentries(), c), f.sent.clone());
        self.lastany.insert(hop, f.sent.clone());
        self.ctx.h(mix(id * 8 + hop, copies));
        self.ctx.hb(&f.bytes);
        let (now, hit, c0, e0, ne) = (self.now, f.hit, f.c, f.entry, self.nentries());
        self.ctx.ev(|| format!("t={} msg {} hop {}: {} of {} sent {}{} x{} +{}us", now, id, hop, container(c0), o.info().name, hex(&f.bytes),
            if f.bytes != f.sent { format!(" (was {}) fault mask {:#x}", hex(&f.sent), hit) } else { String::new() }, copies, delay) + if e0 % ne != entry % ne { " misrouted" } else { "" });
        for k in 0..copies {
            let extra = if k == 0 { 0 } else { 10 + later.get(k as usize - 1).copied().unwrap_or(50 * k) };
            let g = Frame { id, hop, bytes: f.bytes.clone(), sent: f.sent.clone(), msg: f.msg.clone(), entry: f.entry, c: f.c, hit: f.hit };
            self.frames.push(Some(g));
            let k = self.frames.len() - 1;
            self.at(self.now + delay + extra, k);
        }
    }

    fn originate(&mut self, s: &Step) -> Res {
        let (id, entry, c) = (s.g(0), s.g(2), s.g(3) % conts(self.f));
        let o = self.at_node(0, entry);
        if self.f == Focus::P18 && needs_heap(c) && kind(self.plan, 0) == peers::BARE { return Ok(()); }
        let m = build_msg(c, o.info(), s.g(4) % 10_000, s.g(5), s.a.get(8..).unwrap_or(&[]));
        let want = encode(c, o.info(), &m);
        let bytes = if is_lib(self.f, self.plan, 0) {
            let papi = self.api(0, s.g(7));
            let p = lib_pack(c, papi, o, &m, papi as u8);
            if self.f == Focus::P18 { self.p18_pack(0, entry, c, papi, &m, papi as u8, &p)?; }
            match p {
                Ok(Ok(b)) => {
                    if self.f == Focus::P06 && !same_under(&mask(c, o.info(), want.len()), &b, &want) {
                        return viol("P06/packed-bytes-differ-from-layout", format!("{} of {}: values {} packed to {} but the declared layout prescribes {}", container(c), o.info().name, show(&m), hex(&b), hex(&want)));
                    }
                    b
                }
                Ok(Err(e)) => return if self.f == Focus::P06 { viol("P06/pack-refused", format!("{}: packing {} failed: {:?}", o.info().name, show(&m), e)) } else { Ok(()) },
                Err(p) => return if self.f == Focus::P06 { viol("P06/pack-panicked", format!("{}: packing {} panicked: {}", o.info().name, show(&m), p.0)) } else { Ok(()) },
            }
        } else { want };
        if self.f == Focus::P06 { self.sizes(o, c, &m)?; }
        self.transmit(id, 0, entry, c, Some(m), bytes);
        Ok(())
    }

    fn sizes(&mut self, o: &'static dyn Ops, c: u64, m: &Msg) -> Res {
        let n = o.info();
        let want = true_len(c, n, m);
        match lib_size(c, o, Some(m)) { Ok(Ok(s)) if s == want => {}, r => return viol("P06/advertised-size-wrong", format!("{} of {}: advertised size {:?}, layout says {}", container(c), n.name, r, want)) }
        match o.packed_bits() { Ok(b) if b == n.nbits => {}, r => return viol("P06/advertised-bits-wrong", format!("{}: packed_bits {:?}, layout says {}", n.name, r, n.nbits)) }
        Ok(())
    }

    fn deliver(&mut self, f: Frame) -> Res {
        let node = f.hop + 1;
        if self.down.get(&node).copied().unwrap_or(0) > self.now { self.ctx.count("fault:lost_at_crashed_node"); return Ok(()); }
        let o = self.at_node(node, f.entry);
        if self.f == Focus::P18 && needs_heap(f.c) && kind(self.plan, node) == peers::BARE { return Ok(()); }
        let i = o.info();
        let step = match self.msgs.get(&f.id) { Some(s) => *s, None => return Ok(()) };
        let (uapi, papi) = (step.g(6), self.api(node, step.g(7)));
        let intact = f.bytes == f.sent && f.msg.is_some();
        self.ctx.h(mix(self.now, node));
        self.ctx.sig(mix(mix(simcore::rng::hash_str(i.name), f.c), f.hit) ^ (intact as u64) << 1 ^ (is_lib(self.f, self.plan, node) as u64));
        if !is_lib(self.f, self.plan, node) {
            // independent peer
            self.ctx.count("deliveries:reference_peer");
            if let Dec::Ok(m) = decode(f.c, i, &f.bytes) {
                let out = encode(f.c, i, &m);
                if self.f == Focus::P06 && intact {
                    let want = f.msg.as_ref().unwrap();
                    if &m != want { return viol("P06/peer-reads-other-values", format!("{}: the library sent {} for {}, an independent peer reads {}", i.name, hex(&f.bytes), show(want), show(&m))); }
                }
                if node < self.hops() { let keep = if intact { f.msg } else { Some(m) }; self.transmit(f.id, node, f.entry, f.c, keep, out); }
            }
            return Ok(());
        }
        self.ctx.count("deliveries:library");
        if intact { self.ctx.count("deliveries:intact") } else { self.ctx.count("deliveries:damaged") }
        self.ctx.evals += 1;
        let r = lib_unpack(f.c, uapi, o, &f.bytes);
        let (name, cn) = (i.name, container(f.c));
        self.ctx.ev(|| format!("  node {} unpacks {} of {}: {}", node, cn, name, match &r { Ok(Ok(m)) => format!("Ok {}", show(m)), x => format!("{:?}", x.as_ref().map(|y| y.as_ref().err())) }));
        match &r { Ok(Ok(_)) => self.ctx.count("outcome:value"), Ok(Err(PackingError::InvalidValue)) => self.ctx.count("outcome:invalid_value"), Ok(Err(_)) => self.ctx.count("outcome:size_error"), Err(_) => self.ctx.count("outcome:panic") }
        match self.f {
            Focus::P01 => self.p01(o, &f, &r)?,
            Focus::P02 => self.p02(o, &f, &r)?,
            Focus::P04 => self.p04(o, &f, &r, papi)?,
            Focus::P05 => {}
            Focus::P06 => self.p06(o, &f, &r, intact)?,
            Focus::P18 => self.p18_unpack(node, &f, uapi, &r)?,
        }
        let m = match r { Ok(Ok(m)) => m, _ => return Ok(()) };
        // relay
        if node < self.hops() || matches!(self.f, Focus::P05 | Focus::P06 | Focus::P18) {
            let p = lib_pack(f.c, papi, o, &m, !(papi as u8));
            if self.f == Focus::P18 { self.p18_pack(node, f.entry, f.c, papi, &m, !(papi as u8), &p)?; }
            if self.f == Focus::P05 {
                let g = match &p {
                    Ok(Ok(g)) => g,
                    Ok(Err(e)) => return viol("P05/repack-refused", format!("{}: {} unpacked to {} but packing that failed: {:?}", name, hex(&f.bytes), show(&m), e)),
                    Err(e) => return viol("P05/repack-panicked", format!("{}: {} unpacked to {} but packing that panicked: {}", name, hex(&f.bytes), show(&m), e.0)),
                };
                self.ctx.count("relay:checked");
                let want = if size_error(f.c, i, f.bytes.len()).is_none() { canonical(f.c, i, &f.bytes) } else { f.bytes.clone() };
                if want != f.bytes { self.ctx.count("relay:leftovers_cleaned"); }
                if !same_under(&mask(f.c, i, want.len()), g, &want) {
                    return viol("P05/relay-altered-record", format!("{} of {}: received {}, relayed {}, expected {}", cn, name, hex(&f.bytes), hex(g), hex(&want)));
                }
            }
            if self.f == Focus::P06 && intact {
                let want = encode(f.c, i, f.msg.as_ref().unwrap());
                match &p {
                    Ok(Ok(g)) if same_under(&mask(f.c, i, want.len()), g, &want) => {}
                    x => return viol("P06/packed-bytes-differ-from-layout", format!("{} of {}: {} packed to {}, the declared layout prescribes {}", cn, name, show(&m), match x { Ok(Ok(g)) => hex(g), y => format!("{:?}", y.as_ref().map(|z| z.as_ref().err())) }, hex(&want))),
                }
            }
            if node < self.hops() { if let Ok(Ok(g)) = p { let keep = if intact { f.msg } else { Some(m) }; self.transmit(f.id, node, f.entry, f.c, keep, g); } }
        }
        Ok(())
    }

    // ---- oracles ----
    fn p01(&mut self, o: &'static dyn Ops, f: &Frame, r: &simcore::seam::Lib<Result<Msg, PackingError>>) -> Res {
        let i = o.info();
        let say = |what: &str| format!("{} of {} unpacking {} bytes {}: {}", container(f.c), i.name, f.bytes.len(), hex(&f.bytes), what);
        let first = match r { Err(p) => return viol("P01/unpack-panicked", say(&p.0)), Ok(x) => x };
        // same bytes in other surroundings
        for fill in [0u8, 0xFF] {
            let mut host = vec![fill; f.bytes.len() + 64];
            host[32..32 + f.bytes.len()].copy_from_slice(&f.bytes);
            match lib_unpack(f.c, 0, o, &host[32..32 + f.bytes.len()]) {
                Err(p) => return viol("P01/unpack-panicked", say(&p.0)),
                Ok(x) => if &x != first { return viol("P01/result-depends-on-more-than-the-bytes", say(&format!("gave {:?} and then {:?}", first.as_ref().map(show), x.as_ref().map(show)))) },
            }
        }
        if first.is_err() {
            self.rejected.insert(f.entry);
            self.ctx.count("probe:good_frame_after_rejection");
            // the next good message, of every type in play, is handled as before
            let ids: Vec<u64> = self.baseline.keys().copied().collect();
            for id in ids { let got = self.good(id)?; if got != self.baseline[&id] { return viol("P01/receiver-changed-by-rejected-message", say(&format!("afterwards good message {} gave {:?}, before {:?}", id, got, self.baseline[&id]))) } }
        }
        Ok(())
    }
    /// P01: how the receiver handles the undamaged form of a message.
    fn good(&mut self, id: u64) -> Result<Vec<String>, Violation> {
        let s = self.msgs[&id];
        let o = self.entry(s.g(2));
        let c = s.g(3) % conts(self.f);
        let m = build_msg(c, o.info(), (s.g(4) % 10_000).min(8), s.g(5), s.a.get(8..).unwrap_or(&[]));
        let b = encode(c, o.info(), &m);
        let mut out = vec![];
        for api in 0..if c == SINGLE { 2 } else { 1 } {
            match lib_unpack(c, api, o, &b) { Err(p) => return viol("P01/unpack-panicked", format!("{} unpacking {}: {}", o.info().name, hex(&b), p.0)), Ok(x) => out.push(format!("{:?}", x)) }
        }
        Ok(out)
    }

    fn p02(&mut self, o: &'static dyn Ops, f: &Frame, r: &simcore::seam::Lib<Result<Msg, PackingError>>) -> Res {
        let i = o.info();
        let m = match &f.msg { Some(m) if f.bytes.len() == f.sent.len() && size_error(f.c, i, f.bytes.len()).is_none() => m, _ => return Ok(()) };
        let n = i.nbytes;
        let say = |what: String| format!("{} of {}: sent {} ({}), received {}: {}", container(f.c), i.name, hex(&f.sent), show(m), hex(&f.bytes), what);
        let r = match r { Err(p) => return viol("P02/unpack-panicked", say(p.0.clone())), Ok(r) => r };
        let offs = record_offsets(f.c, i, f.bytes.len());
        let mut may_refuse = false;
        let mut nhit = 0;
        for (k, off) in offs.iter().enumerate() {
            let is_tail = (f.c == TUP || f.c == STUP) && k + 1 == offs.len();
            let sent_vals = if is_tail { &m.tail } else { &m.elems[k] };
            for (j, l) in i.value_leaves().enumerate() {
                let (a, b) = (&f.sent[*off..off + n], &f.bytes[*off..off + n]);
                let hit = (0..l.width).any(|k| get_bit(a, l.start + k) != get_bit(b, l.start + k));
                let want = if hit { l.number(l.get_raw(b)) } else { sent_vals[j] };
                if hit { nhit += 1; if !l.defined(want) { may_refuse = true; } }
                if let Ok(got) = r {
                    let gv = if is_tail { got.tail.get(j) } else { got.elems.get(k).and_then(|e| e.get(j)) };
                    if gv != Some(&want) {
                        let class = if hit { "P02/hit-field-misread" } else { "P02/untouched-field-changed" };
                        return viol(class, say(format!("field {} of record {} is {:?}, expected {}", l.name, k, gv, want)));
                    }
                }
            }
        }
        if nhit > 0 { self.ctx.count("probe:field_hit") } else if f.bytes != f.sent { self.ctx.count("probe:only_unowned_bits_hit") }
        if let Ok(got) = r {
            if f.c == TUP && got.hdr != f.bytes[0] || f.c == STUP && got.mid[..] != f.bytes[n..n + 3] { return viol("P02/hit-field-misread", say("bytes outside the records differ".into())); }
            if got.raw != raw_bytes(f.c, i, &f.bytes) { return viol("P02/hit-field-misread", say("bytes outside the records differ".into())); }
            if got.elems.len() + (f.c == TUP || f.c == STUP) as usize != offs.len() { return viol("P02/untouched-field-changed", say(format!("{} records instead of {}", got.elems.len(), offs.len()))); }
        }
        if let Err(e) = r { if !may_refuse { return viol("P02/refused-without-cause", say(format!("refused with {:?}", e))); } self.ctx.count("probe:refused_with_cause"); }
        Ok(())
    }

    fn p04(&mut self, o: &'static dyn Ops, f: &Frame, r: &simcore::seam::Lib<Result<Msg, PackingError>>, papi: u64) -> Res {
        let i = o.info();
        if size_error(f.c, i, f.bytes.len()).is_some() { return Ok(()); }
        let say = |what: String| format!("{} of {}: received {}: {}", container(f.c), i.name, hex(&f.bytes), what);
        let r = match r { Err(p) => return viol("P04/unpack-panicked", say(p.0.clone())), Ok(r) => r };
        let n = i.nbytes;
        let offs = record_offsets(f.c, i, f.bytes.len());
        let mut undefined = None;
        for off in &offs { for l in i.value_leaves() { let v = l.number(l.get_raw(&f.bytes[*off..off + n])); if !l.defined(v) && undefined.is_none() { undefined = Some((l, v)); } } }
        match (undefined, r) {
            (Some((l, v)), Ok(m)) => return viol("P04/undefined-value-accepted", say(format!("field {} holds {}, which its type does not define, yet it unpacked to {}", l.name, v, show(m)))),
            (Some((l, v)), Err(e)) => { self.ctx.count("probe:undefined_value"); if *e != PackingError::InvalidValue { return viol("P04/wrong-error-for-undefined-value", say(format!("field {} holds undefined {}; error was {:?}", l.name, v, e))); } }
            (None, Err(e)) => return viol("P04/defined-values-refused", say(format!("every field holds a defined value, error {:?}", e))),
            (None, Ok(m)) => {
                let mut catch = false;
                for (k, off) in offs.iter().enumerate() {
                    let is_tail = (f.c == TUP || f.c == STUP) && k + 1 == offs.len();
                    for (j, l) in i.value_leaves().enumerate() {
                        if !matches!(l.kind, Kind::Enum { .. } | Kind::Bool) { continue; }
                        let want = l.number(l.get_raw(&f.bytes[*off..off + n]));
                        let got = if is_tail { m.tail.get(j) } else { m.elems.get(k).and_then(|e| e.get(j)) };
                        if let Kind::Enum { info, catch_all: true, .. } = l.kind { catch = true; if !info.disc.contains(&want) { self.ctx.count("probe:unknown_number_kept"); } }
                        if got != Some(&want) { return viol("P04/other-variant", say(format!("field {} holds {}, got {:?}{}", l.name, want, got, if got.map_or(false, |g| *g >= simcore::ops::MISCLASSIFIED / 2) { " (a declared variant reported as unknown number)" } else { "" }))); }
                    }
                }
                if catch {
                    match lib_pack(f.c, papi, o, m, 0xA5) {
                        Ok(Ok(g)) => for off in &offs { for l in i.value_leaves() {
                            if !matches!(l.kind, Kind::Enum { .. }) { continue; }
                            if g.len() != f.bytes.len() || l.get_raw(&g[*off..off + n]) != l.get_raw(&f.bytes[*off..off + n]) { return viol("P04/number-changed-when-packed-again", say(format!("field {}: packed again as {}", l.name, hex(&g)))); }
                        } },
                        x => return viol("P04/number-changed-when-packed-again", say(format!("packing failed: {:?}", x.map(|y| y.err())))),
                    }
                }
            }
        }
        Ok(())
    }

    /// P18: a node whose library is built another way against the same library built with std.
    fn p18_unpack(&mut self, node: u64, f: &Frame, api: u64, r: &simcore::seam::Lib<Result<Msg, PackingError>>) -> Res {
        let k = kind(self.plan, node);
        if k == peers::STD { return Ok(()); }
        self.ctx.count(&format!("deliveries:{}", peers::KINDS[k as usize]));
        let heap = simcore::remote::requests();
        let texts = simcore::remote::error_texts();
        let o = self.entry(f.entry);
        let i = o.info();
        let say = |what: String| format!("{} of {} unpacking {} on a node built {}: {}", container(f.c), i.name, hex(&f.bytes), peers::KINDS[k as usize], what);
        let want = lib_unpack(f.c, api, o, &f.bytes);
        let std_heap = simcore::seam::last_heap().requests;
        match (&want, r) {
            (Ok(Ok(a)), Ok(Ok(b))) if a == b => { self.ctx.count("probe:same_value"); }
            (Ok(Err(a)), Ok(Err(b))) if a == b => {
                self.ctx.count("probe:same_error");
                if let Some((e, t)) = texts.last() { if e == a && *t != a.to_string() { return viol("P18/error-text-differs", say(format!("error shown as {:?}, with std as {:?}", t, a.to_string()))); } }
            }
            (Err(_), Err(_)) => {}
            (a, b) => return viol("P18/outcome-differs", say(format!("{}, with std {}", told(b), told(a)))),
        }
        if f.c == SINGLE || f.c == STUP { if std_heap == 0 && heap > 0 { return viol("P18/needs-heap", say(format!("{} heap requests, with std none", heap))); } }
        // what a user of that node is shown
        if let (peers::HEAP, SINGLE, Ok(Ok(m))) = (k, f.c, r) {
            let flags = (self.msgs[&f.id].g(5) >> 3) as u8 & 63;
            let (mut a, mut b) = (String::new(), String::new());
            let there = peers::at(k, f.entry);
            let (x, y) = if flags & 3 == 3 { (there.field_table(&m.elems[0], &mut a), o.field_table(&m.elems[0], &mut b)) } else { (there.render(&m.elems[0], flags, &mut a), o.render(&m.elems[0], flags, &mut b)) };
            if x.is_some() { self.ctx.count("probe:rendered"); }
            if format!("{:?}", x.map(|r| r.map_err(|_| ()))) != format!("{:?}", y.map(|r| r.map_err(|_| ()))) || a != b { return viol("P18/text-differs", say(format!("shown as {:?}, with std {:?}", a, b))); }
        }
        Ok(())
    }
    fn p18_pack(&mut self, node: u64, entry: u64, c: u64, api: u64, m: &Msg, prior: u8, r: &simcore::seam::Lib<Result<Vec<u8>, PackingError>>) -> Res {
        let k = kind(self.plan, node);
        if k == peers::STD { return Ok(()); }
        let heap = simcore::remote::requests();
        self.ctx.evals += 1;
        let o = self.entry(entry);
        let i = o.info();
        let say = |what: String| format!("{} of {}: {} on a node built {}: {}", container(c), i.name, show(m), peers::KINDS[k as usize], what);
        let want = lib_pack(c, api, o, m, prior);
        let std_heap = simcore::seam::last_heap().requests;
        match (&want, r) {
            (Ok(Ok(a)), Ok(Ok(b))) if same_under(&mask(c, i, a.len()), a, b) => { self.ctx.count("probe:same_bytes"); }
            (Ok(Err(a)), Ok(Err(b))) if a == b => {}
            (Err(_), Err(_)) => {}
            (a, b) => { let t = |x: &simcore::seam::Lib<Result<Vec<u8>, PackingError>>| match x { Ok(Ok(g)) => hex(g), Ok(Err(e)) => format!("{:?}", e), Err(p) => p.0.clone() }; return viol("P18/bytes-differ", say(format!("packed {}, with std {}", t(b), t(a)))) }
        }
        if (c == SINGLE || c == STUP) && (c == STUP || api % 3 != 1) && std_heap == 0 && heap > 0 { return viol("P18/needs-heap", say(format!("{} heap requests, with std none", heap))); }
        let there = peers::at(k, entry);
        // the same value into a buffer that has another size
        if prior & 3 == 0 {
            let fit = true_len(c, i, m);
            let len = match prior >> 2 & 7 { 0 => 0, 1 => fit + 1, 2 => fit.saturating_sub(1), 3 => 2 * fit, 4 => fit + i.nbytes, 5 => fit.saturating_sub(i.nbytes), x => x as usize };
            let (mut a, mut b) = (vec![!prior; len], vec![!prior; len]);
            let (x, y) = (lib_pack_into(c, there, m, &mut a), lib_pack_into(c, o, m, &mut b));
            self.ctx.count("probe:pack_into_wrong_size");
            if x.clone().map_err(|_| ()) != y.clone().map_err(|_| ()) || matches!(y, Ok(Ok(()))) && !same_under(&mask(c, i, len), &a, &b) { return viol("P18/bytes-differ", say(format!("packed into {} bytes: {:?} {}, with std {:?} {}", len, x, hex(&a), y, hex(&b)))); }
        }
        for v in [Some(m), None] {
            let (a, b) = (lib_size(c, there, v), lib_size(c, o, v));
            if a.map_err(|_| ()) != b.map_err(|_| ()) { return viol("P18/size-differs", say("another size is advertised than with std".into())); }
        }
        if there.packed_bits().ok() != o.packed_bits().ok() { return viol("P18/size-differs", say("another number of bits is advertised than with std".into())); }
        simcore::remote::error_texts();
        Ok(())
    }
    /// P18: names and numbers of enums, asked of a node.
    fn names(&mut self, s: &Step) -> Res {
        let k = kind(self.plan, s.g(1));
        if k == peers::STD || k == 3 { return Ok(()); }
        self.ctx.evals += 1;
        let (there, here) = (peers::enum_at(k, s.g(2)), peers::enum_at(peers::STD, s.g(2)));
        let what = s.g(3) % if k == peers::BARE { 8 } else { 11 };
        let (a, b) = (name_query(there, what, s), name_query(here, what, s));
        self.ctx.count("probe:names_asked");
        self.ctx.sig(mix(mix(simcore::rng::hash_str(here.info().name), what), k));
        let now = self.now;
        self.ctx.ev(|| format!("t={} node {} ({}) asked about enum {}: {}", now, s.g(1), peers::KINDS[k as usize], here.info().name, a));
        if a != b { return viol("P18/names-differ", format!("enum {} on a node built {}: {}, with std {}", here.info().name, peers::KINDS[k as usize], a, b)); }
        Ok(())
    }

    /// P18: compositions, failing components, integers and helper traits.
    fn misc(&mut self, s: &Step) -> Res {
        let k = kind(self.plan, s.g(1));
        if k == peers::STD || k == 3 { return Ok(()); }
        self.ctx.evals += 1;
        let what = s.g(2) % if k == peers::BARE { simcore::misc::COMMON } else { simcore::misc::ALL };
        let b: Vec<u8> = s.a.get(5..).unwrap_or(&[]).iter().map(|x| *x as u8).collect();
        let (t, there) = peers::misc(k, what, s.g(3), s.g(4), &b);
        let (_, here) = peers::misc(peers::STD, what, s.g(3), s.g(4), &b);
        self.ctx.count(&format!("probe:asked_about_{}", QUESTIONS[what as usize].replace(' ', "_")));
        if what == 0 || what == 6 { self.ctx.count(if there.text.contains("refused") || there.text.contains("unpacking panicked") { "outcome:question_refused" } else { "outcome:question_value" }); }
        self.ctx.sig(mix(mix(what, s.g(3) >> 32), k));
        self.ctx.hb(there.text.as_bytes());
        let now = self.now;
        self.ctx.ev(|| format!("t={} node {} ({}) asked: {}: {}", now, s.g(1), peers::KINDS[k as usize], t, there.text));
        if there.text != here.text { return viol("P18/answers-differ", format!("{} on a node built {}: {}, with std {}", t, peers::KINDS[k as usize], there.text, here.text)); }
        if there.heap && !here.heap { return viol("P18/needs-heap", format!("{} on a node built {} asks for heap, with std it does not", t, peers::KINDS[k as usize])); }
        Ok(())
    }

    fn p06(&mut self, o: &'static dyn Ops, f: &Frame, r: &simcore::seam::Lib<Result<Msg, PackingError>>, intact: bool) -> Res {
        if !intact { return Ok(()); }
        let want = f.msg.as_ref().unwrap();
        match r {
            Ok(Ok(m)) if m == want => { self.ctx.count("probe:intact_message_checked"); Ok(()) }
            Ok(Ok(m)) => viol("P06/values-differ", format!("{} of {}: {} was sent as {} and unpacked to {}", container(f.c), o.info().name, show(want), hex(&f.bytes), show(m))),
            Ok(Err(e)) => viol("P06/intact-message-refused", format!("{} of {}: {} was sent as {} and refused: {:?}", container(f.c), o.info().name, show(want), hex(&f.bytes), e)),
            Err(p) => viol("P06/unpack-panicked", format!("{} of {}: {} was sent as {}: {}", container(f.c), o.info().name, show(want), hex(&f.bytes), p.0)),
        }
    }
}

const QUESTIONS: [&str; simcore::misc::ALL as usize] = ["fixed compositions", "bit-limited integers", "native integers", "reserved bits", "byte arrays", "errors", "variable compositions", "rendering"];
fn told(r: &simcore::seam::Lib<Result<Msg, PackingError>>) -> String { match r { Ok(Ok(m)) => format!("unpacks to {}", show(m)), Ok(Err(e)) => format!("refused with {:?}", e), Err(p) => format!("panicked: {}", p.0) } }
/// The answer of an enum's conversions, as text.
fn name_query(o: &dyn simcore::enums::EnumOps, what: u64, s: &Step) -> String {
    let i = o.info();
    let declared = |x: u64| i.disc[(x % i.disc.len() as u64) as usize];
    let near = |x: u64| { let d = declared(x >> 8); match x % 6 { 0 => d, 1 => d + 1, 2 => d - 1, 3 => -d, 4 => d ^ (1 << ((x >> 3) % 63)), _ => (x >> 3) as i128 } };
    let (p, q) = (s.g(4), s.g(5));
    let text = {
        let mut t: Vec<u8> = i.names[(p % i.names.len() as u64) as usize].bytes().collect();
        for k in 0..q % 4 { let at = (q >> (8 * k + 2)) as usize % (t.len() + 1); match (q >> (8 * k + 5)) % 5 {
            0 => t.insert(at, b' '), 1 => if at < t.len() { t[at] ^= 0x20 }, 2 => t.truncate(at), 3 => t = t.to_ascii_lowercase(), _ => if at < t.len() { t[at] = b'a' + (q >> 20) as u8 % 26 } } }
        String::from_utf8_lossy(&t).into_owned()
    };
    fn d<T: std::fmt::Debug>(r: simcore::seam::Lib<T>) -> String { match r { Ok(x) => format!("{:?}", x), Err(_) => "panic".into() } }
    match what {
        0 => if o.fits(near(p)) { format!("number {} is {}", near(p), d(o.lift(near(p)))) } else { String::new() },
        1 => format!("variant {} is number {}", declared(p), d(o.lower(declared(p)))),
        2 => format!("text {:?} is {}", text, d(o.parse(&text, q & 1 == 1))),
        3 => format!("variant {} is shown as {}", declared(p), d(o.show(declared(p), q & 1 == 1))),
        4 => format!("variants {}", d(o.list(q & 1 == 1))),
        5 => if o.fits(near(p)) { format!("number {} is {}", near(p), d(o.any_lift(near(p)))) } else { String::new() },
        6 => if o.fits(near(p)) && o.fits(near(q)) { format!("{} and {} are equal: {}", near(p), near(q), d(o.any_eq(near(p), near(q), s.g(6)))) } else { String::new() },
        7 => if o.fits(near(p)) { format!("{} is sent as {} and bytes {}", near(p), d(o.any_lower(near(p), q & 1 == 1)), d(o.to_bytes(near(p), q & 2 == 2))) } else { String::new() },
        8 => format!("text {:?} is {}", text, d(o.any_parse(&text, q & 1 == 1))),
        9 => if o.fits(near(p)) { format!("{} is shown as {}", near(p), d(o.any_show(near(p), q & 1 == 1))) } else { String::new() },
        _ => format!("values {}", d(o.any_list())),
    }
}

/// Bytes for a question: lengths near the ones that fit, contents near the ones that mean something.
fn misc_bytes(what: u64, p: u64, r: &mut Rng) -> Vec<u64> {
    let fit = if what == 0 || what == 6 { simcore::misc::fitting(what, p) + 5 * r.below(4) as usize } else { 1 + r.below(8) as usize };
    let n = match r.below(10) { 0 => r.below(70) as usize, 1 => fit + 1, 2 => fit.saturating_sub(1), 3 => 2 * fit, _ => if what == 0 { simcore::misc::fitting(what, p) } else { fit } };
    let style = r.below(4);
    (0..n).map(|_| match style { 0 => r.below(2), 1 => r.u64() & 255, 2 => if r.chance(1, 4) { *r.pick(&[0xE0, 0xF0]) + r.below(16) } else { r.below(2) }, _ => if r.chance(1, 12) { 0xE0 + r.below(32) } else { r.u64() & 127 } }).collect()
}

/// P01: deliveries to types without a reference layout.
fn odd_types(b: &[u8], ctx: &mut Ctx) -> Res {
    use packed_struct::prelude::*;
    macro_rules! t { ($($ty:ty),* $(,)?) => { $(
        ctx.count("deliveries:other_compositions");
        match call(|| <$ty as PackedStructSlice>::unpack_from_slice(b).map(|x| { std::hint::black_box(&x); })) {
            Err(p) => return viol("P01/unpack-panicked", format!("{} unpacking {} bytes {}: {}", stringify!($ty), b.len(), hex(b), p.0)),
            Ok(r) => { ctx.h(r.is_ok() as u64); }
        }
    )* } }
    type T3 = (u8, [u8; 2], bool);
    type Deep = ((u8, Vec<[u8; 3]>), i8);
    t!((), (u8,), (Vec<u8>,), T3, Deep, Vec<Vec<u8>>, Vec<()>, ((), Vec<()>), (Vec<u8>, Vec<u8>), (u8, (u8, (u8, Vec<bool>))), Vec<T3>, Vec<(u8, Vec<u8>)>,
        (u8, i8, bool, u8, i8, u8, u8, u8, Vec<[u8; 5]>, u8), [u8; 0], [u8; 1000], Vec<[u8; 0]>, (Vec<[u8; 1000]>, [u8; 7]),
        ReservedZero<packed_bits::Bits<9>>, Vec<ReservedOnes<packed_bits::Bits<17>>>);
    Ok(())
}

impl Scenario for Net {
    fn id(&self) -> &'static str { match self.0 { Focus::P01 => "P01", Focus::P02 => "P02", Focus::P04 => "P04", Focus::P05 => "P05", Focus::P06 => "P06", Focus::P18 => "P18" } }
    fn op_names(&self) -> &'static [&'static str] { &["message(id,t,type,container,count,hdr,unpack_api,pack_api,values..)", "link-fault(msg,hop,kind,p1,p2,p3)", "crash(t,node,downtime)", "enum-question(t,node,enum,what,p1,p2,p3)", "question(t,node,what,p,q,bytes..)"] }
    fn describe(&self, s: &Step) -> String {
        match s.op {
            MSG => format!("t={} node 0 sends message {}: {} of {}", s.g(1), s.g(0), container(s.g(3) % conts(self.0)), if self.0 == Focus::P18 { peers::at(peers::STD, s.g(2)) } else { zoo::at(s.g(2)) }.info().name),
            MISC => format!("t={} node {} is asked {}", s.g(0), s.g(1), QUESTIONS[(s.g(2) % simcore::misc::ALL) as usize]),
            NAMES => format!("t={} node {} is asked about enum {}", s.g(0), s.g(1), peers::enum_at(peers::STD, s.g(2)).info().name),
            FAULT => format!("link fault on message {} at hop {}: {}", s.g(0), s.g(1), FAULTS[(s.g(2) % NFAULTS) as usize]),
            _ => format!("t={} node {} crashes for {}us", s.g(0), s.g(1), s.g(2)),
        }
    }
    fn budget(&self, th: bool) -> u64 { let q = match self.0 { Focus::P01 => 12_000, Focus::P02 => 48_000, Focus::P04 => 48_000, Focus::P05 => 24_000, Focus::P06 => 24_000, Focus::P18 => 24_000 }; if th { q * 8 } else { q } }
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]) {
        if self.0 == Focus::P18 { return (&["packed_struct and generated code built with std", "packed_struct and generated code built with alloc, without std (own module)", "packed_struct and generated code built with neither (own module)"], &["links", "clock", "node processes", "independent peer (reference model of the documented layout)"]); }
        (&["packed_struct runtime (all types)", "packed_struct_codegen generated pack/unpack/enum code"], &["links", "clock", "node processes", "independent peer (reference model of the documented layout)"])
    }
    fn rule(&self) -> &'static str { "a run draws a chain of nodes, 4-14 messages over declared layouts and containers, link faults per hop and node crashes from its seed; counted as distinct: (layout, container, set of faults that fired, receiver kind, intact or damaged) tuples at deliveries" }
    fn must_reach(&self) -> &'static [&'static str] {
        match self.0 {
            Focus::P01 => &["outcome:value", "outcome:invalid_value", "outcome:size_error", "probe:good_frame_after_rejection", "deliveries:other_compositions"],
            Focus::P02 => &["probe:field_hit", "probe:only_unowned_bits_hit", "probe:refused_with_cause", "fault:torn_read"],
            Focus::P04 => &["probe:undefined_value", "probe:unknown_number_kept"],
            Focus::P05 => &["relay:checked", "relay:leftovers_cleaned"],
            Focus::P06 => &["probe:intact_message_checked", "deliveries:damaged", "fault:lost_at_crashed_node"],
            Focus::P18 => &["deliveries:bare", "deliveries:alloc", "probe:same_value", "probe:same_error", "probe:same_bytes", "probe:rendered", "probe:names_asked", "deliveries:damaged", "probe:pack_into_wrong_size",
                "probe:asked_about_fixed_compositions", "probe:asked_about_bit-limited_integers", "probe:asked_about_native_integers", "probe:asked_about_reserved_bits", "probe:asked_about_byte_arrays", "probe:asked_about_errors", "probe:asked_about_variable_compositions", "probe:asked_about_rendering"],
        }
    }

    fn gen(&self, r: &mut Rng) -> Plan {
        let f = self.0;
        if f == Focus::P18 { peers::preload(); }
        let hops = match f { Focus::P05 | Focus::P06 | Focus::P18 => 1 + r.below(4), Focus::P02 => 1 + (r.chance(1, 4) as u64), _ => 1 };
        // which nodes are independent peers
        let mut peers = 0u64;
        for n in 0..=hops { if r.chance(1, 3) { peers |= 1 << n; } }
        if r.chance(2, 3) { peers &= !(1 << hops); }
        if peers == (1 << (hops + 1)) - 1 { peers = 1; }
        if matches!(f, Focus::P01 | Focus::P04) { peers = r.below(2); }
        let mut p = Plan { cfg: vec![hops - 1, peers], steps: vec![] };
        let mut bare = false;
        if f == Focus::P18 {
            let some_bare = r.chance(1, 2);
            let mut k = 0u64;
            for n in 0..=hops {
                let x = match r.below(8) { 0 => 0, 1 => 3, 2..=4 if some_bare => 1, _ => 2 };
                bare |= x == 1;
                k |= x << (2 * n);
            }
            p.cfg.push(k);
        }
        let nmsg = if f == Focus::P01 { 4 + r.below(5) } else { 4 + r.below(11) };
        // a run concentrates on few layouts so that splices, torn reads and repeats meet
        let ntypes = 1 + r.below(4);
        let types: Vec<u64> = (0..ntypes).map(|_| match f {
            Focus::P04 => { let ch = zoo::choosy(); ch[r.below(ch.len() as u64) as usize] as u64 }
            Focus::P18 => r.below(peers::common().len() as u64),
            _ => r.below(zoo::usual().len() as u64),
        }).collect();
        let conts: Vec<u64> = (0..ntypes).map(|_| if f != Focus::P18 { gen_container(r) } else { match r.below(8) { 0..=3 => SINGLE, 4 | 5 => VEC, 6 => TUP, _ => STUP } }).collect();
        let conts: Vec<u64> = conts.into_iter().map(|c| if bare && needs_heap(c) { 3 * r.below(2) } else { c }).collect();
        let rate = r.below(4); // some runs nearly fault free
        // swarm: subset of fault kinds
        let mut kinds: Vec<u64> = match f {
            Focus::P01 => vec![FLIP, BURST, TRUNC, EXTEND, SPLICE, MISROUTE, TORN, SETFIELD, MERGE, NOISE, STUCK],
            Focus::P02 => vec![FLIP, BURST, STUCK, TORN, GAPS, SETFIELD],
            Focus::P04 => vec![SETFIELD, SETFIELD, FLIP, BURST, STUCK],
            Focus::P05 => vec![FLIP, GAPS, GAPS, BURST, STUCK, TORN, DUP, DELAY, SETFIELD, MERGE, TRUNC],
            Focus::P06 => vec![DROP, DUP, DELAY, DELAY, DUP, FLIP, TRUNC, NOISE, MISROUTE],
            Focus::P18 => vec![DROP, DUP, DELAY, FLIP, BURST, STUCK, TRUNC, EXTEND, SPLICE, MISROUTE, TORN, SETFIELD, SETFIELD, MERGE, NOISE, GAPS],
        };
        r.shuffle(&mut kinds);
        let keep = 1 + r.below(kinds.len() as u64) as usize;
        kinds.truncate(keep);
        let mut t = 0;
        for id in 0..nmsg {
            let k = r.below(ntypes) as usize;
            let i = if f == Focus::P18 { peers::at(peers::STD, types[k]) } else { zoo::at(types[k]) }.info();
            let c = conts[k];
            let count = gen_count(i, r);
            let count = if matches!(f, Focus::P02 | Focus::P04) && count > 300 { count % 300 } else { count };
            t += r.below(400);
            let mut a = vec![id, t, types[k], c, count, r.u64() & 0xFFFF_FFFF, r.below(2), r.below(3)];
            a.extend(gen_raws(c, i, count, r));
            p.push(MSG, a);
            for hop in 0..hops {
                let n = match rate { 0 => r.chance(1, 8) as u64, 1 => r.chance(1, 2) as u64, _ => r.below(3) };
                let n = if matches!(f, Focus::P02 | Focus::P04) && n == 0 && r.chance(2, 3) { 1 } else { n };
                for _ in 0..n { let kind = *r.pick(&kinds); p.push(FAULT, vec![id, hop, kind, r.u64() >> r.below(50), r.u64() >> r.below(50), r.u64() >> r.below(50)]); }
            }
            if f == Focus::P18 { for _ in 0..r.below(3) { p.push(NAMES, vec![t + r.below(300), r.below(hops + 1), r.u64() >> 40, r.below(11), r.u64() >> r.below(60), r.u64() >> r.below(60), r.below(4)]); } }
            if f == Focus::P18 { for _ in 0..r.below(3) {
                let mut a = vec![t + r.below(300), r.below(hops + 1), match r.below(12) { 0..=3 => 0, 4 | 5 => 1, x => x - 4 }, r.u64() >> (8 * r.below(2) * r.below(8)), r.u64()];
                a.extend(misc_bytes(a[2], a[3], r));
                p.push(MISC, a);
            } }
            if r.chance(1, 12) { p.push(CRASH, vec![t + r.below(400), 1 + r.below(hops), r.below(3000)]); }
        }
        p
    }

    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> Res {
        let mut w = World { f: self.0, plan, ctx, q: BinaryHeap::new(), seq: 0, now: 0, frames: vec![], faults: BTreeMap::new(), last: BTreeMap::new(),
            lastany: BTreeMap::new(), down: BTreeMap::new(), msgs: BTreeMap::new(), baseline: BTreeMap::new(), rejected: BTreeSet::new() };
        for s in &plan.steps { match s.op { FAULT => w.faults.entry((s.g(0), s.g(1))).or_default().push(s), MSG => { w.msgs.entry(s.g(0)).or_insert(s); } _ => {} } }
        // external events
        const EXT: usize = 1 << 40;
        for (k, s) in plan.steps.iter().enumerate() {
            match s.op { MSG => if std::ptr::eq(w.msgs[&s.g(0)], s) { w.at(s.g(1), EXT + k) }, CRASH | NAMES | MISC => w.at(s.g(0), EXT + k), _ => {} }
        }
        if self.0 == Focus::P01 {
            let ids: Vec<u64> = w.msgs.keys().copied().collect();
            for id in ids { let g = w.good(id)?; w.baseline.insert(id, g); }
        }
        let mut steps = 0;
        while let Some(Ev { t, k, .. }) = w.q.pop() {
            w.now = t.0;
            steps += 1;
            if steps > 5000 { break; }
            if k >= EXT {
                let s = &plan.steps[k - EXT];
                if s.op == MSG { w.originate(s)?; } else if s.op == NAMES { w.names(s)?; } else if s.op == MISC { w.misc(s)?; } else {
                    let until = w.now + s.g(2);
                    let node = s.g(1);
                    w.ctx.ev(|| format!("node {} down until {}", node, until));
                    w.ctx.count("fault:node_crash");
                    w.down.insert(node, until);
                }
            } else if let Some(f) = w.frames[k].take() {
                if self.0 == Focus::P01 && f.hit != 0 && f.bytes.len() < 5000 { odd_types(&f.bytes, w.ctx)?; }
                w.deliver(f)?;
            }
        }
        let now = w.now;
        ctx.sim_ns += now * 1000;
        Ok(())
    }


}
