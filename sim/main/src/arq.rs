//! P15: two nodes move a payload over a bad link with a sliding window, in simulated time.
use crate::fw::*;
use arqwire::{Frame, Wire, ACK, DATA, PING, WIRES};
use simcore::model::hex;
use simcore::rng::{hash_str, mix, Rng};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};

pub struct Arq;
const FAULT: u8 = 0; // transmission kind p1 p2 p3
const PART: u8 = 1; // t duration link
const RESTART: u8 = 2; // t node downtime
const STALL: u8 = 3; // t duration node
const KINDS: [&str; 10] = ["loss", "duplicate", "delay_reorder", "bit_flip", "burst", "truncate", "extend", "splice", "replay_of_old_frame", "noise"];

const SENDER: usize = 0;
const RECEIVER: usize = 1;

#[derive(PartialEq, Eq, PartialOrd, Ord)]
enum What { Arrive(usize, usize), Timer(u64), Keepalive, Produce, Restart(usize, u64), Up(usize) }
struct Flight { bytes: Vec<u8>, sent: Option<(Frame, u64, u64)>, to: usize }

fn crc(w: &dyn Wire, f: &Frame, seq: u64, ack: u64) -> u64 {
    let mut c = !0u32;
    let mut eat = |b: u8| { c ^= b as u32; for _ in 0..8 { c = if c & 1 == 1 { c >> 1 ^ 0xEDB8_8320 } else { c >> 1 } } };
    for b in [f.kind as u8, f.last as u8] { eat(b) }
    for b in seq.to_le_bytes().into_iter().chain(ack.to_le_bytes()) { eat(b) }
    for b in w.normal(&f.payload) { eat(b) }
    !c as u64
}
/// The number near `low` with these low bits.
fn expand(low: u64, raw: i128, bits: u32) -> u64 {
    let m = if bits == 64 { !0 } else { (1u64 << bits) - 1 };
    low.wrapping_add((raw as u64).wrapping_sub(low) & m)
}

struct World<'a> {
    w: &'static dyn Wire, plan: &'a Plan, ctx: &'a mut Ctx,
    q: BinaryHeap<Reverse<(u64, u64, What)>>, n: u64, now: u64, flights: Vec<Option<Flight>>,
    faults: BTreeMap<u64, Vec<&'a Step>>, tx: u64, last_fault: u64, quiet: u64, old: [Vec<Vec<u8>>; 2],
    down: [u64; 2], busy: [u64; 2],
    // what the sending application hands over
    chunks: Vec<Vec<u8>>, start: u64, window: u64, rto: u64, delay: u64, gap: u64, whole_window: bool, produced: u64,
    // sender (base is durable)
    base: u64, next: u64, timer: u64, sacked: u64,
    // receiver (got is durable)
    got: u64, early: BTreeMap<u64, (Vec<u8>, bool)>,
    delivered_last: bool,
}

impl<'a> World<'a> {
    fn at(&mut self, t: u64, w: What) { self.n += 1; let n = self.n; self.q.push(Reverse((t, n, w))); }
    fn total(&self) -> u64 { self.chunks.len() as u64 }
    fn say(&self, m: String) -> String { format!("t={} us, {}: {}", self.now, self.w.name(), m) }

    fn transmit(&mut self, from: usize, kind: i128, seq: u64, ack: u64, last: bool, payload: Vec<u8>) -> Res {
        let mut f = Frame { kind, seq: 0, ack: 0, last, payload, crc: 0 };
        f.crc = crc(self.w, &f, seq, ack);
        self.ctx.evals += 1;
        let bytes = match self.w.encode(&f, seq, ack, self.tx ^ self.plan.c(0)) {
            Ok(Ok(b)) => b,
            Ok(Err(e)) => return viol("P15/frame-not-built", self.say(format!("{:?} with counters {} and {}: {:?}", f, seq, ack, e))),
            Err(p) => return viol("P15/panicked", self.say(format!("building a frame: {}", p.0))),
        };
        if bytes.len() != self.w.fixed() + f.payload.len() { return viol("P15/frame-of-wrong-size", self.say(format!("{} bytes of payload became a frame of {} bytes", f.payload.len(), bytes.len()))); }
        let tx = self.tx;
        self.tx += 1;
        if self.tx > self.last_fault { self.quiet = self.quiet.max(if self.tx == self.last_fault + 1 { self.now } else { 0 }); }
        let to = from ^ 1;
        let mut bytes_out = bytes.clone();
        let mut copies = vec![self.delay];
        let mut hit = vec![];
        for s in self.faults.get(&tx).cloned().unwrap_or_default() {
            let k = (s.g(1) % KINDS.len() as u64) as usize;
            let (p, q, r) = (s.g(2), s.g(3), s.g(4));
            let nb = bytes_out.len();
            match k {
                0 => copies.clear(),
                1 => for i in 0..1 + p % 3 { copies.push(self.delay + (q >> (8 * i)) % 9_000) },
                2 => { for c in &mut copies { *c += p % 30_000 } }
                3 => for i in 0..1 + q % 4 { if nb > 0 { let b = p.wrapping_add(i.wrapping_mul(r)) % (8 * nb as u64); bytes_out[(b / 8) as usize] ^= 0x80 >> (b % 8); } },
                4 => if nb > 0 { let st = p as usize % nb; let mut g = Rng::new(r); for x in bytes_out.iter_mut().skip(st).take(1 + q as usize % 7) { *x = g.u64() as u8 } },
                5 => if nb > 0 { let c = if q % 3 == 0 { self.w.unit() } else { 1 + p as usize % nb }.min(nb); if r & 1 == 0 { bytes_out.truncate(nb - c) } else { bytes_out.drain(..c); } },
                6 => { let mut g = Rng::new(r); let c = if q % 3 == 0 { self.w.unit() } else { 1 + p as usize % 40 }; for _ in 0..c { bytes_out.push(if q & 8 == 0 { 0 } else { g.u64() as u8 }) } }
                7 => if let Some(o) = self.old[from].last() { let c = p as usize % (nb + 1); bytes_out.truncate(c); if c < o.len() { bytes_out.extend_from_slice(&o[c..]) } },
                8 => if !self.old[from].is_empty() { let o = self.old[from][p as usize % self.old[from].len()].clone(); let t = self.now + self.delay + q % 20_000; self.fly(t, Flight { bytes: o, sent: None, to }); },
                _ => { let mut g = Rng::new(r); let c = p as usize % (2 * nb + 5); bytes_out = (0..c).map(|_| if q & 1 == 0 { 0xFF } else { g.u64() as u8 }).collect() }
            }
            hit.push(KINDS[k]);
            self.ctx.count(&format!("fault:{}", KINDS[k]));
        }
        if self.old[from].len() < 400 { self.old[from].push(bytes.clone()); }
        for s in &self.plan.steps {
            if s.op == PART && s.g(2) & 1 == from as u64 && self.now >= s.g(0) % 200_000 && self.now < s.g(0) % 200_000 + s.g(1) % 80_000 { if !copies.is_empty() { self.ctx.count("fault:partition_drop"); } copies.clear(); }
        }
        self.ctx.h(mix(self.now, copies.len() as u64));
        self.ctx.hb(&bytes_out);
        let now = self.now;
        let names = ["?", "DATA", "ACK", "?", "?", "PING"];
        let bs = hex(&bytes_out);
        self.ctx.ev(|| format!("t={} tx {} node {} sends {} seq {} ack {} len {} {} {:?} copies {:?}", now, tx, from, names[kind as usize], seq, ack, f.payload.len(), bs, hit, copies));
        let same = bytes_out == bytes;
        for d in copies { let fl = Flight { bytes: bytes_out.clone(), sent: if same { Some((f.clone(), seq, ack)) } else { None }, to }; self.fly(now + d, fl); }
        Ok(())
    }
    fn fly(&mut self, t: u64, f: Flight) { let to = f.to; self.flights.push(Some(f)); let i = self.flights.len() - 1; self.at(t, What::Arrive(to, i)); }

    fn send_data(&mut self, abs: u64) -> Res {
        let i = abs.wrapping_sub(self.start);
        let p = self.chunks[i as usize].clone();
        let (base, last) = (self.base, i + 1 == self.total());
        self.transmit(SENDER, DATA, abs, base, last, p)
    }
    fn fill(&mut self) -> Res {
        if self.down[SENDER] > self.now { return Ok(()); }
        while self.next.wrapping_sub(self.base) < self.window && self.next.wrapping_sub(self.start) < self.produced { let n = self.next; self.send_data(n)?; self.next = n.wrapping_add(1); }
        Ok(())
    }
    fn arm(&mut self) { self.timer += 1; let (t, g) = (self.now + self.rto, self.timer); self.at(t, What::Timer(g)); }

    fn arrive(&mut self, to: usize, i: usize) -> Res {
        if self.busy[to] > self.now { let t = self.busy[to]; self.ctx.count("fault:stalled_node"); self.at(t, What::Arrive(to, i)); return Ok(()); }
        let fl = self.flights[i].take().unwrap();
        if self.down[to] > self.now { self.ctx.count("fault:arrived_while_down"); return Ok(()); }
        let got = self.w.decode(&fl.bytes);
        self.ctx.evals += 1;
        let b = hex(&fl.bytes);
        let got = match got { Ok(r) => r, Err(p) => return viol("P15/panicked", self.say(format!("taking frame {}: {}", b, p.0))) };
        let spelled = self.w.spelled(&fl.bytes);
        if let Some((f, seq, ack)) = &fl.sent {
            match &got {
                Err(e) => return viol("P15/undamaged-frame-refused", self.say(format!("frame {} arrived as it was sent: {:?}", b, e))),
                Ok(g) => {
                    let same_low = |x: i128, abs: u64, bits: u32| expand(abs, x, bits) == abs;
                    if g.kind != f.kind || g.last != f.last || g.payload != self.w.normal(&f.payload) || g.crc != f.crc || !same_low(g.seq, *seq, self.w.seq_bits()) || !same_low(g.ack, *ack, self.w.ack_bits()) {
                        return viol("P15/undamaged-frame-changed", self.say(format!("frame {} with counters {} and {} was sent as {:?} and read as {:?}", b, seq, ack, f, g)));
                    }
                }
            }
        }
        match (&spelled, &got) {
            (None, Err(_)) => { self.ctx.count("probe:damaged_frame_refused"); return Ok(()); }
            (Some(s), Ok(g)) if s == g => {}
            (Some(_), Err(e)) => return viol("P15/readable-frame-refused", self.say(format!("frame {} spells {:?}, refused with {:?}", b, spelled, e))),
            _ => return viol("P15/frame-taken-for-another", self.say(format!("frame {} spells {:?}, read as {:?}", b, spelled, got))),
        }
        if fl.sent.is_none() { self.ctx.count("probe:damaged_frame_read"); }
        let f = got.unwrap();
        if to == RECEIVER { self.receive(f) } else { self.acked(f) }
    }
    fn receive(&mut self, f: Frame) -> Res {
        let exp = self.start.wrapping_add(self.got);
        let low = exp.wrapping_sub(self.window);
        let seq = expand(low, f.seq, self.w.seq_bits());
        let ackbase = expand(low, f.ack, self.w.ack_bits());
        if seq.wrapping_sub(low) >= 2 * self.window || (f.kind != DATA && f.kind != PING) || f.crc != crc(self.w, &f, seq, ackbase) { self.ctx.count("probe:checksum_refused"); return Ok(()); }
        let now = self.now;
        self.ctx.sig(mix(mix(hash_str(self.w.name()), f.kind as u64), mix(seq.wrapping_sub(low), self.early.keys().fold(0, |a, k| a | 1 << (k.wrapping_sub(exp) & 63)))));
        if f.kind == DATA {
            if seq.wrapping_sub(exp) < self.window {
                if seq != exp { self.ctx.count("probe:out_of_order"); }
                self.early.entry(seq).or_insert((f.payload.clone(), f.last));
                loop {
                    let want = self.start.wrapping_add(self.got);
                    let Some((p, last)) = self.early.remove(&want) else { break };
                    let i = self.got as usize;
                    if i >= self.chunks.len() { return viol("P15/delivered-more-than-sent", self.say(format!("chunk {} of {}", i, self.chunks.len()))); }
                    if self.delivered_last { return viol("P15/delivered-after-the-end", self.say(format!("chunk {}", i))); }
                    let right = self.w.normal(&self.chunks[i]);
                    if p != right { return viol("P15/delivered-other-payload", self.say(format!("chunk {} (counter {}) is {} instead of {}", i, want, hex(&p), hex(&right)))); }
                    if last != (i + 1 == self.chunks.len()) { return viol("P15/delivered-other-payload", self.say(format!("chunk {} of {} marked as last: {}", i, self.chunks.len(), last))); }
                    self.delivered_last = last;
                    self.got += 1;
                    self.ctx.ev(|| format!("t={} chunk {} delivered", now, i));
                }
            } else { self.ctx.count("probe:duplicate_suppressed"); }
        }
        // what is here early: one byte of bits per payload unit
        let exp = self.start.wrapping_add(self.got);
        let u = self.w.unit();
        let mut bits = [0u8; 8];
        for k in self.early.keys() { let d = k.wrapping_sub(exp); if d < 64 { bits[(d / 8) as usize] |= 1 << (d % 8) } }
        let nb = (0..8).rev().find(|i| bits[*i] != 0).map_or(0, |i| i + 1);
        let mut p = vec![0; nb * u];
        for i in 0..nb { p[i * u] = bits[i] }
        self.transmit(RECEIVER, ACK, seq, exp, self.delivered_last, p)
    }
    fn acked(&mut self, f: Frame) -> Res {
        let low = self.base.wrapping_sub(self.window);
        let echo = expand(low, f.seq, self.w.seq_bits());
        let ack = expand(self.base, f.ack, self.w.ack_bits());
        if f.kind != ACK || echo.wrapping_sub(low) >= 2 * self.window || ack.wrapping_sub(self.base) > self.window || f.crc != crc(self.w, &f, echo, ack) { self.ctx.count("probe:checksum_refused"); return Ok(()); }
        let n = ack.wrapping_sub(self.start);
        // what the receiver says it has must be there
        if n > self.got { return viol("P15/acknowledged-but-not-delivered", self.say(format!("counter {} (chunk {}) acknowledged, {} delivered", ack, n, self.got))); }
        if ack != self.base { self.base = ack; self.arm(); }
        if self.next.wrapping_sub(self.start) < n { self.next = ack; }
        let u = self.w.unit();
        self.sacked = 0;
        for (i, c) in f.payload.chunks(u).enumerate().take(8) { self.sacked |= (c[0] as u64) << (8 * i) }
        let now = self.now;
        self.ctx.ev(|| format!("t={} acknowledged up to chunk {}", now, n));
        self.fill()
    }
    fn timeout(&mut self, g: u64) -> Res {
        if g != self.timer { return Ok(()); }
        let done = self.base.wrapping_sub(self.start) >= self.total();
        if self.down[SENDER] <= self.now && !done {
            self.fill()?;
            let n = if self.whole_window { self.next.wrapping_sub(self.base) } else { 1.min(self.next.wrapping_sub(self.base)) };
            for i in 0..n { if i == 0 || self.sacked >> (i & 63) & 1 == 0 { self.ctx.count("probe:retransmission"); let a = self.base.wrapping_add(i); self.send_data(a)?; } }
        }
        if !done { self.arm(); }
        Ok(())
    }
    fn run(&mut self) -> Res {
        self.arm();
        self.at(0, What::Produce);
        self.at(self.rto * 3, What::Keepalive);
        for s in &self.plan.steps {
            let t = s.g(0) % 200_000;
            match s.op { PART => self.quiet = self.quiet.max(t + s.g(1) % 80_000), RESTART => { let d = s.g(2) % 20_000; self.quiet = self.quiet.max(t + d); self.at(t, What::Restart((s.g(1) & 1) as usize, d)); } STALL => { self.quiet = self.quiet.max(t + s.g(1) % 40_000); self.at(t, What::Restart(2 + (s.g(2) & 1) as usize, s.g(1) % 40_000)); } _ => {} }
        }
        self.quiet = self.quiet.max(self.gap * self.total());
        while let Some(Reverse((t, _, w))) = self.q.pop() {
            self.now = t;
            match w {
                What::Arrive(to, i) => self.arrive(to, i)?,
                What::Timer(g) => self.timeout(g)?,
                What::Keepalive => {
                    if self.base.wrapping_sub(self.start) < self.total() {
                        if self.down[SENDER] <= self.now { let b = self.base; self.transmit(SENDER, PING, b, b, false, vec![])?; }
                        let t = self.now + self.rto * 5; self.at(t, What::Keepalive);
                    }
                }
                What::Produce => { self.produced += 1; if self.produced < self.total() { let t = self.now + self.gap; self.at(t, What::Produce); } self.fill()?; }
                What::Restart(n, d) => if n >= 2 { let t = self.now + d; self.busy[n - 2] = self.busy[n - 2].max(t); } else {
                    self.ctx.count(if n == RECEIVER { "fault:receiver_restart" } else { "fault:sender_restart" });
                    let t = self.now + d;
                    self.down[n] = self.down[n].max(t);
                    if n == RECEIVER { self.early.clear() } else { self.next = self.base; self.sacked = 0; }
                    let now = self.now;
                    self.ctx.ev(|| format!("t={} node {} crashes, down for {}", now, n, d));
                    self.at(t, What::Up(n));
                },
                What::Up(n) => if n == SENDER { self.arm(); },
            }
            let done = self.base.wrapping_sub(self.start) == self.total() && self.got == self.total();
            if done { break; }
            // bounded progress once faults have stopped
            let quiet = if self.tx > self.last_fault { Some(self.quiet) } else { None };
            let slack = 40_000 + (self.total() + 12) * (self.rto + 4 * self.delay) * 2;
            if quiet.map_or(self.now > 400_000 + self.last_fault * self.rto * 2 + slack, |q| self.now > q + slack) { return viol("P15/not-completed-in-time", self.say(format!("faults stopped at {:?} us, {} of {} chunks acknowledged, {} delivered", quiet, self.base.wrapping_sub(self.start), self.total(), self.got))); }
        }
        if self.got != self.total() || self.base.wrapping_sub(self.start) != self.total() { return viol("P15/not-completed-in-time", self.say(format!("nothing left to do, {} of {} chunks delivered", self.got, self.total()))); }
        if !self.delivered_last { return viol("P15/delivered-other-payload", self.say("the end was never seen".into())); }
        self.ctx.count("probe:transfer_completed");
        self.ctx.add("chunks_delivered", self.got);
        self.ctx.sim_ns += self.now * 1000;
        Ok(())
    }
}

impl Scenario for Arq {
    fn id(&self) -> &'static str { "P15" }
    fn op_names(&self) -> &'static [&'static str] { &["fault(transmission,kind,p1,p2,p3)", "partition(t,duration,link)", "restart(t,node,downtime)", "stall(t,duration,node)"] }
    fn budget(&self, th: bool) -> u64 { if th { 200_000 } else { 12_000 } }
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["generated pack/unpack of 37 header layouts", "packed_struct tuples, vectors, integers, enums"], &["clock and timers", "two links (loss, damage, repetition, reordering, delay, partitions)", "the two protocol nodes (restarts, stalls)", "durable state of the nodes"])
    }
    fn rule(&self) -> &'static str { "a run draws a frame format (header layout, byte orders, arrangement, payload type), counters starting just before they wrap, a payload, window, timers, and faults by transmission number plus partitions, restarts and stalls; counted as distinct: (format, kind of frame, counter relative to the window, set of chunks received early) tuples" }
    fn must_reach(&self) -> &'static [&'static str] { &["probe:damaged_frame_refused", "probe:damaged_frame_read", "probe:checksum_refused", "probe:out_of_order", "probe:duplicate_suppressed", "probe:retransmission", "probe:transfer_completed", "probe:counter_wrapped", "fault:receiver_restart", "fault:sender_restart", "fault:partition_drop", "fault:replay_of_old_frame", "fault:stalled_node"] }
    fn gen(&self, r: &mut Rng) -> Plan {
        let w = r.below(WIRES.len() as u64);
        let n = match r.below(10) { 0 => r.range(60, 140), 1 => r.range(1, 3), _ => r.range(4, 40) };
        // cfg: format, chunks, payload seed, payload style, start, window, rto, delay, gap, retransmission
        let mut p = Plan { cfg: vec![w, n, r.u64() >> 20, r.below(6), r.u64() >> r.below(64), r.range(1, 16), r.range(500, 9000), r.range(20, 3000), if r.chance(1, 2) { 0 } else { r.below(3000) }, r.below(2)], steps: vec![] };
        let span = 3 * n + 20;
        for _ in 0..match r.below(4) { 0 => 0, 1 => r.below(4), _ => r.below(span) } {
            p.push(FAULT, vec![r.below(span), r.below(KINDS.len() as u64), r.u64() >> r.below(56), r.u64() >> r.below(56), r.u64() >> r.below(56)]);
        }
        for _ in 0..r.below(3) { p.push(PART, vec![r.below(60_000), r.below(30_000), r.below(2)]) }
        for _ in 0..r.below(4) { p.push(RESTART, vec![r.below(60_000), if r.chance(2, 3) { 1 } else { 0 }, r.below(10_000)]) }
        for _ in 0..r.below(2) { p.push(STALL, vec![r.below(60_000), r.below(20_000), r.below(2)]) }
        p
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> Res {
        let w = WIRES[(plan.c(0) % WIRES.len() as u64) as usize];
        let n = plan.c(1).clamp(1, 400);
        let mut r = Rng::new(plan.c(2));
        let style = plan.c(3) % 6;
        let u = w.unit();
        let chunks: Vec<Vec<u8>> = (0..n).map(|_| {
            let l = match style { 0 => 1, 1 => r.below(3), 2 => r.below(40), 3 => if r.chance(1, 8) { 250 + r.below(20) } else { r.below(5) }, 4 => 0, _ => r.below(12) } as usize;
            (0..l * u).map(|_| match style { 1 => 0xFF, _ => r.u64() as u8 }).collect()
        }).collect();
        // counters start shortly before some border
        let (sb, ab) = (w.seq_bits(), w.ack_bits());
        let x = plan.c(4);
        let native = |b: u32| match b { 0..=8 => 8, 9..=16 => 16, 17..=32 => 32, _ => 64 };
        let border = match x % 9 { 0 => sb, 1 => ab, 2 => native(sb), 3 => native(ab), 4 => sb - 1, 5 => ab - 1, 6 => 63, 7 => 0, _ => 64 };
        let edge = 1u64.checked_shl(border).unwrap_or(0).wrapping_mul(1 + (x / 9) % 3);
        let start = if border == 0 { x } else { edge.wrapping_sub((x / 27) % (n + 3)) };
        let room = if sb.min(ab) >= 7 { 64 } else { 1 << (sb.min(ab) - 1) };
        let window = plan.c(5).clamp(1, room);
        if (start >> (sb - 1)) != (start.wrapping_add(n) >> (sb - 1)) { ctx.count("probe:counter_wrapped"); }
        let mut faults: BTreeMap<u64, Vec<&Step>> = BTreeMap::new();
        let mut last_fault = 0;
        for s in &plan.steps { if s.op == FAULT { let t = s.g(0) % 1000; faults.entry(t).or_default().push(s); last_fault = last_fault.max(t + 1); } }
        let mut world = World { w, plan, ctx, q: BinaryHeap::new(), n: 0, now: 0, flights: vec![], faults, tx: 0, last_fault, quiet: 0, old: Default::default(), down: [0; 2], busy: [0; 2],
            chunks, start, window, rto: plan.c(6).clamp(100, 20_000), delay: plan.c(7).clamp(1, 5_000), gap: plan.c(8) % 5_000, whole_window: plan.c(9) & 1 == 0, produced: 0,
            base: start, next: start, timer: 0, sacked: 0, got: 0, early: BTreeMap::new(), delivered_last: false };
        world.run()
    }
}
