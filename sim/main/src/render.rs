//! P11: records printed to terminals, files and sockets that stop accepting output.
use crate::fw::*;
use crate::zoo;
use shapes::SHAPES;
use simcore::model::*;
use simcore::probe::{self, Arm, CONV, PACK};
use simcore::rng::{hash_str, mix, Rng};
use simcore::seam::{outside, yield_point, Lib};
use std::fmt;

pub struct Render;
const SHOW: u8 = 0; // entry flags mode pos tries raws..
const PROBE: u8 = 1; // record flags mode pos pack_op nth fault sticky
const MODES: [&str; 5] = ["full_at_byte_short_write", "full_at_byte_refuse_write", "refuse_once", "refuse_from_call_on", "refuse_first_write"];

/// A simulated output device.
pub struct Sink { pub text: String, pub calls: u64, pub failed: bool, pub after: u64, mode: u64, at: u64 }
impl Sink {
    pub fn healthy() -> Self { Sink { text: String::new(), calls: 0, failed: false, after: 0, mode: 99, at: 0 } }
    fn failing(mode: u64, at: u64) -> Self { Sink { mode, at, ..Sink::healthy() } }
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        outside(|| {
            yield_point();
            if self.failed { self.after += 1; }
            let k = self.calls;
            self.calls += 1;
            let refuse = match self.mode {
                0 | 1 => {
                    let room = (self.at as usize).saturating_sub(self.text.len());
                    if s.len() > room {
                        if self.mode == 0 { let mut n = room; while !s.is_char_boundary(n) { n -= 1 } self.text.push_str(&s[..n]); }
                        true
                    } else { false }
                }
                2 => k == self.at,
                3 => k >= self.at,
                4 => k == 0,
                _ => false,
            };
            if refuse { self.failed = true; return Err(fmt::Error); }
            self.text.push_str(s);
            Ok(())
        })
    }
}

fn cut(s: &str) -> String { if s.len() > 400 { let mut n = 400; while !s.is_char_boundary(n) { n -= 1 } format!("{}..", &s[..n]) } else { s.to_string() } }

/// What a rendering shows.
#[derive(Debug, Default)]
struct Shown { dec: Vec<Vec<u8>>, hex: Vec<Vec<u8>>, bin: Vec<Vec<u8>>, rows: Vec<Vec<String>>, head: Vec<String> }

fn parse(text: &str) -> Result<Shown, String> {
    let mut o = Shown::default();
    for line in text.lines() {
        let t = line.trim();
        if t.is_empty() { continue; }
        if t.starts_with('[') && t.ends_with(']') && !t.contains('|') {
            let items: Vec<&str> = t[1..t.len() - 1].split(',').map(|x| x.trim()).filter(|x| !x.is_empty()).collect();
            let (mut d, mut h, mut b) = (vec![], vec![], vec![]);
            for x in &items {
                if let Some(x) = x.strip_prefix("0x") { h.push(u8::from_str_radix(x, 16).map_err(|_| format!("bad number in {:?}", cut(t)))?) }
                else if let Some(x) = x.strip_prefix("0b") { b.push(u8::from_str_radix(x, 2).map_err(|_| format!("bad number in {:?}", cut(t)))?) }
                else { d.push(x.parse::<u8>().map_err(|_| format!("bad number in {:?}", cut(t)))?) }
            }
            if (!d.is_empty()) as u8 + (!h.is_empty()) as u8 + (!b.is_empty()) as u8 > 1 { return Err(format!("number bases mixed in {:?}", cut(t))); }
            if !h.is_empty() { o.hex.push(h) } else if !b.is_empty() { o.bin.push(b) } else { o.dec.push(d) }
        } else if t.contains('|') {
            o.rows.push(t.split('|').map(|c| c.trim().to_string()).collect());
        } else { o.head.push(t.to_string()) }
    }
    Ok(o)
}

/// The fault-free text against the record it shows.
fn judge(info: &RecInfo, packed: &[u8], debug: &[String], flags: u8, text: &str) -> Result<(), (String, String)> {
    let bad = |c: &str, m: String| Err((format!("P11/{}", c), m));
    let s = match parse(text) { Ok(s) => s, Err(e) => return bad("wrong-bytes-shown", e) };
    // 64 = field table only, 32 = plain display: everything
    let (head, dec, hex, bin, fields) = if flags & 64 != 0 { (false, false, false, false, true) } else if flags & 32 != 0 { (true, true, true, true, true) }
        else { (flags & 1 != 0, flags & 2 != 0, flags & 4 != 0, flags & 8 != 0, flags & 16 != 0) };
    for (name, want, got) in [("decimal", dec, &s.dec), ("hexadecimal", hex, &s.hex), ("binary", bin, &s.bin)] {
        if want && got.len() != 1 || !want && !got.is_empty() { return bad("wrong-sections", format!("{} bytes shown {} times, chosen: {}", name, got.len(), want)); }
        if want && got[0] != packed { return bad("wrong-bytes-shown", format!("{} section shows {:?}, the record packs to {:?}", name, got[0], packed)); }
    }
    if head && !s.head.iter().any(|l| l.contains(info.name)) { return bad("wrong-sections", "the header does not name the record".into()); }
    let sizes = |l: &str| l.replacen(info.name, "", 1).split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse::<usize>().ok()).collect::<Vec<_>>();
    if head && !s.head.iter().any(|l| l.contains(info.name) && sizes(l) == [Some(packed.len())]) { return bad("wrong-sections", format!("the header does not give the size of {} bytes: {:?}", packed.len(), s.head)); }
    if !head && s.head.iter().any(|l| l.contains(info.name)) { return bad("wrong-sections", "a header is shown though not chosen".into()); }
    if !fields { return if s.rows.is_empty() { Ok(()) } else { bad("wrong-sections", format!("{} field rows shown though not chosen", s.rows.len())) }; }
    if s.rows.len() != info.rows.len() { return bad("wrong-fields-shown", format!("{} field rows for {} fields", s.rows.len(), info.rows.len())); }
    let wide = info.rows.iter().any(|r| r.last - r.first + 1 > 32);
    for (i, (got, want)) in s.rows.iter().zip(info.rows).enumerate() {
        if got[0] != want.name { return bad("wrong-fields-shown", format!("row {} names {:?}, expected {:?}", i, got[0], want.name)); }
        let v = got.last().unwrap();
        let (raw, quoted) = (&debug[i], format!("{:?}", debug[i]));
        if v != raw && *v != quoted { return bad("wrong-fields-shown", format!("field {}: value shown as {}, expected {}", want.name, cut(v), cut(raw))); }
        if got.len() == 2 {
            if wide { continue; }
            return bad("wrong-fields-shown", format!("field {}: position and bits are missing", want.name));
        }
        if got.len() != 4 { return bad("wrong-fields-shown", format!("field {}: {} columns", want.name, got.len())); }
        let nums: Vec<u32> = got[1].split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect();
        if nums != [want.first, want.last] { return bad("wrong-fields-shown", format!("field {}: position {:?}, expected {}:{}", want.name, got[1], want.first, want.last)); }
        let bits: String = (want.first..=want.last).map(|k| if get_bit(packed, k) { '1' } else { '0' }).collect();
        let shown = got[2].strip_prefix("0b").unwrap_or(&got[2]);
        if shown != bits { return bad("wrong-fields-shown", format!("field {}: bits {:?}, expected {:?}", want.name, got[2], bits)); }
    }
    Ok(())
}

fn at(mode: u64, pos: u64, text: &str, calls: u64) -> u64 { match mode { 0 | 1 => pos % (text.len() as u64).max(1), _ => pos % calls.max(1) } }

impl Render {
    /// Renders into a sink that fails at the given instant and compares with the fault-free text.
    fn fail(&self, what: &str, full: &str, calls: u64, mode: u64, pos: u64, ctx: &mut Ctx, go: &mut dyn FnMut(&mut Sink) -> Lib<fmt::Result>) -> Res {
        let mode = mode % 5;
        let p = at(mode, pos, full, calls);
        let mut s = Sink::failing(mode, p);
        let r = go(&mut s);
        ctx.evals += 1;
        if s.failed { ctx.count(&format!("fault:sink_{}", MODES[mode as usize])); }
        ctx.hb(s.text.as_bytes());
        ctx.ev(|| format!("{} into a sink that fails ({} at {}): {:?}, received {} of {} bytes", what, MODES[mode as usize], p, r, s.text.len(), full.len()));
        let say = |m: String| format!("{}, sink fault {} at {}: {}", what, MODES[mode as usize], p, m);
        match r {
            Err(p) => return viol("P11/panicked", say(p.0)),
            Ok(Ok(())) if s.failed => return viol("P11/sink-error-swallowed", say(format!("the sink refused output, the result is Ok; it received {:?}", cut(&s.text)))),
            Ok(Err(_)) if !s.failed => return viol("P11/error-without-cause", say("the sink accepted everything, the result is an error".into())),
            _ => {}
        }
        if s.after > 0 { return viol("P11/wrote-after-failure", say(format!("{} more writes after the first refused one", s.after))); }
        if !full.starts_with(&s.text) { return viol("P11/not-a-prefix", say(format!("received {:?}, fault-free rendering {:?}", cut(&s.text), cut(full)))); }
        Ok(())
    }

    fn show(&self, s: &Step, ctx: &mut Ctx) -> Res {
        let d = zoo::derived();
        let o = zoo::usual()[d[(s.g(0) % d.len() as u64) as usize]];
        let info = o.info();
        let flags = (s.g(1) % 128) as u8;
        let vals = info.fix_vals(s.a.get(5..).unwrap_or(&[]));
        let what = format!("rendering {} with sections {:#x}", info.name, flags);
        let go = |sink: &mut Sink| -> Lib<fmt::Result> { if flags & 64 != 0 { o.field_table(&vals, sink).expect("derived") } else { o.render(&vals, flags, sink).expect("derived") } };
        let mut h = Sink::healthy();
        let r = go(&mut h);
        ctx.evals += 1;
        ctx.sig(mix(hash_str(info.name), flags as u64 * 8 + s.g(2) % 5));
        ctx.hb(h.text.as_bytes());
        ctx.ev(|| format!("{}: {:?} {:?}", what, r, cut(&h.text)));
        match r {
            Err(p) => return viol("P11/panicked", format!("{}: {}", what, p.0)),
            Ok(Err(_)) => return viol("P11/error-without-cause", format!("{} into a healthy sink failed", what)),
            Ok(Ok(())) => {}
        }
        if let Ok(Ok(packed)) = o.pack(&vals) {
            if let Err((c, m)) = judge(info, &packed, &o.debug_rows(&vals), flags, &h.text) { return viol(c, format!("{}: {}", what, m)); }
            ctx.count("probe:text_checked");
            if flags & 80 != 0 || flags & 32 != 0 { ctx.count(if info.rows.iter().any(|r| r.last - r.first > 32) { "probe:wide_table" } else { "probe:bit_table" }); }
        }
        for t in 0..1 + s.g(4) % 4 {
            self.fail(&what, &h.text, h.calls, s.g(2) + t * 3, mix(s.g(3), t), ctx, &mut |k| go(k))?;
        }
        Ok(())
    }

    /// Records whose packing may fail while they are being shown.
    fn probe(&self, s: &Step, ctx: &mut Ctx) -> Res {
        let den: Vec<_> = SHAPES.iter().filter(|x| x.can_render()).collect();
        let sh = den[(s.g(0) % den.len() as u64) as usize];
        let flags = (s.g(1) % 128) as u8;
        let obj = sh.make(&[]);
        let what = format!("rendering {} with sections {:#x}", sh.name(), flags);
        let go = |sink: &mut Sink, arms: Vec<Arm>, sticky: bool| { let live = probe::with(|s| s.live.clone()); probe::reset(arms, sticky); probe::with(|s| s.live = live); probe::active(|| obj.render(flags, sink).expect("renderable")) };
        let mut h = Sink::healthy();
        let r = go(&mut h, vec![], false);
        match r {
            Err(p) => return viol("P11/panicked", format!("{}: {}", what, p.0)),
            Ok(Err(_)) => return viol("P11/error-without-cause", format!("{} into a healthy sink failed", what)),
            Ok(Ok(())) => {}
        }
        self.fail(&what, &h.text, h.calls, s.g(2), s.g(3), ctx, &mut |k| go(k, vec![], false))?;
        // how many times one packing asks components
        probe::with(|s| { s.arms.clear(); s.counts = [0; 4]; });
        let op = if s.g(4) % 3 == 0 { CONV } else { PACK };
        let one = { probe::reset(vec![], false); probe::active(|| obj.pack_array()); probe::with(|s| s.counts) };
        let op = if one[op as usize] == 0 { PACK } else { op };
        let n = one[op as usize];
        if n == 0 { return Ok(()); }
        let nth = s.g(5) % (2 * n);
        let sticky = s.g(7) % 2 == 0;
        let mut k = Sink::healthy();
        let r = go(&mut k, vec![Arm { op, nth, fault: s.g(6) % 10 }], sticky);
        let (first, fired) = probe::with(|s| (s.first, s.fired));
        ctx.evals += 1;
        ctx.hb(k.text.as_bytes());
        ctx.sig(mix(mix(hash_str(sh.name()), flags as u64), nth * 20 + s.g(6) % 10));
        ctx.ev(|| format!("{} while component call {} fails{}: {:?} {:?}", what, nth, if sticky { " from then on" } else { "" }, r, cut(&k.text)));
        if fired == 0 { return Ok(()); }
        ctx.count("fault:pack_error_while_rendering");
        let what = format!("{} while its packing fails with {:?}", what, first);
        let r = match r { Err(p) => return viol("P11/panicked", format!("{}: {}", what, p.0)), Ok(r) => r };
        if nth < n {
            // the record cannot be packed (at the time it is shown)
            ctx.count("probe:unpackable_record");
            let e = first.unwrap();
            let named = k.text.contains(&format!("{:?}", e)) || k.text.contains(&format!("{}", e));
            if r.is_ok() && !named { return viol("P11/unpackable-not-reported", format!("{}: the text {:?} does not tell", what, cut(&k.text))); }
            let shown = k.text.lines().any(|l| { let t = l.trim(); t.starts_with('[') || t.contains("0b") || t.contains("0x") || t.contains('|') });
            if shown { return viol("P11/bytes-of-unpackable-shown", format!("{}: {:?}", what, cut(&k.text))); }
            // and the sink fails on top of it
            if r.is_ok() {
                let full = k.text.clone();
                self.fail(&what, &full, k.calls, s.g(2), s.g(3), ctx, &mut |x| go(x, vec![Arm { op, nth, fault: s.g(6) % 10 }], sticky))?;
            }
        }
        Ok(())
    }
}

impl Scenario for Render {
    fn id(&self) -> &'static str { "P11" }
    fn op_names(&self) -> &'static [&'static str] { &["show(type,sections,sink fault,instant,tries,values..)", "show-failing(record,sections,sink fault,instant,callback,nth,error,sticky)"] }
    fn describe(&self, s: &Step) -> String {
        if s.op == SHOW { let d = zoo::derived(); format!("show {} sections {:#x}, sink fault {}", zoo::usual()[d[(s.g(0) % d.len() as u64) as usize]].info().name, s.g(1) % 128, MODES[(s.g(2) % 5) as usize]) }
        else { format!("show scripted record {} sections {:#x}, sink fault {}, component error {} at call {}{}", s.g(0), s.g(1) % 128, MODES[(s.g(2) % 5) as usize], s.g(6) % 10, s.g(5), if s.g(7) % 2 == 0 { " and on" } else { "" }) }
    }
    fn budget(&self, th: bool) -> u64 { if th { 120_000 } else { 16_000 } }
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["packed_struct::debug_fmt", "generated Display and field tables", "generated pack"], &["output devices (fmt::Write sinks with short, refused and transiently refused writes)", "scripted components"])
    }
    fn rule(&self) -> &'static str { "a run shows 3-8 records, each with a choice of sections, to a healthy sink and to sinks failing at drawn instants; counted as distinct: (record, sections, sink fault or failing component call) tuples" }
    fn must_reach(&self) -> &'static [&'static str] { &["probe:text_checked", "probe:bit_table", "probe:wide_table", "probe:unpackable_record", "fault:sink_refuse_once", "fault:sink_full_at_byte_short_write"] }
    fn gen(&self, r: &mut Rng) -> Plan {
        let mut p = Plan { cfg: vec![], steps: vec![] };
        let d = zoo::derived();
        for _ in 0..3 + r.below(6) {
            let flags = match r.below(6) { 0 => 32, 1 => 64, 2 => 1 << r.below(5), 3 => 31, 4 => 16, _ => r.below(32) };
            if r.chance(3, 4) {
                let e = r.below(d.len() as u64);
                let mut a = vec![e, flags, r.below(5), r.u64() >> r.below(60), r.below(4)];
                a.extend(zoo::usual()[d[e as usize]].info().gen_vals(r).into_iter().map(|v| v as u64));
                p.push(SHOW, a);
            } else { p.push(PROBE, vec![r.below(64), flags, r.below(5), r.u64() >> r.below(60), r.below(6), r.below(64), r.below(10), r.below(2)]); }
        }
        p
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> Res {
        probe::reset(vec![], false);
        for s in &plan.steps { if s.op == SHOW { self.show(s, ctx)? } else { self.probe(s, ctx)? } }
        ctx.sim_ns += plan.steps.len() as u64 * 1000;
        Ok(())
    }
}
