//! P16: a device whose modes are enums, configured by name over a lossy text line, reporting by name, storing numbers,
//! talking to gateways that may know fewer names. P17: nodes of either byte order that pass numbers on as bytes.
use crate::fw::*;
use crate::zoo;
use ::ints::INTS;
use simcore::enums::EnumOps;
use simcore::model::*;
use simcore::rng::{hash_str, mix, Rng};
use simcore::seam::Lib;

#[derive(Clone, Copy, PartialEq)]
pub enum Focus { P16, P17 }
pub struct Console(pub Focus);

const NAME: u8 = 0; // variant way damage a b : operator sends a name
const REPORT: u8 = 1; // form damage a b : device sends the name of its mode
const STORE: u8 = 2; // order
const DECAY: u8 = 3; // kind a b
const RESTORE: u8 = 4;
const MENU: u8 = 5; // way
const NUMBER: u8 = 6; // kind a : operator sends a number
const COMPARE: u8 = 7; // kind a wraps
const GATEWAY: u8 = 8; // order number-kind a : through a node that keeps unknown numbers
const LOAD: u8 = 9; // raw : a node of P17 gets a new value
const HOP: u8 = 10; // form damage a b
const RAWHOP: u8 = 11; // orders damage a b

fn ok<T>(p: &str, what: impl FnOnce() -> String, r: Lib<T>) -> Result<T, Violation> { match r { Ok(v) => Ok(v), Err(e) => viol(format!("{}/panicked", p), format!("{}: {}", what(), e.0)) } }
fn lower(s: &str) -> String { s.to_lowercase() }

/// The model of name parsing: the variants a text may stand for.
fn meant(i: &EnumInfo, s: &str, low: bool) -> Vec<i128> {
    (0..i.disc.len()).filter(|k| if low { lower(i.names[*k]) == s } else { i.names[*k] == s }).map(|k| i.disc[k]).collect()
}
fn name_of(i: &EnumInfo, n: i128) -> Option<&'static str> { i.disc.iter().position(|d| *d == n).map(|k| i.names[k]) }

/// What line noise, terminals and well-meaning programs put into a text.
const STRAY: [char; 24] = ['\0', '\r', '\n', '\t', ' ', '\x08', '\x1B', '\x7F', '\u{A0}', '\u{FEFF}', '\u{200B}', '\u{301}', '\u{130}', '\u{17F}', '\u{212A}', '\u{3000}', '_', '-', '.', ':', '"', '\'', '0', '\u{FFFD}'];
fn garble(s: &str, kind: u64, a: u64, b: u64, other: &str, disc: i128) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let n = c.len().max(1);
    let stray = STRAY[b as usize % STRAY.len()];
    match kind % GARBLES {
        15 => { c.push(stray); if b >= 128 { c.push(STRAY[a as usize % STRAY.len()]); } }
        16 => c.insert(0, stray),
        17 => { let k = a as usize % (c.len() + 1); c.insert(k, stray); }
        18 => { let k = a as usize % n; if k < c.len() { c[k] = stray; } }
        19 => return match b % 4 { 0 => disc.to_string(), 1 => format!("{:#x}", disc), 2 => format!("{}({})", s, disc), _ => format!("{:x}", disc) },
        20 => return match b % 6 { 0 => s.replace('_', ""), 1 => s.replace('_', "-"), 2 => s.replace('_', " "), 3 => format!("_{}", s), 4 => format!("{}_", s), _ => s.trim_matches('_').to_string() },
        21 => return s.chars().flat_map(|x| if x.is_uppercase() { vec!['_', x] } else { vec![x] }).collect::<String>().trim_start_matches('_').to_string(),
        22 => return s.chars().map(|x| match x { 'k' | 'K' => '\u{212A}', 's' => '\u{17F}', 'i' | 'I' => '\u{130}', 'ß' => '\u{1E9E}', 'å' | 'Å' => '\u{212B}', 'ω' | 'Ω' => '\u{2126}', x => x }).collect(),
        23 => { let k = c.len() - c.len().min(a as usize % 3); c.drain(..n.min(c.len()).min(k.min(1 + b as usize % 3))); }
        24 => { let h = s.to_string(); return format!("{}{}{}", h, stray, other); }
        25 => c.reverse(),
        1 => { if !c.is_empty() { c.remove(a as usize % n); } }
        2 => { let k = a as usize % n; if k < c.len() { c.insert(k, c[k]); } }
        3 => { let k = a as usize % n; if k < c.len() { c[k] = (b'!' + (b % 94) as u8) as char; } }
        4 => c.truncate(a as usize % n),
        5 => c.push((b'!' + (b % 94) as u8) as char),
        6 => { let k = a as usize % n; if k + 1 < c.len() { c.swap(k, k + 1); } }
        7 => return other.to_string(),
        8 => return format!("{}{}", s, other),
        9 => return s.to_uppercase(),
        10 => return lower(s),
        11 => return format!("{}{}", if b & 1 == 0 { " " } else { "" }, if b & 2 == 0 { format!("{} ", s) } else { format!("{}\n", s) }),
        12 => { let k = a as usize % n; if k < c.len() { c[k] = if c[k].is_lowercase() { c[k].to_uppercase().next().unwrap() } else { c[k].to_lowercase().next().unwrap() }; } }
        13 => return String::new(),
        14 => return format!("r#{}", s),
        _ => {}
    }
    c.into_iter().collect()
}

const GARBLES: u64 = 26;
struct World<'a> { o: &'static dyn EnumOps, mode: i128, known: bool, stored: Option<Vec<u8>>, model_stored: Vec<u8>, order: bool, ctx: &'a mut Ctx }

impl<'a> World<'a> {
    fn what(&self) -> String { format!("enum {} {{ {} }}", self.o.info().name, self.o.info().names.iter().zip(self.o.info().disc).map(|(n, d)| format!("{} = {}", n, d)).take(24).collect::<Vec<_>>().join(", ")) }
    fn variant(&self, a: u64) -> i128 { let d = self.o.info().disc; d[a as usize % d.len()] }
    /// A number the operator may come up with: declared, next to a declared one, a wrapped-around declared one, any.
    fn number(&self, kind: u64, a: u64) -> i128 {
        let bits = 8 * self.o.backing_bytes() as u32;
        let v = self.variant(a >> 8);
        let n = match kind % 8 {
            0 | 1 => v,
            2 => v + 1, 3 => v - 1,
            4 => v ^ (1i128 << (a % bits as u64)),
            5 => -v,
            6 => v + (1i128 << (a % bits as u64)),
            _ => if self.o.fits(-1) { a as i64 as i128 } else { a as i128 },
        };
        // as the backing type would hold it
        if self.o.fits(n) { n } else {
            let m = n.rem_euclid(1i128 << bits);
            if self.o.fits(m) { m } else { m - (1i128 << bits) }
        }
    }
    /// The text arrives somewhere; what is it taken for?
    fn take(&mut self, text: &str, way: u64, who: &str) -> Result<Option<i128>, Violation> {
        let o = self.o;
        let i = o.info();
        let low = way & 1 == 1;
        let w = self.what();
        let say = |got: String, want: &[i128]| format!("{} reads {:?}{} as {} ({}): should be one of {:?}", who, text, if low { " (lower-case form)" } else { "" }, got, w, want);
        let want = meant(i, text, low);
        self.ctx.evals += 1;
        let got = if way & 2 == 0 { ok("P16", || say("(panic)".into(), &want), o.parse(text, low))? }
            else { match ok("P16", || say("(panic)".into(), &want), o.any_parse(text, low))? {
                None => None,
                Some((true, n)) => Some(n),
                Some((false, n)) => return viol("P16/name-became-unknown-number", say(format!("unknown number {}", n), &want)),
            } };
        self.ctx.sig(mix(mix(hash_str(i.name), way & 3), mix(want.len().min(2) as u64, got.is_some() as u64)));
        match got {
            None if !want.is_empty() => viol("P16/name-refused", say("nothing".into(), &want)),
            Some(n) if want.is_empty() => viol("P16/foreign-name-accepted", say(format!("variant {}", n), &want)),
            Some(n) if !want.contains(&n) => viol("P16/name-taken-for-another", say(format!("variant {}", n), &want)),
            g => Ok(g),
        }
    }
    fn line(&mut self, s: &str, d: u64, a: u64, b: u64) -> String {
        let other = self.o.info().names[b as usize % self.o.info().names.len()];
        let k = b as usize % self.o.info().names.len();
        let t = garble(s, d, a, b, other, self.o.info().disc[if a & 1 == 0 { k } else { self.o.info().names.iter().position(|n| *n == s).unwrap_or(k) }]);
        if t != s { self.ctx.count("fault:damaged_text"); }
        t
    }
    fn name(&mut self, s: &Step) -> Res {
        let v = self.variant(s.g(0));
        let n = name_of(self.o.info(), v).unwrap();
        let sent = if s.g(1) & 1 == 1 { lower(n) } else { n.to_string() };
        let t = self.line(&sent, s.g(2), s.g(3), s.g(4));
        let r = self.take(&t, s.g(1), "the device")?;
        self.ctx.ev(|| format!("operator sends {:?}, device reads {:?} as {:?}", sent, t, r));
        if let Some(r) = r { self.mode = r; self.known = true; self.ctx.count("probe:mode_set_by_name"); }
        if r.is_none() { self.ctx.count("probe:name_refused"); }
        self.ctx.h(self.mode as u64);
        Ok(())
    }
    fn show(&mut self, form: u64) -> Result<String, Violation> {
        let (o, m) = (self.o, self.mode);
        self.ctx.evals += 1;
        let w = self.what();
        let t = ok("P16", || format!("display name of {} of {}", m, w), match (self.known, form % 3) { (true, 0) => o.show(m, false), (true, 1) => o.show(m, true), _ => o.any_show(m, false) })?;
        match name_of(o.info(), m) {
            Some(n) if t != n => viol("P16/wrong-display-name", format!("variant {} ({}) is displayed as {:?}: {}", n, m, t, w)),
            None if !t.contains(&m.to_string()) => viol("P16/unknown-number-not-shown", format!("unknown number {} is displayed as {:?}: {}", m, t, w)),
            _ => Ok(t),
        }
    }
    fn report(&mut self, s: &Step) -> Res {
        let t = self.show(s.g(0))?;
        let low = s.g(0) / 3 & 1 == 1;
        let sent = if low { lower(&t) } else { t };
        let t = self.line(&sent, s.g(1), s.g(2), s.g(3));
        let r = self.take(&t, s.g(0) / 3, "the operator")?;
        let (m, k) = (self.mode, self.known);
        self.ctx.ev(|| format!("device in mode {} reports {:?}, operator reads {:?} as {:?}", m, sent, t, r));
        if t == sent && k {
            self.ctx.count("probe:name_round_trip");
            let unique = meant(self.o.info(), &t, low).len() == 1;
            if r != Some(m) && (unique || r.is_none()) { return viol("P16/name-round-trip", format!("mode {} reported as {:?} is read as {:?}: {}", m, t, r, self.what())); }
        }
        Ok(())
    }
    fn to_number(&mut self) -> Result<i128, Violation> {
        let (o, m, w) = (self.o, self.mode, self.what());
        self.ctx.evals += 1;
        let n = ok("P16", || format!("number of {} of {}", m, w), if self.known { o.lower(m) } else { o.any_lower(m, false) })?;
        if n != m { return viol("P16/wrong-number", format!("{} {} becomes the number {}: {}", if self.known { "variant with the number" } else { "unknown number" }, m, n, w)); }
        if self.known {
            let n = ok("P16", || format!("number of {} of {}", m, w), o.any_lower(m, false))?;
            if n != m { return viol("P16/wrong-number", format!("wrapped variant with the number {} becomes the number {}: {}", m, n, w)); }
        }
        Ok(n)
    }
    fn store(&mut self, s: &Step) -> Res {
        let n = self.to_number()?;
        let o = self.o;
        let b = ok("P16", || format!("bytes of {}", n), o.to_bytes(n, s.g(0) & 1 == 1))?;
        self.order = s.g(0) & 1 == 1;
        self.ctx.hb(&b);
        self.ctx.ev(|| format!("mode {} stored as {}", n, hex(&b)));
        self.model_stored = native_bytes(n, o.backing_bytes(), self.order);
        if b != self.model_stored { return viol("P16/wrong-bytes-stored", format!("{} in {} bytes ({}) is {}", n, o.backing_bytes(), if self.order { "least significant first" } else { "most significant first" }, hex(&b))); }
        self.stored = Some(b);
        Ok(())
    }
    fn decay(&mut self, s: &Step) -> Res {
        let Some(b) = &mut self.stored else { return Ok(()) };
        let before = b.clone();
        damage(b, s.g(0), s.g(1), s.g(2), &before);
        if *b != before { self.ctx.count("fault:decayed_storage"); }
        self.model_stored = b.clone();
        self.ctx.ev(|| format!("storage decays to {}", hex(&self.model_stored)));
        Ok(())
    }
    /// From here on the mode is the variant or the unknown number that `n` stands for.
    fn lift(&mut self, n: i128, keep: bool, how: &str) -> Res {
        let o = self.o;
        let i = o.info();
        let declared = i.disc.contains(&n);
        let w = self.what();
        self.ctx.evals += 1;
        self.ctx.sig(mix(mix(hash_str(i.name), 9 + keep as u64), mix(declared as u64, (n < 0) as u64)));
        if keep {
            match ok("P16", || format!("{} {} into {}", how, n, w), o.any_lift(n))? {
                None => return viol("P16/unknown-number-lost", format!("{} {}: the catch-all form refuses it: {}", how, n, w)),
                Some((d, m)) => {
                    if m != n { return viol("P16/number-changed", format!("{} {}: becomes {}: {}", how, n, m, w)); }
                    if d != declared { return viol("P16/misclassified", format!("{} {}: {} a declared variant: {}", how, n, if d { "taken for" } else { "not recognised as" }, w)); }
                    self.mode = n;
                    self.known = d;
                    if !d { self.ctx.count("probe:unknown_number_kept"); }
                }
            }
        } else {
            match ok("P16", || format!("{} {} into {}", how, n, w), o.lift(n))? {
                None if declared => return viol("P16/number-refused", format!("{} {}: a declared variant is refused: {}", how, n, w)),
                Some(m) if m != n => return viol("P16/number-taken-for-another", format!("{} {}: taken for variant {}: {}", how, n, m, w)),
                None => self.ctx.count("probe:number_refused"),
                Some(_) => { self.mode = n; self.known = true; self.ctx.count("probe:mode_set_by_number"); }
            }
        }
        let (m, k) = (self.mode, self.known);
        self.ctx.ev(|| format!("{} {}: mode now {}{}", how, n, m, if k { "" } else { " (unknown)" }));
        self.ctx.h(m as u64);
        Ok(())
    }
    fn restore(&mut self, s: &Step) -> Res {
        let Some(b) = self.stored.clone() else { return Ok(()) };
        let o = self.o;
        let n = ok("P16", || format!("number of {}", hex(&b)), o.from_bytes(&b, self.order))?;
        let want = native_of(&b, self.order, o.fits(-1));
        if n != want { return viol("P16/wrong-number-restored", format!("{} restores to {} instead of {}", hex(&b), n, want)); }
        self.ctx.count("fault:restart");
        self.lift(n, s.g(0) & 1 == 1, "after a restart, the stored number")
    }
    fn menu(&mut self, s: &Step) -> Res {
        let (o, w) = (self.o, self.what());
        self.ctx.evals += 1;
        let l: Vec<i128> = match s.g(0) % 3 {
            0 => ok("P16", || format!("listing {}", w), o.list(false))?,
            1 => ok("P16", || format!("listing {}", w), o.list(true))?,
            _ => { let l = ok("P16", || format!("listing {}", w), o.any_list())?;
                if let Some(x) = l.iter().find(|x| !x.0) { return viol("P16/listing", format!("the list of variants contains the unknown number {}: {}", x.1, w)); }
                l.into_iter().map(|x| x.1).collect() }
        };
        let mut a = l.clone(); a.sort();
        let mut b = o.info().disc.to_vec(); b.sort();
        self.ctx.ev(|| format!("menu: {:?}", l));
        if a != b { return viol("P16/listing", format!("the list of variants is {:?}: {}", l, w)); }
        if l != o.info().disc { return viol("P16/listing-order", format!("the variants are listed as {:?}, not in the order of their declaration: {}", l, w)); }
        // the operator picks an entry of the menu
        let k = (s.g(1) as usize) % l.len();
        self.mode = l[k];
        self.known = true;
        Ok(())
    }
    fn compare(&mut self, s: &Step) -> Res {
        let (o, w) = (self.o, self.what());
        let a = self.mode;
        let b = self.number(s.g(0), s.g(1));
        self.ctx.evals += 1;
        let r = ok("P16", || format!("comparing {} and {} of {}", a, b, w), o.any_eq(a, b, s.g(2)))?;
        self.ctx.ev(|| format!("compare {} with {} (forms {}): {}", a, b, s.g(2) & 3, r));
        if r != (a == b) { return viol("P16/equality", format!("{} and {} {} equal: {}", a, b, if r { "compare" } else { "do not compare" }, w)); }
        if self.known {
            let (d, n) = ok("P16", || "wrapping".into(), o.any_of(a, s.g(2) & 4 == 4))?;
            if !d || n != a { return viol("P16/wrapping", format!("variant {} wrapped becomes {} {}: {}", a, if d { "variant" } else { "unknown number" }, n, w)); }
        }
        Ok(())
    }
    fn gateway(&mut self, s: &Step) -> Res {
        // the number travels as bytes to a gateway that keeps what it does not know, which forwards it in its own order
        let o = self.o;
        let n = self.number(s.g(1), s.g(2));
        let w = self.what();
        let l1 = s.g(0) & 1 == 1;
        let l2 = s.g(0) & 2 == 2;
        let p = |x: Lib<Vec<u8>>| ok("P16", || "bytes".into(), x);
        let b = p(o.to_bytes(n, l1))?;
        let m = ok("P16", || "number".into(), o.from_bytes(&b, l1))?;
        self.lift(m, true, "gateway gets")?;
        let f = ok("P16", || "number".into(), o.any_lower(self.mode, s.g(0) & 4 == 4))?;
        let b2 = p(o.to_bytes(f, l2))?;
        let e = ok("P16", || "number".into(), o.from_bytes(&b2, l2))?;
        self.ctx.count("probe:gateway");
        if e != n { return viol("P16/number-changed-on-the-way", format!("{} sent through a gateway arrives as {}: {}", n, e, w)); }
        Ok(())
    }
}

pub fn native_bytes(n: i128, len: usize, lsb: bool) -> Vec<u8> { let b = (n as u64).to_be_bytes()[8 - len..].to_vec(); if lsb { b.into_iter().rev().collect() } else { b } }
pub fn native_of(b: &[u8], lsb: bool, signed: bool) -> i128 {
    let mut v = 0i128;
    for k in 0..b.len() { v = v << 8 | b[if lsb { b.len() - 1 - k } else { k }] as i128; }
    if signed && v >> (8 * b.len() - 1) & 1 == 1 { v - (1i128 << (8 * b.len())) } else { v }
}
fn damage(b: &mut [u8], kind: u64, x: u64, y: u64, prev: &[u8]) {
    let n = b.len();
    if n == 0 { return; }
    match kind % 8 {
        1 | 2 => b[(x / 8) as usize % n] ^= 1 << (x % 8),
        3 => for k in x as usize % n..n { b[k] = if y & 1 == 1 { 0xFF } else { 0 } },
        4 => { let c = x as usize % (n + 1); for k in 0..c { b[k] = prev.get(k).copied().unwrap_or(0); } } // torn: the first bytes are of the value before
        5 => { let c = x as usize % (n + 1); for k in c..n { b[k] = prev.get(k).copied().unwrap_or(0); } }
        6 => { let mut r = Rng::new(mix(x, y)); for z in b.iter_mut() { *z = r.u64() as u8; } }
        7 => b[x as usize % n] = y as u8,
        _ => {}
    }
}

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn to_signed(raw: u64, w: u32, signed: bool) -> i128 {
    let r = if w >= 64 { raw } else { raw & ((1 << w) - 1) };
    if signed && r >> (w - 1) & 1 == 1 { r as i128 - (1i128 << w) } else { r as i128 }
}

/// P17: one number wandering from node to node.
fn wander(plan: &Plan, ctx: &mut Ctx) -> Res {
    let t = INTS[(plan.c(0) % INTS.len() as u64) as usize];
    let (w, nb, len, signed) = (t.width(), t.native_bits(), t.nbytes(), t.signed());
    let name = t.name();
    let mut v = to_signed(plan.c(1), w, signed);
    let mut prev: Vec<Vec<u8>> = vec![vec![]; 8];
    for s in &plan.steps {
        ctx.evals += 1;
        match s.op {
            LOAD => {
                let raw = s.g(0);
                let r = ok("P17", || format!("{} from {}", name, raw), t.convert(raw, s.g(1)))?;
                v = to_signed(raw, w, signed);
                if r.v != v || r.deref != v || r.into != v { return viol("P17/wrong-value", format!("{} from native {:#x} holds {}, shows {} and converts into {} instead of {}", name, raw, r.v, r.deref, r.into, v)); }
                let (d, x) = ok("P17", || format!("text of {} {}", name, v), t.text(raw))?;
                if d != v.to_string() || x != v.to_string() { return viol("P17/wrong-text", format!("{} with the value {} prints as {:?} and {:?}", name, v, d, x)); }
                ctx.ev(|| format!("{} loaded with {}", name, v));
            }
            RAWHOP => {
                // the native number, sent in one order of the two, received in the same
                let nat = to_signed(s.g(3), nb, signed);
                let lsb = s.g(0) & 1 == 1;
                let mut b = ok("P17", || format!("bytes of {}", nat), t.native_out(s.g(3), lsb))?;
                let want = native_bytes(nat, nb as usize / 8, lsb);
                let order = if lsb { "least significant byte first" } else { "most significant byte first" };
                if b != want { return viol("P17/wrong-native-bytes", format!("{} as {} bytes, {}: {} instead of {}", nat, b.len(), order, hex(&b), hex(&want))); }
                let p = prev[6 + lsb as usize].clone();
                let before = b.clone();
                damage(&mut b, s.g(1), s.g(2), s.g(4), &p);
                prev[6 + lsb as usize] = before.clone();
                if b != before { ctx.count(if s.g(1) % 8 == 4 || s.g(1) % 8 == 5 { "fault:torn_read" } else { "fault:damaged_bytes" }); }
                let got = ok("P17", || format!("number of {}", hex(&b)), t.native_back(&b, lsb))?;
                let want = native_of(&b, lsb, signed);
                ctx.sig(mix(mix(nb as u64, signed as u64), mix(lsb as u64, (b != before) as u64)));
                ctx.ev(|| format!("native {} travels as {} ({}), read as {}", nat, hex(&b), order, got));
                ctx.h(got as u64);
                if got != want { return viol("P17/wrong-native-number", format!("{} received {}: {} instead of {}", hex(&b), order, got, want)); }
            }
            _ => {
                let way = s.g(0) % 6;
                let how = ["MSB array", "LSB array", "MSB slice", "LSB slice", "MSB bytes", "LSB bytes"][way as usize];
                let b = ok("P17", || format!("{} with the value {} as {}", name, v, how), t.emit(v as u64, way))?;
                let Ok(mut b) = b else { return viol("P17/refused", format!("{} with the value {} as {}: {:?}", name, v, how, b)) };
                // the bits that carry the value, and where
                let bit = |b: &[u8], k: u32| -> bool { // k-th bit of the value, 0 = least significant
                    match way {
                        0 | 2 | 4 => get_bit(b, len as u32 * 8 - 1 - k),
                        5 => b[(k / 8) as usize] >> (k % 8) & 1 == 1,
                        _ => { let spare = len as u32 * 8 - w; (0..w).find(|x| wire_to_value_bit(w, true, *x) == k).map(|x| get_bit(b, spare + x)).unwrap() }
                    }
                };
                let read = |b: &[u8]| { let mut r = 0u64; for k in 0..w { if bit(b, k) { r |= 1 << k; } } to_signed(r, w, signed) };
                if read(&b) != v { return viol("P17/wrong-bytes", format!("{} with the value {} as {} is {}, which spells {}", name, v, how, hex(&b), read(&b))); }
                let before = b.clone();
                damage(&mut b, s.g(1), s.g(2), s.g(3), &prev[way as usize].clone());
                prev[way as usize] = before.clone();
                if b != before { ctx.count(if s.g(1) % 8 == 4 || s.g(1) % 8 == 5 { "fault:torn_read" } else { "fault:damaged_bytes" }); }
                let got = match ok("P17", || format!("{} from {} ({})", name, hex(&b), how), t.unpack(&b, way))? { Ok(x) => x, Err(e) => return viol("P17/refused", format!("{} from {} ({}): {:?}", name, hex(&b), how, e)) };
                let want = read(&b);
                ctx.sig(mix(mix(hash_str(&name), way), mix((b != before) as u64, (want < 0) as u64)));
                ctx.ev(|| format!("{} travels as {} {}{}, read as {}", name, how, hex(&b), if b != before { " (damaged)" } else { "" }, got.v));
                ctx.h(got.v as u64);
                if got.v != want { return viol("P17/wrong-number", format!("{} received as {} {}: {} instead of {}", name, how, hex(&b), got.v, want)); }
                v = got.v;
            }
        }
    }
    ctx.sim_ns += plan.steps.len() as u64 * 1_000_000;
    Ok(())
}

impl Scenario for Console {
    fn id(&self) -> &'static str { match self.0 { Focus::P16 => "P16", Focus::P17 => "P17" } }
    fn op_names(&self) -> &'static [&'static str] { &["name(variant,way,damage..)", "report(form,damage..)", "store(order)", "decay(kind..)", "restart(keep unknown)", "menu(way,pick)", "number(kind,a,keep unknown)", "compare(kind,a,forms)", "gateway(orders,kind,a)", "load(raw,way)", "hop(form,damage..)", "native hop(order,damage,a,raw,b)"] }
    fn budget(&self, th: bool) -> u64 { match self.0 { Focus::P16 => if th { 3_000_000 } else { 200_000 }, _ => if th { 5_000_000 } else { 300_000 } } }
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]) {
        match self.0 {
            Focus::P16 => (&["derived PrimitiveEnum conversions, names and listings", "EnumCatchAll", "IntegerAsBytes"], &["text line (damage)", "storage (decay)", "restarts", "operator, device and gateway nodes"]),
            _ => (&["IntegerAsBytes", "SizedInteger byte conversions", "MsbInteger and LsbInteger"], &["links (damage, torn reads)", "nodes of either byte order"]),
        }
    }
    fn rule(&self) -> &'static str { match self.0 {
        Focus::P16 => "a run draws an enum and a history of names sent, reported and damaged on the way, numbers sent, stored, decayed and restored, menus, comparisons and trips through gateways; counted as distinct: (enum, way, declared or not, accepted or not) tuples",
        _ => "a run draws an integer type and a path of hops in any of six byte forms and of native numbers in either order, with damage and torn reads; counted as distinct: (type, form, damaged or not, sign) tuples" } }
    fn must_reach(&self) -> &'static [&'static str] { match self.0 {
        Focus::P16 => &["fault:damaged_text", "fault:decayed_storage", "fault:restart", "probe:name_round_trip", "probe:unknown_number_kept", "probe:number_refused", "probe:mode_set_by_name", "probe:gateway", "probe:name_refused"],
        _ => &["fault:damaged_bytes", "fault:torn_read"] } }
    fn gen(&self, r: &mut Rng) -> Plan {
        if self.0 == Focus::P17 {
            let w = 1 + r.below(64) as u32;
            let mut p = Plan { cfg: vec![r.below(INTS.len() as u64), r.pattern(w)], steps: vec![] };
            for _ in 0..4 + r.below(12) {
                let d = if r.chance(1, 2) { 0 } else { 1 + r.below(7) };
                let bits = 64.min(8 << r.below(4)) as u32;
                match r.below(6) {
                    0 => p.push(LOAD, vec![r.pattern(bits), r.below(3)]),
                    1 | 2 => p.push(RAWHOP, vec![r.below(2), d, r.below(64), r.pattern(bits), r.below(256)]),
                    _ => p.push(HOP, vec![r.below(6), d, r.below(64), r.below(256)]),
                }
            }
            return p;
        }
        let mut p = Plan { cfg: vec![r.below(zoo::enums().len() as u64), r.below(64)], steps: vec![] };
        for _ in 0..6 + r.below(16) {
            let d = if r.chance(2, 5) { 0 } else { 1 + r.below(GARBLES - 1) };
            let ab = [r.below(40), r.below(256)];
            match r.below(14) {
                0..=3 => p.push(NAME, vec![r.below(64), r.below(4), d, ab[0], ab[1]]),
                4 | 5 => p.push(REPORT, vec![r.below(12), if r.chance(1, 2) { 0 } else { d }, ab[0], ab[1]]),
                6 => p.push(STORE, vec![r.below(2)]),
                7 => p.push(DECAY, vec![r.below(8), r.below(64), r.below(256)]),
                8 => p.push(RESTORE, vec![r.below(2)]),
                9 => p.push(MENU, vec![r.below(3), r.below(64)]),
                10 | 11 => p.push(NUMBER, vec![r.below(8), r.pattern(64), r.below(2)]),
                12 => p.push(COMPARE, vec![r.below(8), r.pattern(64), r.below(8)]),
                _ => p.push(GATEWAY, vec![r.below(8), r.below(8), r.pattern(64)]),
            }
        }
        p
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> Res {
        if self.0 == Focus::P17 { return wander(plan, ctx); }
        let all = zoo::enums();
        let o = all[(plan.c(0) % all.len() as u64) as usize];
        let mut w = World { o, mode: 0, known: true, stored: None, model_stored: vec![], order: false, ctx };
        w.mode = w.variant(plan.c(1));
        for s in &plan.steps {
            match s.op {
                NAME => w.name(s)?,
                REPORT => w.report(s)?,
                STORE => w.store(s)?,
                DECAY => w.decay(s)?,
                RESTORE => w.restore(s)?,
                MENU => w.menu(s)?,
                NUMBER => { let n = w.number(s.g(0), s.g(1)); w.lift(n, s.g(2) & 1 == 1, "operator sends")? }
                COMPARE => w.compare(s)?,
                _ => w.gateway(s)?,
            }
        }
        w.ctx.sim_ns += plan.steps.len() as u64 * 1_000_000;
        Ok(())
    }
}
