//! Simulation framework: plans, traces, forked workers, minimisation, replay files.
use simcore::rng::{mix, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------------------
// Plans: a run is a pure function of its plan (and of the code); a plan is a pure function of its seed.

#[derive(Clone, Debug, PartialEq)]
pub struct Step { pub op: u8, pub a: Vec<u64> }
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Plan { pub cfg: Vec<u64>, pub steps: Vec<Step> }
impl Plan {
    pub fn push(&mut self, op: u8, a: Vec<u64>) { self.steps.push(Step { op, a }) }
    pub fn c(&self, i: usize) -> u64 { self.cfg.get(i).copied().unwrap_or(0) }
    pub fn size(&self) -> usize { self.steps.iter().map(|s| 1 + s.a.len()).sum::<usize>() }
}
impl Step { pub fn g(&self, i: usize) -> u64 { self.a.get(i).copied().unwrap_or(0) } }

#[derive(Clone, Debug)]
pub struct Violation { pub class: String, pub msg: String }
pub type Res = Result<(), Violation>;
pub fn viol<T>(class: impl Into<String>, msg: impl Into<String>) -> Result<T, Violation> { Err(Violation { class: class.into(), msg: msg.into() }) }

/// What a run reports: counters, a trace digest, distinctness signatures, optionally a readable log.
#[derive(Default)]
pub struct Ctx {
    pub counts: BTreeMap<String, u64>,
    pub sigs: BTreeSet<u64>,
    pub digest: u64,
    pub sim_ns: u64,
    pub events: u64,
    /// library operations judged by an oracle
    pub evals: u64,
    pub log: Option<Vec<String>>,
}
impl Ctx {
    pub fn count(&mut self, k: &str) { self.add(k, 1) }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counts.get_mut(k) { *v += n } else { self.counts.insert(k.to_string(), n); }
    }
    pub fn h(&mut self, x: u64) { self.digest = mix(self.digest, x) }
    pub fn hb(&mut self, b: &[u8]) {
        let mut h = 0xcbf29ce484222325u64;
        for x in b { h = (h ^ *x as u64).wrapping_mul(0x100000001b3) }
        self.h(h)
    }
    pub fn sig(&mut self, x: u64) { self.sigs.insert(x); }
    pub fn ev(&mut self, f: impl FnOnce() -> String) {
        self.events += 1;
        if let Some(l) = &mut self.log { let n = l.len(); l.push(format!("{:4} {}", n, f())); }
    }
}

pub trait Scenario: Sync {
    fn id(&self) -> &'static str;
    fn op_names(&self) -> &'static [&'static str];
    fn gen(&self, rng: &mut Rng) -> Plan;
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> Res;
    /// number of runs per tier
    fn budget(&self, thorough: bool) -> u64;
    /// what ran for real and what was simulated
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]);
    fn rule(&self) -> &'static str;
    /// Counters that must not be zero after a full quick run, otherwise the workload lost its teeth.
    fn must_reach(&self) -> &'static [&'static str] { &[] }
    fn describe(&self, s: &Step) -> String {
        let n = self.op_names().get(s.op as usize).copied().unwrap_or("?");
        format!("{} {}", n, s.a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "))
    }
    /// hang threshold, seconds
    fn patience(&self) -> u64 { 60 }
}

pub fn zoo_seed() -> u64 { env!("PSSIM_ZOO_SEED").parse().unwrap() }
pub fn run_seed(base: u64, prop: &str, i: u64) -> u64 { mix(mix(base, simcore::rng::hash_str(prop)), i) }

// ---------------------------------------------------------------------------------------------------
// Process plumbing

mod sys {
    extern "C" {
        pub fn fork() -> i32;
        pub fn pipe(fds: *mut i32) -> i32;
        pub fn close(fd: i32) -> i32;
        pub fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
        pub fn kill(pid: i32, sig: i32) -> i32;
        pub fn _exit(code: i32) -> !;
        pub fn mmap(a: *mut u8, l: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        pub fn poll(f: *mut PollFd, n: u64, t: i32) -> i32;
        pub fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
        pub fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    }
    #[repr(C)] pub struct PollFd { pub fd: i32, pub ev: i16, pub rev: i16 }
}
const SLOTS: usize = 64;
struct Beats(*mut u64);
impl Beats {
    fn new() -> Self {
        let p = unsafe { sys::mmap(std::ptr::null_mut(), SLOTS * 64, 3, 0x21, -1, 0) };
        assert!(p as isize != -1, "mmap");
        Beats(p as *mut u64)
    }
    fn set(&self, slot: usize, v: u64) { unsafe { std::ptr::write_volatile(self.0.add(slot * 8), v) } }
    fn get(&self, slot: usize) -> u64 { unsafe { std::ptr::read_volatile(self.0.add(slot * 8)) } }
}

#[derive(Debug, Clone)]
pub enum End { Done(Vec<u8>), Died(String), Hung }

struct Child { pid: i32, fd: i32, out: Vec<u8>, slot: usize, beat: u64, since: Instant, tag: u64 }

fn spawn(beats: &Beats, slot: usize, tag: u64, f: &dyn Fn(&dyn Fn(u64)) -> Vec<u8>) -> Child {
    let mut fds = [0i32; 2];
    beats.set(slot, 0);
    unsafe {
        assert_eq!(sys::pipe(fds.as_mut_ptr()), 0);
        let pid = sys::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            sys::close(fds[0]);
            sys::prctl(1, 9, 0, 0, 0); // die with the parent
            let lim = [6u64 << 30, 6u64 << 30];
            sys::setrlimit(9, &lim); // RLIMIT_AS: runaway memory becomes an abort of this worker only
            let nocore = [0u64, 0];
            sys::setrlimit(4, &nocore);
            let beat = |v: u64| beats.set(slot, v + 1);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&beat)));
            let code = match r {
                Ok(b) => {
                    use std::os::fd::FromRawFd;
                    let mut w = std::fs::File::from_raw_fd(fds[1]);
                    if w.write_all(&b).is_ok() { 0 } else { 3 }
                }
                Err(_) => 7,
            };
            sys::_exit(code);
        }
        sys::close(fds[1]);
        Child { pid, fd: fds[0], out: vec![], slot, beat: 0, since: Instant::now(), tag }
    }
}

/// Waits until one of the children ends (or makes no progress for too long).
fn wait_any(beats: &Beats, ch: &mut Vec<Child>, patience: Duration) -> (Child, End) {
    loop {
        let mut pf: Vec<sys::PollFd> = ch.iter().map(|c| sys::PollFd { fd: c.fd, ev: 1, rev: 0 }).collect();
        unsafe { sys::poll(pf.as_mut_ptr(), pf.len() as u64, 250) };
        for i in 0..ch.len() {
            if pf[i].rev != 0 {
                use std::os::fd::FromRawFd;
                let mut buf = [0u8; 65536];
                let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(ch[i].fd) });
                let n = f.read(&mut buf).unwrap_or(0);
                if n > 0 { ch[i].out.extend_from_slice(&buf[..n]); continue; }
                let mut c = ch.swap_remove(i);
                unsafe { sys::close(c.fd) };
                let mut st = 0i32;
                unsafe { sys::waitpid(c.pid, &mut st, 0) };
                c.beat = beats.get(c.slot);
                let end = if st == 0 { End::Done(std::mem::take(&mut c.out)) }
                    else if st & 0x7f == 0 {
                        let code = st >> 8;
                        if code == 7 { End::Died("harness-panic".into()) } else { End::Died(format!("exit{}", code)) }
                    } else { End::Died(format!("signal{}", st & 0x7f)) };
                return (c, end);
            }
        }
        for i in 0..ch.len() {
            let b = beats.get(ch[i].slot);
            if b != ch[i].beat { ch[i].beat = b; ch[i].since = Instant::now(); }
            else if ch[i].since.elapsed() > patience {
                let c = ch.swap_remove(i);
                unsafe {
                    sys::kill(c.pid, 9);
                    let mut st = 0;
                    sys::waitpid(c.pid, &mut st, 0);
                    sys::close(c.fd);
                }
                return (c, End::Hung);
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------------
// Execution of plans in a forked child

fn enc(out: &mut Vec<u8>, ctx: &Ctx, v: Option<(u64, &Violation)>, digests: &[u64]) {
    let mut s = String::new();
    for (k, n) in &ctx.counts { s += &format!("c\t{}\t{}\n", k, n); }
    s += &format!("t\t{}\t{}\t{}\n", ctx.sim_ns, ctx.events, ctx.evals);
    for x in &ctx.sigs { s += &format!("s\t{:x}\n", x); }
    for d in digests { s += &format!("d\t{:x}\n", d); }
    if let Some(l) = &ctx.log { for x in l { s += &format!("l\t{}\n", x.replace('\n', "\\n")); } }
    if let Some((i, v)) = v { s += &format!("v\t{}\t{}\t{}\n", i, v.class.replace(['\t', '\n'], " "), v.msg.replace(['\t', '\n'], " ")); }
    out.extend_from_slice(s.as_bytes());
}
#[derive(Default)]
struct Report { ctx: Ctx, v: Option<(u64, Violation)>, digests: Vec<u64> }
fn dec(b: &[u8]) -> Report {
    let mut r = Report::default();
    let mut log = vec![];
    for line in String::from_utf8_lossy(b).lines() {
        let p: Vec<&str> = line.split('\t').collect();
        match p[0] {
            "c" => r.ctx.add(p[1], p[2].parse().unwrap()),
            "t" => { r.ctx.sim_ns = p[1].parse().unwrap(); r.ctx.events = p[2].parse().unwrap(); r.ctx.evals = p[3].parse().unwrap(); }
            "s" => r.ctx.sig(u64::from_str_radix(p[1], 16).unwrap()),
            "d" => r.digests.push(u64::from_str_radix(p[1], 16).unwrap()),
            "l" => log.push(p[1..].join("\t")),
            "v" => r.v = Some((p[1].parse().unwrap(), Violation { class: p[2].into(), msg: p[3].into() })),
            _ => {}
        }
    }
    r.ctx.log = Some(log);
    r
}

pub struct Outcome { pub v: Option<Violation>, pub log: Vec<String>, pub digests: Vec<u64>, pub harness_error: bool }

/// Executes plans one after another in a fresh forked process.
pub fn exec_fresh(sc: &dyn Scenario, plans: &[Plan], patience: u64, log: bool) -> Outcome {
    let beats = Beats::new();
    let c = spawn(&beats, 0, 0, &|beat| {
        let mut digests = vec![];
        let mut ctx = Ctx { log: if log { Some(vec![]) } else { None }, ..Default::default() };
        for (i, p) in plans.iter().enumerate() {
            beat(i as u64);
            ctx.digest = 0;
            if log && plans.len() > 1 { ctx.ev(|| format!("--- run {}", i)); }
            let r = sc.exec(p, &mut ctx);
            digests.push(ctx.digest);
            if let Err(v) = r {
                ctx.ev(|| format!("VIOLATION {}: {}", v.class, v.msg));
                let mut o = vec![];
                enc(&mut o, &ctx, Some((i as u64, &v)), &digests);
                return o;
            }
        }
        let mut o = vec![];
        enc(&mut o, &ctx, None, &digests);
        o
    });
    let mut cs = vec![c];
    let (_, end) = wait_any(&beats, &mut cs, Duration::from_secs(patience));
    let id = sc.id();
    match end {
        End::Done(b) => { let r = dec(&b); Outcome { v: r.v.map(|x| x.1), log: r.ctx.log.unwrap_or_default(), digests: r.digests, harness_error: false } }
        End::Died(why) if why == "harness-panic" => Outcome { v: None, log: vec![why], digests: vec![], harness_error: true },
        End::Died(why) => Outcome { v: Some(crash(id, &why)), log: vec![], digests: vec![], harness_error: false },
        End::Hung => Outcome { v: Some(hang(id)), log: vec![], digests: vec![], harness_error: false },
    }
}
fn crash(id: &str, why: &str) -> Violation { Violation { class: format!("{}/process-died-{}", id, why), msg: format!("the simulated process died abnormally ({})", why) } }
fn hang(id: &str) -> Violation { Violation { class: format!("{}/no-progress", id), msg: "an operation made no progress (endless loop or deadlock)".into() } }

// ---------------------------------------------------------------------------------------------------
// Minimisation

pub struct Shrunk { pub plans: Vec<Plan>, pub v: Violation, pub execs: u64 }

pub fn minimise(sc: &dyn Scenario, plans: Vec<Plan>, v: Violation, budget: Duration) -> Shrunk {
    let t0 = Instant::now();
    let patience = if v.class.ends_with("/no-progress") { 5 } else { 20 };
    let mut best = Shrunk { plans, v, execs: 0 };
    let class = best.v.class.clone();
    let attempt = |cand: Vec<Plan>, best: &mut Shrunk| -> bool {
        if t0.elapsed() > budget { return false; }
        best.execs += 1;
        let o = exec_fresh(sc, &cand, patience, false);
        if let Some(nv) = o.v { if nv.class == class { best.plans = cand; best.v = nv; return true; } }
        false
    };
    // whole runs first
    let mut i = 0;
    while best.plans.len() > 1 && i < best.plans.len() - 1 {
        // halves, then single runs
        let mut c = best.plans.clone();
        let k = ((c.len() - 1 - i) / 2).max(1);
        c.drain(i..i + k);
        if !attempt(c, &mut best) {
            if k == 1 { i += 1; continue; }
            let mut c = best.plans.clone();
            c.remove(i);
            if !attempt(c, &mut best) { i += 1; }
        }
    }
    for _round in 0..3 {
        let before: usize = best.plans.iter().map(|p| p.size()).sum();
        for pi in 0..best.plans.len() {
            // steps: delta debugging
            let mut n = best.plans[pi].steps.len();
            let mut chunk = n.max(1);
            while chunk >= 1 {
                let mut at = 0;
                while at < n {
                    let mut c = best.plans.clone();
                    let e = (at + chunk).min(n);
                    c[pi].steps.drain(at..e);
                    if attempt(c, &mut best) { n = best.plans[pi].steps.len(); } else { at += chunk; }
                }
                if chunk == 1 { break; }
                chunk = chunk.div_ceil(2);
            }
            // arguments and configuration: towards zero
            for si in 0..best.plans[pi].steps.len() {
                let mut len = best.plans[pi].steps[si].a.len();
                while len > 3 {
                    let mut c = best.plans.clone();
                    c[pi].steps[si].a.truncate(len - 1);
                    if !attempt(c, &mut best) { break; }
                    len -= 1;
                }
                for ai in 0..len { shrink_num(&mut best, pi, &|p| &mut p.steps[si].a[ai], &attempt); }
            }
            for ci in 0..best.plans[pi].cfg.len() { shrink_num(&mut best, pi, &|p| &mut p.cfg[ci], &attempt); }
        }
        if best.plans.iter().map(|p| p.size()).sum::<usize>() >= before { break; }
    }
    best
}
fn shrink_num(best: &mut Shrunk, pi: usize, at: &dyn Fn(&mut Plan) -> &mut u64, attempt: &dyn Fn(Vec<Plan>, &mut Shrunk) -> bool) {
    let mut cur = *at(&mut best.plans[pi].clone());
    let set = |best: &mut Shrunk, x: u64| { let mut c = best.plans.clone(); *at(&mut c[pi]) = x; attempt(c, best) };
    if cur == 0 { return; }
    if set(best, 0) { return; }
    if cur > 1 && set(best, 1) { return; }
    // keep few bits
    if cur > 0xFFFF { for m in [0xFFu64, 0xFFFF, 0xFFFF_FFFF] { if cur & !m != 0 && set(best, cur & m) { cur &= m; break; } } }
    let mut d = cur / 2;
    let mut tries = 0;
    while d > 0 && tries < 12 { tries += 1; if set(best, cur - d) { cur -= d; d = d.min(cur / 2); } else { d /= 2; } }
}

// ---------------------------------------------------------------------------------------------------
// Replay files

pub struct Replay { pub prop: String, pub zoo: u64, pub class: String, pub msg: String, pub plans: Vec<Plan>, pub seed: String }

pub fn write_replay(path: &str, sc: &dyn Scenario, r: &Replay, log: &[String]) {
    let mut s = String::from("pssim-replay 1\n");
    s += &format!("property {}\nzoo_seed {}\nprofile {}\nfound_with {}\nclass {}\nmessage {}\n", r.prop, r.zoo, if cfg!(debug_assertions) { "debug" } else { "release" }, r.seed, r.class, r.msg);
    for p in &r.plans {
        s += &format!("run\ncfg {}\n", p.cfg.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        for st in &p.steps { s += &format!("# {}\nstep {} {}\n", sc.describe(st), st.op, st.a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")); }
        s += "end\n";
    }
    s += "# ---- trace of the minimised execution ----\n";
    for l in log.iter().take(400) { s += &format!("# {}\n", l); }
    let _ = std::fs::create_dir_all(std::path::Path::new(path).parent().unwrap());
    std::fs::write(path, s).expect("write replay file");
}
pub fn read_replay(path: &str) -> Replay {
    let t = std::fs::read_to_string(path).expect("replay file");
    let mut r = Replay { prop: String::new(), zoo: 1, class: String::new(), msg: String::new(), plans: vec![], seed: String::new() };
    for l in t.lines() {
        if l.starts_with('#') { continue; }
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        let nums = || v.split_whitespace().map(|x| x.parse::<u64>().expect("number")).collect::<Vec<_>>();
        match k {
            "property" => r.prop = v.into(),
            "zoo_seed" => r.zoo = v.parse().unwrap(),
            "found_with" => r.seed = v.into(),
            "class" => r.class = v.into(),
            "message" => r.msg = v.into(),
            "run" => r.plans.push(Plan::default()),
            "cfg" => r.plans.last_mut().unwrap().cfg = nums(),
            "step" => { let n = nums(); r.plans.last_mut().unwrap().steps.push(Step { op: n[0] as u8, a: n[1..].to_vec() }) }
            _ => {}
        }
    }
    r
}

// ---------------------------------------------------------------------------------------------------
// Campaign

pub struct Campaign {
    pub runs: u64, pub ctx: Ctx, pub digest: u64, pub wall: f64, pub procs: u64,
    pub violation: Option<(Vec<Plan>, Violation, u64, bool)>, pub harness_error: bool, pub capped: bool,
}

pub fn campaign(sc: &dyn Scenario, seed: u64, runs: u64, workers: usize, batch: u64, cap: Duration) -> Campaign {
    let t0 = Instant::now();
    let beats = Beats::new();
    let nb = runs.div_ceil(batch);
    let mut next = 0u64;
    let mut live: Vec<Child> = vec![];
    let mut free: Vec<usize> = (0..workers).collect();
    let mut reports: BTreeMap<u64, Report> = BTreeMap::new();
    let mut bad: BTreeMap<u64, (u64, Violation)> = BTreeMap::new();
    let mut out = Campaign { runs: 0, ctx: Ctx::default(), digest: 0, wall: 0.0, procs: 0, violation: None, harness_error: false, capped: false };
    let id = sc.id();
    loop {
        while !free.is_empty() && next < nb && bad.is_empty() && !out.harness_error {
            if t0.elapsed() > cap { out.capped = true; break; }
            let slot = free.pop().unwrap();
            let b = next;
            next += 1;
            out.procs += 1;
            live.push(spawn(&beats, slot, b, &|beat| {
                let mut ctx = Ctx::default();
                let mut digests = vec![];
                let mut v = None;
                for i in b * batch..((b + 1) * batch).min(runs) {
                    beat(i - b * batch);
                    let mut rng = Rng::new(run_seed(seed, id, i));
                    let plan = sc.gen(&mut rng);
                    ctx.digest = 0;
                    let r = sc.exec(&plan, &mut ctx);
                    digests.push(ctx.digest);
                    if let Err(e) = r { v = Some((i, e)); break; }
                }
                let mut o = vec![];
                enc(&mut o, &ctx, v.as_ref().map(|(i, v)| (*i, v)), &digests);
                o
            }));
        }
        if live.is_empty() { break; }
        let (c, end) = wait_any(&beats, &mut live, Duration::from_secs(sc.patience()));
        free.push(c.slot);
        let at = c.tag * batch + c.beat.saturating_sub(1);
        match end {
            End::Done(b) => {
                let r = dec(&b);
                if let Some(x) = &r.v { bad.insert(x.0, x.clone()); }
                reports.insert(c.tag, r);
            }
            End::Died(why) if why == "harness-panic" => { out.harness_error = true; eprintln!("harness error in run {}", at); }
            End::Died(why) => { bad.insert(at, (at, crash(id, &why))); }
            End::Hung => { bad.insert(at, (at, hang(id))); }
        }
    }
    for r in reports.values() {
        out.runs += r.digests.len() as u64;
        for (k, n) in &r.ctx.counts { out.ctx.add(k, *n); }
        for s in &r.ctx.sigs { out.ctx.sig(*s); }
        out.ctx.sim_ns += r.ctx.sim_ns;
        out.ctx.events += r.ctx.events;
        out.ctx.evals += r.ctx.evals;
        for d in &r.digests { out.digest = mix(out.digest, *d); }
    }
    out.wall = t0.elapsed().as_secs_f64();
    if let Some((_, (i, v))) = bad.into_iter().next() {
        let plan_of = |j: u64| { let mut rng = Rng::new(run_seed(seed, id, j)); sc.gen(&mut rng) };
        let solo = vec![plan_of(i)];
        let patience = if v.class.ends_with("/no-progress") { 15 } else { sc.patience() };
        let o = exec_fresh(sc, &solo, patience, false);
        let (plans, v, ok) = match o.v {
            Some(nv) => (solo, nv, true),
            None => {
                // depends on what earlier runs in the same process left behind
                let all: Vec<Plan> = (i / batch * batch..=i).map(plan_of).collect();
                let o = exec_fresh(sc, &all, patience, false);
                match o.v { Some(nv) => (all, nv, true), None => (all, v, false) }
            }
        };
        out.violation = Some((plans, v, i, ok));
    }
    out
}
