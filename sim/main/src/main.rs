#![allow(clippy::all)]
mod arq;
mod comp;
mod conc;
mod console;
mod findings;
mod fw;
mod ints;
mod log;
mod net;
mod peers;
mod render;
mod sched;
mod wide;
mod wire;
mod zoo;

use fw::*;
use std::time::Duration;

struct Counting;
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { if simcore::seam::on_alloc(l.size()) { return std::ptr::null_mut() } std::alloc::System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { simcore::seam::on_dealloc(l.size()); std::alloc::System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { if simcore::seam::on_alloc(l.size()) { return std::ptr::null_mut() } std::alloc::System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { if simcore::seam::on_alloc(n) { return std::ptr::null_mut() } simcore::seam::on_dealloc(l.size()); std::alloc::System.realloc(p, l, n) }
}
#[global_allocator]
static A: Counting = Counting;

fn scenario(id: &str) -> Option<Box<dyn Scenario>> {
    Some(match id {
        "P01" => Box::new(net::Net(net::Focus::P01)),
        "P02" => Box::new(net::Net(net::Focus::P02)),
        "P04" => Box::new(net::Net(net::Focus::P04)),
        "P05" => Box::new(net::Net(net::Focus::P05)),
        "P06" => Box::new(net::Net(net::Focus::P06)),
        "P03" => Box::new(comp::Comp(comp::Focus::P03)),
        "P07" => Box::new(comp::Comp(comp::Focus::P07)),
        "P08" => Box::new(comp::Comp(comp::Focus::P08)),
        "P09" => Box::new(comp::Comp(comp::Focus::P09)),
        "P10" => Box::new(comp::Comp(comp::Focus::P10)),
        "P11" => Box::new(render::Render),
        "P12" => Box::new(conc::Conc),
        "P13" => Box::new(log::Log),
        "P14" => Box::new(ints::Ints),
        "P15" => Box::new(arq::Arq),
        "P16" => Box::new(console::Console(console::Focus::P16)),
        "P17" => Box::new(console::Console(console::Focus::P17)),
        "P18" => Box::new(net::Net(net::Focus::P18)),
        _ => return None,
    })
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o + "\""
}
fn arg(name: &str) -> Option<String> { let a: Vec<String> = std::env::args().collect(); a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned()) }

fn main() {
    simcore::seam::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let code = match cmd {
        "check" => check(&a[2]),
        "replay" => replay(&a[2]),
        "selftest" => selftest(&a[2]),
        "zoo_seed" => { println!("{}", zoo_seed()); 0 }
        _ => { eprintln!("usage: pssim check ID [--tier quick|thorough] [--seed N] [--runs N] [--stats FILE] [--known FILE] | replay FILE | selftest ID"); 2 }
    };
    std::process::exit(code);
}

/// Findings listed in the file for a property: (id, description)
fn listed(file: &str, prop: &str) -> Vec<(String, String)> {
    std::fs::read_to_string(file).unwrap_or_default().lines().filter_map(|l| {
        let r = l.strip_prefix("finding: ")?;
        let mut p = None; let mut id = None; let mut rest = vec![];
        for w in r.split_whitespace() {
            if let Some(x) = w.strip_prefix("property=") { p = Some(x) } else if let Some(x) = w.strip_prefix("id=") { id = Some(x) } else { rest.push(w) }
        }
        if p? == prop { Some((id?.to_string(), rest.join(" "))) } else { None }
    }).collect()
}

fn check(id: &str) -> i32 {
    let Some(sc) = scenario(id) else { eprintln!("unknown property {}", id); return 2 };
    let thorough = arg("--tier").as_deref() == Some("thorough");
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let runs: u64 = arg("--runs").and_then(|s| s.parse().ok()).unwrap_or(sc.budget(thorough));
    let workers: usize = arg("--workers").and_then(|s| s.parse().ok()).unwrap_or(8);
    let cap: u64 = arg("--cap").and_then(|s| s.parse().ok()).unwrap_or(300);
    let replays = arg("--replays").unwrap_or_else(|| "/verif/replays".into());
    let known = listed(&arg("--known").unwrap_or_else(|| "/verif/known_findings.txt".into()), id);
    println!("pssim {} seed={} zoo_seed={} runs={} workers={}", id, seed, zoo_seed(), runs, workers);
    let c = campaign(&*sc, seed, runs, workers, 100, Duration::from_secs(cap));
    let mut code = 0;
    let mut violations = 0;
    let mut report = |plans: Vec<Plan>, v: Violation, from: String, log: &[String]| {
        let path = format!("{}/{}-{:08x}.replay", replays, id, simcore::rng::hash_str(&format!("{}{}", v.class, from)) as u32);
        write_replay(&path, &*sc, &Replay { prop: id.into(), zoo: zoo_seed(), class: v.class.clone(), msg: v.msg.clone(), plans, seed: from }, log);
        println!("  {}: {}", v.class, v.msg);
        println!("VIOLATION property={} replay={}", id, path);
    };
    if let Some((plans, v, i, ok)) = c.violation.clone() {
        violations += 1;
        code = 1;
        let from = format!("VERIF_SEED={} run={} run_seed={}", seed, i, run_seed(seed, id, i));
        println!("violation in run {} ({}): {}: {}", i, from, v.class, v.msg);
        if ok {
            let size0: usize = plans.iter().map(|p| p.size()).sum();
            let s = minimise(&*sc, plans, v, Duration::from_secs(90));
            println!("minimised from {} to {} in {} executions", size0, s.plans.iter().map(|p| p.size()).sum::<usize>(), s.execs);
            let o = exec_fresh(&*sc, &s.plans, 20, true);
            report(s.plans, s.v, from, &o.log);
        } else {
            println!("warning: the violation did not recur when the same plans were executed again");
            report(plans, v, from, &[]);
        }
    }
    for f in findings::of(id) {
        let is_listed = known.iter().find(|k| k.0 == f.id);
        match ((f.check)(), is_listed) {
            (findings::State::Present(m), Some(_)) => println!("KNOWN-FINDING: property={} {} {}", id, f.id, m),
            (findings::State::Absent, _) => println!("finding {} does not occur on this tree", f.id),
            (findings::State::Present(m), None) | (findings::State::Different(m), _) => {
                violations += 1;
                code = 1;
                report(vec![Plan { cfg: vec![u64::MAX], steps: vec![] }], Violation { class: format!("{}/finding-{}", id, f.id), msg: m }, "finding probe".into(), &[]);
            }
        }
    }
    if c.harness_error { eprintln!("harness error"); code = 2; }
    let missing: Vec<&str> = sc.must_reach().iter().copied().filter(|k| c.ctx.counts.get(*k).copied().unwrap_or(0) == 0).collect();
    if code == 0 && !missing.is_empty() { println!("note: never reached in this campaign: {:?}", missing); }
    // samples
    let mut samples = vec![];
    for i in 0..3u64.min(c.runs) {
        let p = { let mut r = simcore::rng::Rng::new(run_seed(seed, id, i)); sc.gen(&mut r) };
        let d: Vec<String> = p.steps.iter().take(12).map(|s| sc.describe(s)).collect();
        samples.push(format!("{{\"run\": {}, \"run_seed\": {}, \"cfg\": {}, \"steps\": [{}], \"more_steps\": {}}}", i, run_seed(seed, id, i), js(&format!("{:?}", p.cfg)), d.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "), p.steps.len().saturating_sub(12)));
    }
    let (real, stub) = sc.components();
    let list = |v: &[&str]| v.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ");
    let s = format!("{{\"property\": {}, \"zoo_seed\": {}, \"seed\": {}, \"runs\": {}, \"evals\": {}, \"wall\": {:.3}, \"processes\": {}, \"distinct\": {}, \"sigs_digest\": \"{:016x}\", \"trace_digest\": \"{:016x}\", \"sim_ns\": {}, \"events\": {}, \"counts\": {{{}}}, \"never_reached\": [{}], \"rule\": {}, \"samples\": [{}], \"real\": [{}], \"stub\": [{}], \"violations\": {}, \"capped\": {}}}\n",
        js(id), zoo_seed(), seed, c.runs, c.ctx.evals, c.wall, c.procs, c.ctx.sigs.len(), c.ctx.sigs.iter().fold(0u64, |a, b| a ^ b.wrapping_mul(0x9E3779B97F4A7C15)), c.digest, c.ctx.sim_ns, c.ctx.events,
        c.ctx.counts.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "), list(&missing), js(sc.rule()), samples.join(", "), list(real), list(stub), violations, c.capped);
    if let Some(p) = arg("--stats") { std::fs::write(&p, &s).expect("stats"); } else { print!("{}", s); }
    println!("{}: {} runs, {} distinct, {} events, {:.1}s, digest {:016x}", id, c.runs, c.ctx.sigs.len(), c.ctx.events, c.wall, c.digest);
    code
}

fn replay(path: &str) -> i32 {
    let r = read_replay(path);
    if r.zoo != zoo_seed() { eprintln!("this binary was built with zoo seed {}, the replay needs {}", zoo_seed(), r.zoo); return 2; }
    let Some(sc) = scenario(&r.prop) else { eprintln!("unknown property {}", r.prop); return 2 };
    if r.plans.len() == 1 && r.plans[0].cfg == [u64::MAX] {
        for f in findings::of(&r.prop) { if r.class.ends_with(f.id) { match (f.check)() {
            findings::State::Absent => {}
            findings::State::Present(m) | findings::State::Different(m) => { println!("  {}: {}", r.class, m); println!("VIOLATION property={} replay={}", r.prop, path); return 1; }
        } } }
        println!("no violation");
        return 0;
    }
    let o = exec_fresh(&*sc, &r.plans, 60, true);
    for l in &o.log { println!("{}", l); }
    for d in &o.digests { println!("trace digest {:016x}", d); }
    if o.harness_error { return 2; }
    match o.v {
        Some(v) => {
            println!("  {}: {}", v.class, v.msg);
            println!("{} the recorded violation", if v.class == r.class && v.msg == r.msg { "exactly" } else if v.class == r.class { "same class as" } else { "DIFFERENT from" });
            println!("VIOLATION property={} replay={}", r.prop, path);
            1
        }
        None => { println!("no violation"); 0 }
    }
}

/// Determinism: the same seeds, several processes, several worker counts and batch sizes, twice each.
fn selftest(id: &str) -> i32 {
    let Some(sc) = scenario(id) else { return 2 };
    let runs: u64 = arg("--runs").and_then(|s| s.parse().ok()).unwrap_or(1500);
    let mut bad = 0;
    for seed in 1..=3u64 {
        let mut seen = std::collections::BTreeMap::new();
        for (w, b) in [(1, 50), (8, 50), (8, 7), (3, 111), (8, 50)] {
            let c = campaign(&*sc, seed, runs, w, b, Duration::from_secs(600));
            *seen.entry((c.digest, c.ctx.sigs.len(), c.ctx.events, c.violation.is_some())).or_insert(0) += 1;
        }
        println!("{} seed {}: {:x?}", id, seed, seen);
        if seen.len() != 1 { bad += 1; }
    }
    if bad > 0 { println!("NOT DETERMINISTIC"); 2 } else { println!("{}: deterministic", id); 0 }
}
