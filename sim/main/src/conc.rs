//! P12: operations interleaved on several threads and nested in one another.
use crate::comp::{deliver, fill, kind_for, lens_of, run_op_nested, GUARD, KINDS};
use crate::fw::*;
use crate::render::Sink;
use crate::sched::{self, Schedule};
use crate::wire::*;
use crate::zoo;
use shapes::SHAPES;
use simcore::probe::{self, Arm, CONV, PACK, PANIC, SIZE, UNPACK};
use simcore::rng::{hash_str, mix, Rng};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

pub struct Conc;
const OP: u8 = 0; // id thread shape kind prior delta lens..
const ARM: u8 = 1; // op callback nth fault sticky
const ZOO: u8 = 2; // id thread entry container kind prior delta count hdr raws..
const NEST: u8 = 3; // parent child callback
const SWITCH: u8 = 4; // thread at(fraction) to
/// thread number of operations that only run nested in others
const INNER: u64 = 99;
const ONE: u64 = 1 << 20;

/// Everything an operation showed to its caller.
#[derive(Clone, PartialEq, Debug)]
struct Seen { result: String, buffer: Vec<u8>, calls: String }

thread_local! {
    static NEXT: Cell<Option<(*const Plan, usize)>> = const { Cell::new(None) };
    static INNER_SEEN: RefCell<Vec<(usize, Seen)>> = const { RefCell::new(vec![]) };
}
fn nested() {
    if let Some((p, k)) = NEXT.with(|n| n.take()) {
        let plan = unsafe { &*p };
        let s = run(plan, k, true);
        INNER_SEEN.with(|v| v.borrow_mut().push((k, s)));
    }
}

/// Runs operation `k` of the plan on this thread.
fn run(plan: &Plan, k: usize, nesting: bool) -> Seen {
    let s = &plan.steps[k];
    // the ledger and the script of whatever is running outside
    let saved = probe::with(|x| std::mem::take(x));
    let next = NEXT.with(|n| n.take());
    let child = if nesting { plan.steps.iter().find(|n| n.op == NEST && n.g(0) == s.g(0)).and_then(|n| plan.steps.iter().position(|c| matches!(c.op, OP | ZOO) && c.g(0) == n.g(1) && c.g(1) == INNER && n.g(1) > n.g(0)).map(|c| (c, n.g(2)))) } else { None };
    if let Some((c, _)) = child { NEXT.with(|n| n.set(Some((plan as *const Plan, c)))); }
    let at = child.map(|c| c.1);
    let hook: Option<fn()> = if child.is_some() { Some(nested) } else { None };
    let r = if s.op == OP { op(plan, s, at, hook) } else { zoo_op(s, at, hook) };
    NEXT.with(|n| n.set(next));
    probe::with(|x| *x = saved);
    r
}

fn op(plan: &Plan, s: &Step, at: Option<u64>, hook: Option<fn()>) -> Seen {
    let sh = SHAPES[(s.g(2) % SHAPES.len() as u64) as usize];
    let kind = kind_for(sh, s.g(3));
    let lens: Vec<u64> = lens_of(sh, s.a.get(6..).unwrap_or(&[])).into_iter().map(|x| x % 5).collect();
    let obj = sh.make(&lens);
    let img = obj.image();
    let mut arms = vec![];
    let mut sticky = false;
    for a in plan.steps.iter().filter(|x| x.op == ARM && x.g(0) == s.g(0)) {
        arms.push(Arm { op: (a.g(1) % 4) as u8, nth: a.g(2), fault: a.g(3) % 11 });
        sticky |= a.g(4) % 4 == 1;
    }
    let d = run_op_nested(sh, &*obj, kind, &img, s.g(5), s.g(4), arms, sticky, at, hook);
    Seen { result: format!("{:?}", d.r), calls: format!("{:?} first {:?} at {:?} of {}", d.calls, d.first, d.first_tag, d.first_op), buffer: d.host }
}

fn zoo_op(s: &Step, at: Option<u64>, hook: Option<fn()>) -> Seen {
    let o = zoo::at(s.g(2));
    let i = o.info();
    let c = s.g(3) % 4;
    let m = build_msg(c, i, s.g(7) % 6, s.g(8), s.a.get(9..).unwrap_or(&[]));
    let img = encode(c, i, &m);
    let prior = s.g(5);
    probe::reset(vec![], false);
    probe::with(|x| { x.nest_at = at; x.nest = hook; });
    let mut host = fill(img.len() + 2 * GUARD, prior);
    let n = img.len();
    let result = probe::active(|| match s.g(4) % 7 {
        0 => { let r = lib_pack_into(c, o, &m, &mut host[GUARD..GUARD + n]); format!("{:?}", r) }
        1 => format!("{:?}", lib_pack(c, 1 + prior % 2, o, &m, prior as u8)),
        2 | 3 => { let b = deliver(&img, s.g(6), prior); format!("{:?}", lib_unpack(c, prior, o, &b)) }
        4 => format!("{:?}", lib_size(c, o, if prior & 1 == 0 { Some(&m) } else { None })),
        5 => { let mut k = Sink::healthy(); let r = o.render(&m.elems.first().cloned().unwrap_or_else(|| i.fix_vals(&[])), (prior % 64) as u8, &mut k); format!("{:?} {}", r, k.text) }
        _ => {
            // relay whatever arrived
            let b = noise(n, prior);
            let r = lib_unpack(c, prior, o, &b);
            match r { Ok(Ok(m)) => format!("{:?} {:?}", m, lib_pack(c, prior, o, &m, 0)), x => format!("{:?}", x) }
        }
    });
    Seen { result, calls: String::new(), buffer: host }
}

fn label(s: &Step) -> String {
    if s.op == OP { let sh = SHAPES[(s.g(2) % SHAPES.len() as u64) as usize]; format!("operation {} ({} of {})", s.g(0), KINDS[kind_for(sh, s.g(3)) as usize], sh.name()) }
    else { format!("operation {} ({} of {} of {})", s.g(0), ["pack_to_slice", "pack_to_vec", "unpack", "unpack", "size", "render", "relay"][(s.g(4) % 7) as usize], container(s.g(3) % 4), zoo::at(s.g(2)).info().name) }
}

impl Scenario for Conc {
    fn id(&self) -> &'static str { "P12" }
    fn op_names(&self) -> &'static [&'static str] { &["op(id,thread,shape,kind,prior,delta,lens..)", "component-fault(op,callback,nth,error,sticky)", "zoo-op(id,thread,type,container,kind,prior,delta,count,hdr,values..)", "nest(parent,child,at callback)", "switch(thread,at,to)"] }
    fn describe(&self, s: &Step) -> String {
        match s.op {
            OP | ZOO => format!("{} {}", if s.g(1) == INNER { "nested:".to_string() } else { format!("thread {}:", s.g(1)) }, label(s)),
            ARM => format!("operation {}: component call {} of kind {} {}", s.g(0), s.g(2), probe::OPS[(s.g(1) % 4) as usize], if s.g(3) % 11 == PANIC { "panics".into() } else { format!("fails with {:?}", probe::error_of(s.g(3) % 11)) }),
            NEST => format!("operation {} starts operation {} from inside callback {}", s.g(0), s.g(1), s.g(2)),
            _ => format!("thread {} is interrupted after {:.4} of its steps in favour of thread {}", s.g(0), s.g(1) as f64 / ONE as f64, s.g(2)),
        }
    }
    fn patience(&self) -> u64 { 25 }
    fn budget(&self, th: bool) -> u64 { if th { 30_000 } else { 5_000 } }
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["packed_struct runtime", "generated code", "operating system threads (one at a time)"], &["thread scheduler", "components", "sinks"])
    }
    fn rule(&self) -> &'static str { "a run draws 2-4 threads with 1-3 operations each, nested operations, component faults and a schedule (explicit switches, random switching, one thread frozen until the others are done); counted as distinct: (basic block a thread was preempted in, basic block the other thread resumes in) pairs" }
    fn must_reach(&self) -> &'static [&'static str] { &["probe:nested_operation", "probe:frozen_thread", "fault:preemption", "outcome:error", "outcome:panic"] }

    fn gen(&self, r: &mut Rng) -> Plan {
        let n = 2 + r.below(3);
        let period = match r.below(6) { 0 | 1 => 0, 2 => 1 + r.below(3), 3 => 5 + r.below(40), 4 => 100, _ => 1000 };
        let freeze = if r.chance(1, 3) { 1 + r.below(n) } else { 0 };
        let mut p = Plan { cfg: vec![n - 2, period, r.u64() >> 8, r.below(3), freeze, r.below(ONE)], steps: vec![] };
        let mut id = 0;
        let same = r.chance(1, 2); // all threads work on few types
        let shapes: Vec<u64> = (0..3).map(|_| r.below(SHAPES.len() as u64)).collect();
        let types: Vec<u64> = (0..3).map(|_| r.below(zoo::usual().len() as u64)).collect();
        let mut push = |p: &mut Plan, r: &mut Rng, thread: u64| -> u64 {
            let me = id;
            id += 1;
            if r.chance(1, 2) {
                let sh = if same { *r.pick(&shapes) } else { r.below(SHAPES.len() as u64) };
                let mut a = vec![me, thread, sh, r.below(8), r.u64() & 0xFFFF, if r.chance(3, 4) { 0 } else { r.below(64) }];
                for _ in 0..SHAPES[sh as usize].lay().seqs().max(1) { a.push(r.below(5)); }
                p.push(OP, a);
                if r.chance(2, 5) { p.push(ARM, vec![me, *r.pick(&[PACK, UNPACK, UNPACK, SIZE, CONV]) as u64, if r.chance(1, 2) { 0 } else { r.below(6) }, if r.chance(1, 3) { PANIC } else { r.below(10) }, r.below(4)]); }
            } else {
                let e = if same { *r.pick(&types) } else { r.below(zoo::usual().len() as u64) };
                let c = match r.below(6) { 0..=2 => SINGLE, 3 => VEC, 4 => TUP, _ => STUP };
                let i = zoo::at(e).info();
                let count = r.below(5);
                let mut a = vec![me, thread, e, c, r.below(7), r.u64() & 0xFFFF, if r.chance(3, 4) { 0 } else { r.below(64) }, count, r.u64() & 0xFFFF_FFFF];
                a.extend(gen_raws(c, i, count, r));
                p.push(ZOO, a);
            }
            me
        };
        for t in 0..n {
            for _ in 0..1 + r.below(3) {
                let me = push(&mut p, r, t);
                if r.chance(1, 3) { let c = push(&mut p, r, INNER); p.push(NEST, vec![me, c, r.below(8)]); if r.chance(1, 4) { let d = push(&mut p, r, INNER); p.push(NEST, vec![c, d, r.below(4)]); } }
            }
        }
        for _ in 0..match r.below(4) { 0 => 0, 1 => 1 + r.below(3), _ => r.below(25) } { p.push(SWITCH, vec![r.below(n), r.below(ONE), r.below(n)]); }
        p
    }

    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> Res {
        probe::reset(vec![], false);
        let n = (2 + plan.c(0) % 3) as usize;
        let ops: Vec<usize> = (0..plan.steps.len()).filter(|k| matches!(plan.steps[*k].op, OP | ZOO)).collect();
        let of = |t: usize| -> Vec<usize> { ops.iter().copied().filter(|k| plan.steps[*k].g(1) == t as u64).collect() };
        let calm = || Schedule { switches: vec![vec![]], period: 0, seed: 0, freeze: None };
        let alone = |k: usize| -> (Seen, u64) { let (mut r, s) = sched::run(calm(), vec![Box::new(move || run(plan, k, false))]); (r.remove(0), s.local[0]) };
        let first = plan.c(3) % 3 != 1;
        let mut solo: BTreeMap<usize, (Seen, u64)> = BTreeMap::new();
        if first { for k in &ops { solo.insert(*k, alone(*k)); } }
        // expected length of each thread, to scale the switch points
        let total: Vec<u64> = (0..n).map(|t| if first { of(t).iter().map(|k| solo[k].1).sum::<u64>().max(1) } else { 4000 }).collect();
        let scale = |t: usize, f: u64| (f % ONE) as u128 * total[t] as u128 / ONE as u128;
        let mut switches: Vec<Vec<(u64, usize)>> = vec![vec![]; n];
        for s in plan.steps.iter().filter(|s| s.op == SWITCH) { let (t, to) = ((s.g(0) % n as u64) as usize, (s.g(2) % n as u64) as usize); switches[t].push((1 + scale(t, s.g(1)) as u64, to)); }
        for l in &mut switches { l.sort(); }
        let freeze = if plan.c(4) > 0 { let t = ((plan.c(4) - 1) % n as u64) as usize; Some((t, 1 + scale(t, plan.c(5)) as u64)) } else { None };
        let jobs: Vec<Box<dyn FnOnce() -> Vec<(usize, Seen, bool)> + Send + '_>> = (0..n).map(|t| {
            let mine = of(t);
            Box::new(move || {
                let mut o = vec![];
                for k in mine {
                    o.push((k, run(plan, k, true), false));
                    INNER_SEEN.with(|v| for (k, s) in v.borrow_mut().drain(..) { o.push((k, s, true)) });
                }
                o
            }) as Box<dyn FnOnce() -> Vec<(usize, Seen, bool)> + Send + '_>
        }).collect();
        let (seen, sum) = sched::run(Schedule { switches, period: plan.c(1), seed: plan.c(2), freeze }, jobs);
        ctx.add("fault:preemption", sum.switched);
        ctx.add("yield_points", sum.steps);
        if sum.froze { ctx.count("probe:frozen_thread"); }
        ctx.h(sum.trace);
        for s in &sum.sigs { ctx.sig(*s); }
        ctx.sim_ns += sum.steps * 10;
        ctx.ev(|| format!("{} threads, {} yield points, {} switches", n, sum.steps, sum.switched));
        for (t, list) in seen.into_iter().enumerate() {
            for (k, got, inner) in list {
                ctx.evals += 1;
                if inner { ctx.count("probe:nested_operation"); }
                let want = solo.entry(k).or_insert_with(|| alone(k)).0.clone();
                let s = &plan.steps[k];
                ctx.count(if want.result.starts_with("Ok(Ok") { "outcome:ok" } else if want.result.starts_with("Err") { "outcome:panic" } else { "outcome:error" });
                ctx.hb(got.result.as_bytes());
                ctx.hb(&got.buffer);
                let how = if inner { "nested in another operation" } else if sum.switched > 0 { "interleaved with others" } else { "in sequence with others" };
                let short = |x: &str| if x.len() > 300 { format!("{}..", x.chars().take(300).collect::<String>()) } else { x.to_string() };
                ctx.ev(|| format!("thread {} {}{}: {}", t, if inner { "nested " } else { "" }, label(s), short(&got.result)));
                if got.result != want.result { return viol("P12/result-differs", format!("{} {} gave {}, alone {}", label(s), how, short(&got.result), short(&want.result))); }
                if got.calls != want.calls { return viol("P12/calls-differ", format!("{} {} called components {}, alone {}", label(s), how, short(&got.calls), short(&want.calls))); }
                if got.buffer != want.buffer { return viol("P12/buffer-differs", format!("{} {} left {}, alone {}", label(s), how, simcore::model::hex(&got.buffer), simcore::model::hex(&want.buffer))); }
            }
        }
        // and once more on its own, after all this
        if plan.c(3) % 3 == 2 { if let Some(k) = ops.last() { let again = alone(*k).0; if again != solo[k].0 { return viol("P12/history-matters", format!("{} alone gave {:?}, later, alone again, {:?}", label(&plan.steps[*k]), solo[k].0.result, again.result)); } } }
        let _ = (hash_str, mix);
        Ok(())
    }
}
