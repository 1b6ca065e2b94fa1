//! The simulated thread scheduler: real threads, of which exactly one runs at any time. The running thread
//! hands the baton over only at yield points (callbacks, sink writes, heap requests and, in the build for P12,
//! every basic block of the library and of generated code) and only where the plan says so.
use simcore::rng::{mix, Rng};
use simcore::seam;
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::OnceLock;
use std::thread::Thread;

pub struct Schedule {
    /// per thread: (at its own n-th yield point, switch to thread)
    pub switches: Vec<Vec<(u64, usize)>>,
    /// in addition: switch at random, on average every `period` yield points (0 = never)
    pub period: u64,
    pub seed: u64,
    /// freeze a thread at its n-th yield point until every other thread is done
    pub freeze: Option<(usize, u64)>,
}

struct St { live: Vec<bool>, local: Vec<u64>, next: Vec<usize>, frozen: Option<usize>, froze: bool, rng: Rng, guard: Vec<u32>, sigs: Vec<u64>, switched: u64, steps: u64, trace: u64 }
struct Shared { cur: AtomicUsize, threads: Vec<OnceLock<Thread>>, st: UnsafeCell<St>, plan: Schedule }
unsafe impl Sync for Shared {}

thread_local! { static ME: Cell<(usize, *const Shared)> = const { Cell::new((0, std::ptr::null())) }; }

impl Shared {
    fn hand_over(&self, me: usize, to: usize, wait: bool) {
        let st = unsafe { &mut *self.st.get() };
        st.switched += 1;
        st.trace = mix(st.trace, mix(st.local[me], (me * 16 + to) as u64));
        st.guard[me] = seam::guard_at();
        if st.sigs.len() < 400 { st.sigs.push(mix(st.guard[me] as u64, st.guard[to] as u64)); }
        self.cur.store(to, Ordering::Release);
        if let Some(t) = self.threads[to].get() { t.unpark(); }
        if wait { self.wait(me); }
    }
    fn wait(&self, me: usize) { while self.cur.load(Ordering::Acquire) != me { std::thread::park(); } }
    fn other(&self, st: &mut St, me: usize) -> Option<usize> {
        let c: Vec<usize> = (0..st.live.len()).filter(|t| *t != me && st.live[*t] && st.frozen != Some(*t)).collect();
        if c.is_empty() { None } else { Some(c[st.rng.below(c.len() as u64) as usize]) }
    }
}

fn at_yield() {
    let (me, sh) = ME.with(|m| m.get());
    if sh.is_null() { return; }
    let sh = unsafe { &*sh };
    let st = unsafe { &mut *sh.st.get() };
    st.local[me] += 1;
    st.steps += 1;
    let n = st.local[me];
    if let Some((t, at)) = sh.plan.freeze {
        if t == me && at <= n && !st.froze {
            st.froze = true;
            if let Some(o) = sh.other(st, me) { st.frozen = Some(me); sh.hand_over(me, o, true); return; }
        }
    }
    let list = &sh.plan.switches[me];
    let mut to = None;
    while st.next[me] < list.len() && list[st.next[me]].0 <= n { to = Some(list[st.next[me]].1); st.next[me] += 1; }
    if to.is_none() && sh.plan.period > 0 && st.rng.below(sh.plan.period) == 0 { to = sh.other(st, me); }
    if let Some(t) = to { if t != me && t < st.live.len() && st.live[t] && st.frozen != Some(t) { sh.hand_over(me, t, true); } }
}

pub struct Summary { pub sigs: Vec<u64>, pub switched: u64, pub steps: u64, pub trace: u64, pub local: Vec<u64>, pub froze: bool }

/// Runs the jobs on one thread each, under the schedule. A job returns its results; panics of the harness itself are passed on.
pub fn run<R: Send>(plan: Schedule, jobs: Vec<Box<dyn FnOnce() -> R + Send + '_>>) -> (Vec<R>, Summary) {
    let n = jobs.len();
    let seed = plan.seed;
    let sh = Shared { cur: AtomicUsize::new(0), threads: (0..n).map(|_| OnceLock::new()).collect(), plan,
        st: UnsafeCell::new(St { live: vec![true; n], local: vec![0; n], next: vec![0; n], frozen: None, froze: false, rng: Rng::new(seed), guard: vec![0; n], sigs: vec![], switched: 0, steps: 0, trace: 0 }) };
    let results = std::thread::scope(|s| {
        let hs: Vec<_> = jobs.into_iter().enumerate().map(|(me, job)| {
            let sh = &sh;
            s.spawn(move || {
                let _ = sh.threads[me].set(std::thread::current());
                sh.wait(me);
                ME.with(|m| m.set((me, sh as *const Shared)));
                seam::set_yield(Some(at_yield));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(job));
                seam::set_yield(None);
                ME.with(|m| m.set((0, std::ptr::null())));
                let st = unsafe { &mut *sh.st.get() };
                st.live[me] = false;
                let next = match sh.other(st, me) { Some(o) => Some(o), None => { st.frozen.take().filter(|t| st.live[*t]).or_else(|| (0..st.live.len()).find(|t| st.live[*t])) } };
                if let Some(o) = next { sh.hand_over(me, o, false); }
                r
            })
        }).collect();
        hs.into_iter().map(|h| match h.join().expect("thread") { Ok(r) => r, Err(p) => std::panic::resume_unwind(p) }).collect()
    });
    let st = sh.st.into_inner();
    (results, Summary { sigs: st.sigs, switched: st.switched, steps: st.steps, trace: st.trace, local: st.local, froze: st.froze })
}
