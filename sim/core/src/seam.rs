//! Seams: the boundary between simulator code and library code.
//!
//! `call` runs library code: panics are caught, heap requests are attributed to it and (when the simulated
//! scheduler is on) every heap request is a scheduling point. `outside` is entered by simulator code that
//! the library calls back (components, sinks).
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub struct Panic(pub String);
pub type Lib<T> = Result<T, Panic>;

#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct HeapStats { pub requests: u64, pub bytes: u64, pub peak: i64, pub live: i64 }

thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static REQ: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static YIELD: Cell<Option<fn()>> = const { Cell::new(None) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static LAST_HEAP: Cell<HeapStats> = const { Cell::new(HeapStats { requests: 0, bytes: 0, peak: 0, live: 0 }) };
    static EXHAUSTED: Cell<bool> = const { Cell::new(false) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
}

/// Called by the global allocator on every request; true = this request must fail.
#[inline]
pub fn on_alloc(size: usize) -> bool {
    IN_LIB.try_with(|f| { if f.get() {
        REQ.with(|c| c.set(c.get() + 1));
        BYTES.with(|c| c.set(c.get() + size as u64));
        let l = LIVE.with(|c| { let v = c.get() + size as i64; c.set(v); v });
        PEAK.with(|c| if l > c.get() { c.set(l) });
        if let Some(y) = YIELD.with(|y| y.get()) {
            f.set(false);
            y();
            f.set(true);
        }
        if EXHAUSTED.with(|x| x.get()) { f.set(false); return true; }
    } false }).unwrap_or(false)
}
/// From now on every heap request of library code on this thread fails.
pub fn exhaust_heap(on: bool) { EXHAUSTED.with(|x| x.set(on)) }
#[inline]
pub fn on_dealloc(size: usize) {
    let _ = IN_LIB.try_with(|f| if f.get() { LIVE.with(|c| c.set(c.get() - size as i64)); });
}

// In the build for P12 the compiler calls these at every basic block of the library and of generated code.
thread_local! { static GUARD_AT: Cell<u32> = const { Cell::new(0) }; }
static GUARDS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 { return; }
    while start < stop { *start = GUARDS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) + 1; start = start.add(1); }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let _ = IN_LIB.try_with(|f| if f.get() {
        if let Some(y) = YIELD.with(|y| y.get()) {
            GUARD_AT.with(|g| g.set(*guard));
            f.set(false);
            y();
            f.set(true);
        }
    });
}
/// Number of instrumented basic blocks (0 in the ordinary build). Keeps the callbacks linked.
pub fn instrumented_blocks() -> u32 {
    let f: [usize; 2] = [__sanitizer_cov_trace_pc_guard as *const () as usize, __sanitizer_cov_trace_pc_guard_init as *const () as usize];
    if std::hint::black_box(f)[0] == 0 { return u32::MAX; }
    GUARDS.load(std::sync::atomic::Ordering::Relaxed)
}
/// The basic block this thread was last seen in.
pub fn guard_at() -> u32 { GUARD_AT.with(|g| g.get()) }

/// A point at which the simulated scheduler may switch to another thread.
pub fn yield_point() { if let Some(y) = YIELD.with(|y| y.get()) { y() } }

pub fn set_yield(f: Option<fn()>) { YIELD.with(|y| y.set(f)) }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let was = IN_LIB.with(|f| f.replace(false));
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "opaque panic".into() };
        let loc = info.location().map(|l| l.file().rsplit('/').next().unwrap_or("").to_string()).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} [{}]", msg, loc));
        if DEPTH.with(|d| d.get()) == 0 { eprintln!("harness panic: {} {:?}", msg, info.location()); }
        IN_LIB.with(|f| f.set(was));
    }));
}

/// Runs library code. Nested calls (from components) are allowed; heap statistics are those of the outermost call.
pub fn call<R>(f: impl FnOnce() -> R) -> Lib<R> {
    let outer = DEPTH.with(|d| { let v = d.get(); d.set(v + 1); v }) == 0;
    if outer {
        REQ.with(|c| c.set(0)); BYTES.with(|c| c.set(0)); LIVE.with(|c| c.set(0)); PEAK.with(|c| c.set(0));
    }
    let was = IN_LIB.with(|x| x.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_LIB.with(|x| x.set(was));
    DEPTH.with(|d| d.set(d.get() - 1));
    if outer {
        LAST_HEAP.with(|h| h.set(HeapStats {
            requests: REQ.with(|c| c.get()), bytes: BYTES.with(|c| c.get()),
            peak: PEAK.with(|c| c.get()), live: LIVE.with(|c| c.get()) }));
    }
    r.map_err(|_| {
        let mut m = LAST_PANIC.with(|p| p.borrow().clone());
        // keep the class of a panic stable while a case is being minimised
        m.truncate(m.char_indices().nth(160).map(|x| x.0).unwrap_or(m.len()));
        Panic(m)
    })
}

struct Restore(bool);
impl Drop for Restore { fn drop(&mut self) { let v = self.0; IN_LIB.with(|x| x.set(v)); } }

/// Simulator code called back by the library.
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let was = IN_LIB.with(|x| x.replace(false));
    let _r = Restore(was);
    f()
}

/// Heap behaviour of the last outermost `call` on this thread.
pub fn last_heap() -> HeapStats { LAST_HEAP.with(|h| h.get()) }
