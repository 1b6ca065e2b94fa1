//! Nodes that run the library built without std: two loadable modules (sim/peer), one with an allocator, one without.
use crate::zoo;
use simcore::enums::EnumOps;
use simcore::remote::{ask, Call, Remote, RemoteEnum, COUNT, ENAME, NAME, R};
use simcore::Ops;
use std::ffi::{c_char, c_int, c_void, CString};
use std::sync::OnceLock;

extern "C" { fn dlopen(f: *const c_char, flags: c_int) -> *mut c_void; fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void; }

pub struct Module { pub records: Vec<Remote>, pub enums: Vec<RemoteEnum> }
/// Kinds of library nodes.
pub const STD: u64 = 0;
pub const BARE: u64 = 1;
pub const HEAP: u64 = 2;
pub const KINDS: [&str; 4] = ["std", "bare", "alloc", "reference"];

fn fail(s: &str) -> ! { eprintln!("{}", s); std::process::exit(2) }
fn load(which: &str) -> Module {
    let path = std::env::current_exe().unwrap().ancestors().nth(3).unwrap().join(format!("peer-{}/debug/libpeer.so", which));
    let sym = |h: *mut c_void, n: &str| unsafe { let c = CString::new(n).unwrap(); let s = dlsym(h, c.as_ptr()); if s.is_null() { fail("peer module lacks its entry points") } s };
    let call: Call = unsafe {
        let c = CString::new(path.to_str().unwrap()).unwrap();
        let h = dlopen(c.as_ptr(), 2);
        if h.is_null() { fail(&format!("cannot load {}", path.display())) }
        let init: extern "C" fn() = std::mem::transmute(sym(h, "peer_init"));
        init();
        std::mem::transmute(sym(h, "peer_call"))
    };
    let a = ask(call, COUNT, 0, |_| {});
    let mut r = R(&a);
    let (nr, ne) = (r.n() as usize, r.n() as usize);
    let name = |op, k| R(&ask(call, op, k, |_| {})).s();
    let records = (0..nr).map(|k| { let n = name(NAME, k); let o = zoo::all().iter().find(|o| o.info().name == n).unwrap_or_else(|| fail("peer module built from other declarations")); Remote { call, k, info: o.info() } }).collect();
    let enums = (0..ne).map(|k| { let n = name(ENAME, k); let local = *zoo::enums().iter().find(|o| o.info().name == n).unwrap_or_else(|| fail("peer module built from other declarations")); RemoteEnum { call, k, local } }).collect();
    Module { records, enums }
}
fn module(kind: u64) -> &'static Module {
    static M: [OnceLock<Module>; 2] = [OnceLock::new(), OnceLock::new()];
    M[(kind == HEAP) as usize].get_or_init(|| load(if kind == HEAP { "heap" } else { "bare" }))
}
/// A question of simcore::misc, answered by a node of that kind.
pub fn misc(kind: u64, what: u64, p: u64, q: u64, b: &[u8]) -> (String, simcore::misc::Answer) {
    match kind { BARE | HEAP => simcore::remote::misc(module(kind).records[0].call, what, p, q, b), _ => simcore::misc::ask(what, p, q, b) }
}
pub fn preload() { module(BARE); module(HEAP); }
/// Declarations every kind of node knows: (index in zoo::usual(), index in the modules).
pub fn common() -> &'static [(usize, usize)] {
    static C: OnceLock<Vec<(usize, usize)>> = OnceLock::new();
    C.get_or_init(|| {
        let b = module(BARE);
        let h = module(HEAP);
        zoo::usual().iter().enumerate().filter_map(|(i, o)| {
            let k = b.records.iter().position(|r| r.info.name == o.info().name)?;
            if h.records.get(k).map(|r| r.info.name) != Some(o.info().name) { fail("peer modules disagree"); }
            Some((i, k))
        }).collect()
    })
}
/// The declaration as node `kind` has it.
pub fn at(kind: u64, i: u64) -> &'static dyn Ops {
    let c = common();
    let (u, k) = c[(i % c.len() as u64) as usize];
    match kind { BARE | HEAP => &module(kind).records[k], _ => zoo::usual()[u] }
}
pub fn enum_at(kind: u64, i: u64) -> &'static dyn EnumOps {
    let m = module(HEAP);
    let k = (i % m.enums.len() as u64) as usize;
    match kind { STD => m.enums[k].local, _ => &module(kind).enums[k] }
}
