//! A loadable module in which the library is built without std (feature `heap`: with alloc; feature `bare`: without).
//! The harness around it uses std, the library and the declarations do not.
use simcore::enums::EnumOps;
use simcore::Ops;

struct Counting;
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { if simcore::seam::on_alloc(l.size()) { return std::ptr::null_mut() } std::alloc::System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { simcore::seam::on_dealloc(l.size()); std::alloc::System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { if simcore::seam::on_alloc(n) { return std::ptr::null_mut() } simcore::seam::on_dealloc(l.size()); std::alloc::System.realloc(p, l, n) }
}
#[global_allocator]
static A: Counting = Counting;

fn tables() -> &'static (Vec<&'static dyn Ops>, Vec<&'static dyn EnumOps>) {
    static T: std::sync::OnceLock<(Vec<&'static dyn Ops>, Vec<&'static dyn EnumOps>)> = std::sync::OnceLock::new();
    T.get_or_init(|| (
        [zoo_s2::ENTRIES, zoo_r1::ENTRIES, zoo_r2::ENTRIES, zoo_i1::ENTRIES].iter().flat_map(|s| s.iter().copied()).collect(),
        simcore::enums::BASE.iter().chain(zoo_r1::ENUM_ENTRIES).chain(zoo_r2::ENUM_ENTRIES).chain(zoo_i1::ENUM_ENTRIES).copied().collect()))
}

#[no_mangle]
pub extern "C" fn peer_init() { simcore::seam::install_panic_hook() }

/// Answers a request; if the answer does not fit, only its length is returned.
#[no_mangle]
pub extern "C" fn peer_call(req: *const u8, len: usize, out: *mut u8, cap: usize) -> usize {
    let t = tables();
    let req = unsafe { std::slice::from_raw_parts(req, len) };
    let Ok(a) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| simcore::remote::serve(&t.0, &t.1, req))) else { return usize::MAX };
    if a.len() <= cap { unsafe { std::ptr::copy_nonoverlapping(a.as_ptr(), out, a.len()) } }
    a.len()
}
