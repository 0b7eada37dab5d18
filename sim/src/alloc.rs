//! The global allocator seam: counts, and on demand refuses, every request made inside a library call.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::Relaxed};

pub struct SimAlloc;
/// true while counting is wanted at all (one simulated run at a time per process)
pub static ENABLED: AtomicBool = AtomicBool::new(false);
pub static REFUSE: AtomicBool = AtomicBool::new(false);
/// number of requests to let through before refusing
pub static SKIP: AtomicU64 = AtomicU64::new(0);
pub static REQUESTS: AtomicU64 = AtomicU64::new(0);
pub static REFUSED: AtomicU64 = AtomicU64::new(0);
static DEPTH: AtomicU32 = AtomicU32::new(0);

pub fn arm() {
    if ENABLED.load(Relaxed) {
        DEPTH.store(1, Relaxed);
    }
}
pub fn disarm() {
    if ENABLED.load(Relaxed) {
        DEPTH.store(0, Relaxed);
    }
}
fn refused() -> bool {
    if DEPTH.load(Relaxed) == 0 {
        return false;
    }
    let n = REQUESTS.fetch_add(1, Relaxed);
    if REFUSE.load(Relaxed) && n >= SKIP.load(Relaxed) {
        REFUSED.fetch_add(1, Relaxed);
        return true;
    }
    false
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refused() {
            return std::ptr::null_mut();
        }
        inner(|| unsafe { System.alloc(l) })
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refused() {
            return std::ptr::null_mut();
        }
        inner(|| unsafe { System.alloc_zeroed(l) })
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if refused() {
            return std::ptr::null_mut();
        }
        inner(|| unsafe { System.realloc(p, l, n) })
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
}

/// The C allocator underneath: requests that do not come through the Rust allocator are refused too.
static INNER: AtomicBool = AtomicBool::new(false);
fn inner<R>(f: impl FnOnce() -> R) -> R {
    if DEPTH.load(Relaxed) == 0 {
        return f();
    }
    INNER.store(true, Relaxed);
    let r = f();
    INNER.store(false, Relaxed);
    r
}
fn refused_c() -> bool {
    DEPTH.load(Relaxed) != 0 && !INNER.load(Relaxed) && refused()
}
extern "C" {
    fn __libc_malloc(n: usize) -> *mut u8;
    fn __libc_calloc(n: usize, m: usize) -> *mut u8;
    fn __libc_realloc(p: *mut u8, n: usize) -> *mut u8;
    fn __libc_memalign(a: usize, n: usize) -> *mut u8;
}
#[no_mangle]
pub unsafe extern "C" fn malloc(n: usize) -> *mut u8 {
    if refused_c() {
        return std::ptr::null_mut();
    }
    __libc_malloc(n)
}
#[no_mangle]
pub unsafe extern "C" fn calloc(n: usize, m: usize) -> *mut u8 {
    if refused_c() {
        return std::ptr::null_mut();
    }
    __libc_calloc(n, m)
}
#[no_mangle]
pub unsafe extern "C" fn realloc(p: *mut u8, n: usize) -> *mut u8 {
    if refused_c() {
        return std::ptr::null_mut();
    }
    __libc_realloc(p, n)
}
#[no_mangle]
pub unsafe extern "C" fn aligned_alloc(a: usize, n: usize) -> *mut u8 {
    if refused_c() {
        return std::ptr::null_mut();
    }
    __libc_memalign(a, n)
}
#[no_mangle]
pub unsafe extern "C" fn posix_memalign(out: *mut *mut u8, a: usize, n: usize) -> i32 {
    if refused_c() {
        return 12;
    }
    let p = __libc_memalign(a, n);
    if p.is_null() {
        return 12;
    }
    *out = p;
    0
}
