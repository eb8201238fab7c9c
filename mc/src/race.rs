//! Strands of parallel regions for the access recorder (oracle/race.cpp), and an allocator that does not
//! hand out an address twice within a region.
use rayon::mc::{observe, threads, Observer};
use std::alloc::{GlobalAlloc, Layout, System};
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_ulong, c_void};

extern "C" {
    fn mc_race_begin();
    fn mc_race_region_enter(frame: usize);
    fn mc_race_strand(s: u32);
    fn mc_race_pause();
    fn mc_race_state() -> usize;
    fn mc_race_adopt(state: usize);
    fn mc_race_region_leave();
    fn mc_race_defer_free(p: *mut c_void) -> c_int;
    fn mc_race_result(out: *mut c_ulong) -> *const c_char;
}

// called by the hooks of atomic operations
#[no_mangle]
extern "C" fn mc_point() {
    rayon::mc::point()
}
#[no_mangle]
extern "C" fn mc_lock(address: usize, taken: c_int) {
    rayon::mc::lock(address, taken != 0)
}

pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if mc_race_defer_free(p as *mut c_void) == 0 {
            System.dealloc(p, l)
        }
    }
    // realloc: the default, which allocates, copies and frees
}

struct Obs;
impl Observer for Obs {
    fn region_enter(&self, frame: usize) {
        unsafe { mc_race_region_enter(frame) }
    }
    fn pull(&self, item: usize) {
        unsafe { mc_race_strand(2 * item as u32) }
    }
    fn run(&self, item: usize) {
        unsafe { mc_race_strand(2 * item as u32 + 1) }
    }
    fn pause(&self) {
        unsafe { mc_race_pause() }
    }
    fn region_leave(&self) {
        unsafe { mc_race_region_leave() }
    }
    fn state(&self) -> usize {
        unsafe { mc_race_state() }
    }
    fn adopt(&self, state: usize) {
        unsafe { mc_race_adopt(state) }
    }
}

#[derive(Debug, Default)]
pub struct Report {
    pub accesses: u64,
    pub bytes8: u64,
    pub pairs: u64,
    pub regions: u64,
    pub shared: u64,
}

/// Runs `f` and returns the conflict found, if any. A conflict counts only if it is one, too, when every item runs on an OS
/// thread of its own: what belongs to a thread (thread-local memory) is then not mistaken for something that items share.
pub fn record<R>(f: impl Fn() -> R) -> (R, Report, Option<String>) {
    let first = record1(false, &f);
    if first.2.is_none() {
        return first;
    }
    record1(true, &f)
}
fn record1<R>(own_threads: bool, f: impl FnOnce() -> R) -> (R, Report, Option<String>) {
    unsafe { mc_race_begin() };
    let before = threads(own_threads);
    observe(Some(&Obs));
    let r = f();
    observe(None);
    threads(before);
    let mut o = [0 as c_ulong; 5];
    let c = unsafe { CStr::from_ptr(mc_race_result(o.as_mut_ptr())) }.to_string_lossy().into_owned();
    (r, Report { accesses: o[0], bytes8: o[1], pairs: o[2], regions: o[3], shared: o[4] }, if c.is_empty() { None } else { Some(c) })
}
