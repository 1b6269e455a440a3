//! Bindings to the engine (engine/mc.c).
use std::alloc::{GlobalAlloc, Layout};
use std::ffi::{c_char, c_void, CStr, CString};

#[repr(C)]
pub struct Cb {
    pub setup: extern "C" fn(*mut c_void),
    pub body: extern "C" fn(*mut c_void, i32),
    pub check: extern "C" fn(*mut c_void, *mut c_char, i32) -> i32,
    pub outcome: extern "C" fn(*mut c_void) -> u64,
    pub ctx: *mut c_void,
}
#[repr(C)]
#[derive(Default, Debug, Clone)]
pub struct Res {
    pub execs: u64,
    pub steps: u64,
    pub nodes: u64,
    pub outcomes: u64,
    pub pruned: u64,
    pub items: u64,
    pub races: u64,
    pub switches: u64,
    pub nviol: i32,
    pub capped: i32,
    pub max_steps: i32,
    pub diverged: i32,
    pub error: i32,
    pub wall: f64,
}
extern "C" {
    pub fn mc_explore(c: *const Cb, nt: i32, pb: i32, stale: i32, freeze: i32, secs: f64, workers: i32, r: *mut Res) -> i32;
    pub fn mc_replay(c: *const Cb, nt: i32, freeze: i32, steps: *const i32, alts: *const i32, n: i32, verbose: i32, r: *mut Res) -> i32;
    pub fn mc_viol_kind(i: i32) -> *const c_char;
    pub fn mc_viol_msg(i: i32) -> *const c_char;
    pub fn mc_viol_devs(i: i32, s: *mut i32, a: *mut i32) -> i32;
    fn mc_violation(kind: *const c_char, fmt: *const c_char, ...);
    fn mc_fatal(kind: *const c_char, msg: *const c_char) -> !;
    fn mc_alloc(size: usize, align: usize) -> *mut u8;
    fn mc_free(p: *mut u8);
    fn mc_leaked(buf: *mut c_char, n: i32) -> u64;
    pub fn mc_in_exec() -> i32;
    pub fn mc_set_races(on: i32);
    pub fn mc_set_cpu(base: i32);
    pub fn mc_shadow_off(d: i32);
    pub fn mc_harness_alloc(d: i32);
    #[allow(dead_code)]
    pub fn mc_yield();
    #[allow(dead_code)]
    pub fn mc_progress();
}

struct Arena;
unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        mc_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, _l: Layout) {
        mc_free(p)
    }
}
#[global_allocator]
static A: Arena = Arena;

pub fn violation(kind: &str, msg: &str) {
    quiet(|| {
        let k = CString::new(kind).unwrap();
        let m = CString::new(msg).unwrap();
        unsafe { mc_violation(k.as_ptr(), c"%s".as_ptr(), m.as_ptr()) }
    })
}
pub fn fatal(kind: &str, msg: &str) -> ! {
    unsafe {
        mc_harness_alloc(1);
        let k = CString::new(kind).unwrap();
        let m = CString::new(msg).unwrap();
        mc_fatal(k.as_ptr(), m.as_ptr())
    }
}
/// Harness code inside an execution: not race-checked, its allocations not leak-checked.
/// Must not contain a scheduling point.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        mc_shadow_off(1);
        mc_harness_alloc(1);
    }
    let r = f();
    unsafe {
        mc_harness_alloc(-1);
        mc_shadow_off(-1);
    }
    r
}
pub fn leaked() -> (u64, String) {
    let mut b = [0 as c_char; 200];
    let n = unsafe { mc_leaked(b.as_mut_ptr(), 200) };
    (n, unsafe { CStr::from_ptr(b.as_ptr()) }.to_string_lossy().into_owned())
}
pub fn viols() -> Vec<(String, String, Vec<(i32, i32)>)> {
    unreachable_guard();
    let mut v = Vec::new();
    let mut i = 0;
    unsafe {
        loop {
            let k = CStr::from_ptr(mc_viol_kind(i)).to_string_lossy().into_owned();
            if k.is_empty() || i >= 8 {
                break;
            }
            let m = CStr::from_ptr(mc_viol_msg(i)).to_string_lossy().into_owned();
            let (mut s, mut a) = ([0i32; 16], [0i32; 16]);
            let n = mc_viol_devs(i, s.as_mut_ptr(), a.as_mut_ptr());
            v.push((k, m, (0..n as usize).map(|j| (s[j], a[j])).collect()));
            i += 1;
        }
    }
    v
}
fn unreachable_guard() {
    assert!(unsafe { mc_in_exec() } == 0);
}
