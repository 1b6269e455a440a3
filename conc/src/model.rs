//! What the engine explores, and the callbacks it is given.
use crate::ffi::{fatal, quiet, Cb};
use std::ffi::{c_char, c_void};

/// Anything explored by the engine.
pub trait Model {
    fn setup(&mut self);
    fn body(&mut self, tid: usize);
    fn finish(&mut self) -> Result<(), (String, String)>;
    fn outcome(&self) -> u64;
    fn threads(&self) -> usize;
}
static mut PANIC_MSG: [u8; 600] = [0; 600];
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        if unsafe { crate::ffi::mc_in_exec() } == 0 {
            eprintln!("{i}");
            return;
        }
        quiet(|| {
            let m = format!("{i}").replace('\n', " ");
            let b = m.as_bytes();
            let n = b.len().min(599);
            unsafe {
                let p = &mut *std::ptr::addr_of_mut!(PANIC_MSG);
                p[..n].copy_from_slice(&b[..n]);
                p[n] = 0;
            }
        })
    }));
}
fn guarded<R>(f: impl FnOnce() -> R) -> R {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let p = unsafe { &*std::ptr::addr_of!(PANIC_MSG) };
            let n = p.iter().position(|&b| b == 0).unwrap_or(0);
            let m = String::from_utf8_lossy(&p[..n]).into_owned();
            fatal("panic", &m)
        }
    }
}
unsafe fn m<'a>(c: *mut c_void) -> &'a mut Box<dyn Model> {
    unsafe { &mut *(c as *mut Box<dyn Model>) }
}
extern "C" fn cb_setup(c: *mut c_void) {
    guarded(|| unsafe { m(c) }.setup())
}
extern "C" fn cb_body(c: *mut c_void, tid: i32) {
    guarded(|| unsafe { m(c) }.body(tid as usize))
}
extern "C" fn cb_check(c: *mut c_void, buf: *mut c_char, n: i32) -> i32 {
    match guarded(|| unsafe { m(c) }.finish()) {
        Ok(()) => 0,
        Err((k, t)) => quiet(|| {
            let s = format!("{k}|{t}");
            let b = s.as_bytes();
            let l = b.len().min(n as usize - 1);
            unsafe {
                std::ptr::copy_nonoverlapping(b.as_ptr(), buf as *mut u8, l);
                *buf.add(l) = 0;
            }
            1
        }),
    }
}
extern "C" fn cb_outcome(c: *mut c_void) -> u64 {
    unsafe { m(c) }.outcome()
}
pub fn callbacks(model: &mut Box<dyn Model>) -> Cb {
    Cb { setup: cb_setup, body: cb_body, check: cb_check, outcome: cb_outcome, ctx: model as *mut _ as *mut c_void }
}
