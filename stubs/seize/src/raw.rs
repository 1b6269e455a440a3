extern "C" {
    fn mc_shadow_off(d: i32);
    fn mc_harness_alloc(d: i32);
}
/// Runs bookkeeping of the collector model outside the race detector (it is serialised by the
/// scheduler and stands for the real collector's own synchronisation).
pub(crate) fn shadow_off<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        mc_shadow_off(1);
        mc_harness_alloc(1);
    }
    let r = f();
    unsafe {
        mc_harness_alloc(-1);
        mc_shadow_off(-1);
    }
    r
}
