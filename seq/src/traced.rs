//! A subscriber that looks at every event and span, and the debug counters.
#[cfg(feature = "traced")]
mod on {
    use std::fmt::Write;
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    use tracing::field::{Field, Visit};
    use tracing::span::{Attributes, Id, Record};
    use tracing::{Event, Metadata, Subscriber};

    struct Sink(u64);
    impl Write for Sink {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            self.0 = self.0.wrapping_add(s.len() as u64);
            Ok(())
        }
    }
    impl Visit for Sink {
        fn record_debug(&mut self, _: &Field, v: &dyn std::fmt::Debug) {
            let _ = write!(self, "{v:?}");
        }
    }
    static SEEN: AtomicU64 = AtomicU64::new(0);
    struct All;
    impl Subscriber for All {
        fn enabled(&self, _: &Metadata<'_>) -> bool {
            true
        }
        fn new_span(&self, a: &Attributes<'_>) -> Id {
            a.record(&mut Sink(0));
            Id::from_u64(1)
        }
        fn record(&self, _: &Id, r: &Record<'_>) {
            r.record(&mut Sink(0));
        }
        fn record_follows_from(&self, _: &Id, _: &Id) {}
        fn event(&self, e: &Event<'_>) {
            e.record(&mut Sink(0));
            SEEN.fetch_add(1, Relaxed);
        }
        fn enter(&self, _: &Id) {}
        fn exit(&self, _: &Id) {}
    }
    pub fn install() {
        if cfg!(debug_assertions) {
            tracing::subscriber::set_global_default(All).expect("subscriber");
        }
    }
    /// The counters say how many inserts completed and report no anomaly.
    pub fn counters(inserts: u64) -> Result<(), String> {
        let c = masstree::get_all_debug_counters();
        masstree::reset_debug_counters();
        if c.wrong_leaf_insert + c.blink_advance_anomaly + c.blink_should_follow + c.parent_wait_hits > 0 {
            return Err(format!("an anomaly was counted: {c:?}"));
        }
        if c.locked_insert + c.cas_insert_success != inserts {
            return Err(format!("{} inserts were counted instead of {inserts}", c.locked_insert));
        }
        if masstree::get_all_debug_counters().locked_insert != 0 {
            return Err("the counters are not reset".into());
        }
        Ok(())
    }
}
#[cfg(feature = "traced")]
pub use on::*;
#[cfg(not(feature = "traced"))]
pub fn install() {}
#[cfg(not(feature = "traced"))]
pub fn counters(_: u64) -> Result<(), String> {
    Ok(())
}
