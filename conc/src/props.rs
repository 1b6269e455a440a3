//! Which scenarios, bounds and judgements decide which property.
use crate::exec::*;
use crate::pool::*;
use crate::scn;

fn reads_only(ops: &[Op]) -> bool {
    ops.iter().all(|o| match o {
        Op::Get(_) | Op::GetG(_) | Op::Ref(_) | Op::Len => true,
        Op::Ins(_) | Op::InsG(_) => false,
        Op::Hold(_, v) | Op::Guarded(v) => reads_only(v),
    })
}
fn writers(s: &Scn) -> usize {
    s.th.iter().filter(|t| !reads_only(t)).count()
}
fn is(s: &Scn, f: &[&str]) -> bool {
    f.contains(&s.fam)
}

struct Plan<'a> {
    all: &'a [Scn],
    checks: u32,
    races: bool,
    passes: Vec<Pass>,
}
impl Plan<'_> {
    fn add(&mut self, what: &str, pb: i32, stale: i32, sel: &dyn Fn(&Scn) -> bool, narrow: f64, wide: f64) {
        let jobs = self.all.iter().filter(|s| !is(s, LONG) && sel(s)).map(|s| Job { name: s.name.clone(), checks: self.checks, pb, stale, races: self.races, freeze: 0 }).collect();
        let w = if stale > 0 { format!("{what}, preemptions <= {pb}, stale reads <= {stale}") } else { format!("{what}, preemptions <= {pb}") };
        self.passes.push(Pass { what: w, jobs, narrow, wide });
    }
    /// how many threads are delayed: one or two
    fn delay(&mut self, many: i32, sel: &dyn Fn(&Scn) -> bool, narrow: f64, wide: f64) {
        let f = LONG[many as usize - 1];
        let jobs = self.all.iter().filter(|s| s.fam == f && sel(s)).map(|s| Job { name: s.name.clone(), checks: self.checks, pb: many, stale: 0, races: self.races, freeze: -many }).collect();
        let w = ["one operation", "two operations"][many as usize - 1];
        self.passes.push(Pass { what: format!("{w} delayed at every point across a long history"), jobs, narrow, wide });
    }
    /// the reader may also be preempted before; it is suspended where it has just written something
    fn late(&mut self, what: &str, pb: i32, sel: &dyn Fn(&Scn) -> bool, narrow: f64, wide: f64) {
        let k = self.passes.len();
        self.freeze(what, pb, sel, narrow, wide);
        let p = &mut self.passes[k];
        p.jobs.iter_mut().for_each(|j| j.freeze |= 8);
        p.what = format!("{what}, reader suspended after every write of its own, preemptions <= {pb}");
    }
    fn freeze(&mut self, what: &str, pb: i32, sel: &dyn Fn(&Scn) -> bool, narrow: f64, wide: f64) {
        let mut jobs = Vec::new();
        for s in self.all.iter().filter(|s| !is(s, LONG) && sel(s) && writers(s) > 0) {
            for (i, t) in s.th.iter().enumerate() {
                if reads_only(t) {
                    jobs.push(Job { name: s.name.clone(), checks: self.checks, pb, stale: 0, races: false, freeze: i as i32 + 1 });
                }
            }
        }
        self.passes.push(Pass { what: format!("{what}, reader suspended at every point, preemptions <= {pb}"), jobs, narrow, wide });
    }
}

const LONG: &[&str] = &["long", "long2"];
const SPLITS: &[&str] = &["rootsplit", "leafsplit", "layersplit", "moved", "pairs", "inode", "inode3", "slices"];

pub fn check(a: &[String]) -> i32 {
    let id = a[0].as_str();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let root = a.get(1).cloned().unwrap_or_else(|| "/verif".into());
    let all = scn::all();
    let mut p = Plan { all: &all, checks: 0, races: false, passes: vec![] };
    let named = |s: &Scn| !is(s, &["prog2", "prog3"]);
    // seconds per scenario: on one core, then on all
    let (n, w) = if thorough { (20.0, 120.0) } else { (4.0, 12.0) };
    let prog2 = |s: &Scn| is(s, &["prog2"]);
    let any = |_: &Scn| true;
    let two_w = |s: &Scn| writers(s) > 1;
    let brief = |s: &Scn| s.name.contains("/main/leaf/");
    let brief_w = |s: &Scn| s.name.contains("/main/leaf/") && s.th[..2].iter().all(|t| !reads_only(t));
    let in_layer = |s: &Scn| ["/sub/", "/layer/", "/chain/"].iter().any(|x| s.name.contains(x));
    let small = |s: &Scn| s.th.len() == 2 && is(s, &["leaf", "layer", "suffix", "held", "slices", "layersplit"]);
    // the sweep every property gets: its own judgement on everything, bound 2
    macro_rules! base {
        ($sel:expr) => {{
            p.add("named scenarios, two threads", 2, 0, &|s| named(s) && s.th.len() == 2 && s.fam != "inode3" && $sel(s), n, w);
            p.add("three threads", 1, 0, &|s| s.th.len() == 3 && $sel(s), n, w);
            p.add("two-thread programs", 2, 0, &|s| prog2(s) && $sel(s), n, w);
            p.add("three levels of internodes", 1, 0, &|s| s.fam == "inode3" && $sel(s), n, w);
        }};
    }
    macro_rules! deep {
        ($sel:expr) => {{
            if thorough {
                p.delay(2, &$sel, 10.0 * n, w);
                p.add("two threads", 3, 0, &|s| s.th.len() == 2 && $sel(s), n, w);
                p.add("three threads", 2, 0, &|s| s.th.len() == 3 && $sel(s), n, w);
                p.add("two threads", 4, 0, &|s| s.th.len() == 2 && $sel(s), n, w);
            }
        }};
    }
    match id {
        "C01" => {
            p.checks = LIN;
            base!(any);
            p.delay(1, &any, n, w);
            p.delay(2, &brief, n, w);
            p.add("operations inside one leaf or layer", 3, 0, &small, n, w);
            p.add("programs under weak memory", 1, 1, &|s| !named(s), n, w);
            deep!(any);
        }
        "C02" => {
            p.checks = LIN | AFTER;
            base!(two_w);
            p.delay(1, &two_w, n, w);
            p.delay(2, &brief_w, n, w);
            p.add("named scenarios", 3, 0, &|s| two_w(s) && s.th.len() == 2 && named(s) && !is(s, &["inode", "inode3"]), n, w);
            deep!(two_w);
        }
        "C03" => {
            p.checks = LIN;
            let sel = |s: &Scn| is(s, SPLITS) || ["/full/", "/fullupd/", "/room1/"].iter().any(|x| s.name.contains(x));
            p.add("splits of leaves and internodes", 2, 0, &|s| is(s, SPLITS) && s.th.len() == 2, n, w);
            p.add("three threads", 1, 0, &|s| sel(s) && s.th.len() == 3, n, w);
            p.delay(1, &any, n, w);
            p.add("splits with one writer", 3, 0, &|s| is(s, SPLITS) && writers(s) == 1 && !is(s, &["inode", "inode3"]), n, w);
            p.add("programs on a full leaf", 2, 0, &|s| prog2(s) && sel(s), n, w);
            p.add("internode splits with one writer", 3, 0, &|s| s.fam == "inode" && writers(s) == 1, n, w);
            deep!(sel);
        }
        "C04" => {
            p.checks = LIN | AFTER;
            let sel = |s: &Scn| is(s, &["layer", "layersplit", "moved", "pairs", "suffix", "held"]) || ["/conflict/", "/twin/", "/layer/", "/deep/", "/deepnew/", "/suffix/"].iter().any(|x| s.name.contains(x) && !named(s));
            p.add("layer creation and use", 2, 0, &|s| named(s) && sel(s), n, w);
            p.add("layer creation", 3, 0, &|s| is(s, &["layer"]), n, w);
            p.add("two-thread programs", 2, 0, &|s| prog2(s) && sel(s), n, w);
            p.add("three threads", 1, 0, &|s| s.th.len() == 3 && sel(s), n, w);
            p.delay(1, &in_layer, n, w);
            p.delay(2, &|s| s.name.contains("/layer/"), n, w);
            p.add("layer creation", 4, 0, &|s| is(s, &["layer"]) && s.th.len() == 2, n, w);
            deep!(sel);
            if thorough {
                p.add("layer creation", 5, 0, &|s| is(s, &["layer"]), n, w);
            }
        }
        "C05" => {
            base!(any);
            p.delay(1, &any, n, w);
            p.delay(2, &brief, n, w);
            p.add("borrowed references", 4, 0, &|s| is(s, &["held"]), n, w);
            p.add("values replaced or moved while read", 3, 0, &small, n, w);
            deep!(any);
        }
        "C06" => {
            p.races = true;
            base!(any);
            p.delay(1, &any, n, w);
            p.add("operations inside one leaf or layer", 3, 0, &small, n, w);
            deep!(any);
            if thorough {
                p.add("named scenarios under weak memory", 2, 1, &named, n, w);
            }
        }
        "C07" => {
            base!(any);
            p.delay(1, &any, n, w);
            p.delay(2, &brief, n, w);
            p.add("named scenarios with two writers", 3, 0, &|s| two_w(s) && s.th.len() == 2 && named(s) && s.fam != "inode3", n, w);
            deep!(any);
        }
        "C08" => {
            p.checks = LIN;
            p.freeze("two-thread programs with a reader", 2, &prog2, n, w);
            p.late("three-thread programs with two writers", 2, &|s| s.fam == "prog3" && writers(s) == 2 && ["/one/", "/room1/", "/layer/", "/suffix/"].iter().any(|x| s.name.contains(x)), n, w);
            p.freeze("named scenarios with a reader", 2, &|s| named(s) && s.fam != "inode3", n, w);
            p.late("named scenarios with a reader", 2, &|s| named(s) && s.fam != "inode3", n, w);
            p.freeze("two-thread programs with a reader", 3, &prog2, n, w);
            p.freeze("named scenarios with a reader", 3, &|s| named(s) && s.fam != "inode3", n, w);
            p.freeze("three-thread programs with a reader", 2, &|s| s.fam == "prog3", n, w);
            if thorough {
                p.freeze("every scenario with a reader", 3, &any, n, w);
                p.freeze("every scenario with a reader", 4, &any, n, w);
            }
        }
        "C09" | "C10" => {
            p.checks = if id == "C09" { LEN } else { DROP };
            base!(any);
            p.delay(1, &any, n, w);
            p.delay(2, &brief_w, n, w);
            p.add("named scenarios with two writers", 3, 0, &|s| two_w(s) && s.th.len() == 2 && named(s) && !is(s, &["inode", "inode3"]), n, w);
            deep!(any);
        }
        "C11" => {
            p.checks = CHAIN;
            base!(two_w);
            p.delay(1, &two_w, n, w);
            p.delay(2, &brief_w, n, w);
            p.add("two or more writers", 3, 0, &|s| two_w(s) && small(s), n, w);
            p.add("two-thread programs on small trees", 3, 0, &|s| prog2(s) && two_w(s) && !["/full", "/room1"].iter().any(|x| s.name.contains(x)), n, w);
            deep!(two_w);
        }
        "C12" => {
            p.checks = LIN;
            p.add("named scenarios", 1, 1, &|s| named(s) && s.fam != "inode3", n, w);
            p.add("programs", 1, 1, &|s| !named(s), n, w);
            p.add("operations inside one leaf or layer, layer splits and two-thread programs", 1, 2, &|s| small(s) || is(s, &["layersplit", "moved", "pairs"]) || prog2(s), n, w);
            p.add("named scenarios", 2, 1, &|s| named(s) && s.th.len() == 2 && !is(s, &["inode", "inode3"]), n, w);
            if thorough {
                p.add("every scenario and program", 2, 1, &any, n, w);
                p.add("every scenario and program", 1, 2, &any, n, w);
                p.add("every scenario and program", 2, 2, &any, n, w);
            }
        }
        _ => {
            eprintln!("no such property: {id}");
            return 3;
        }
    }
    let o = Opts {
        prop: id.into(),
        tier: tier.clone(),
        root,
        budget: std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 1500.0 } else if id == "C12" { 180.0 } else if id == "C08" { 120.0 } else { 55.0 }),
        assumptions: vec![
            "two or three threads, one to fifteen operations each, starting trees of 0 to 1848 keys as listed in conc/src/scn.rs".into(),
            "scheduling points before every atomic operation and mutex acquisition of the tree; preemption-bounded as stated per pass".into(),
            "interleaving semantics; older values only in passes that say 'stale reads'".into(),
            "seize is replaced by a stand-in that frees retired objects as early as its contract allows; parking_lot and portable-atomic by instrumented stand-ins with the same interface".into(),
            "x86-64 build with debug assertions; values are Arc-stored tracked objects, every fifth named scenario also with inline u64 values".into(),
        ],
        rule: "a case is one complete execution of a scenario; distinct_nontrivial counts the distinct vectors of operation results in scenarios that have more than one".into(),
    };
    crate::pool::check(&o, p.passes)
}

/// dev [filter] pb=N stale=N races=N checks=N freeze=N secs=S wide=S
pub fn dev(a: &[String]) -> i32 {
    let arg = |n: &str, d: f64| a.iter().find_map(|s| s.strip_prefix(&format!("{n}=")).map(|v| v.parse().unwrap())).unwrap_or(d);
    let f = a.first().filter(|s| !s.contains('=')).cloned().unwrap_or_default();
    let all = scn::all();
    let jobs: Vec<Job> = all
        .iter()
        .filter(|s| s.name.contains(&f))
        .map(|s| Job { name: s.name.clone(), checks: arg("checks", 31.0) as u32, pb: arg("pb", 2.0) as i32, stale: arg("stale", 0.0) as i32, races: arg("races", 0.0) > 0.0, freeze: arg("freeze", 0.0) as i32 })
        .collect();
    let t = std::time::Instant::now();
    let dl = t + std::time::Duration::from_secs(36000);
    let mut outs = run(&jobs, arg("secs", 5.0), dl, false, &|_, _| false);
    let redo: Vec<usize> = (0..outs.len()).filter(|&i| outs[i].capped).collect();
    let rj: Vec<Job> = redo.iter().map(|&i| jobs[i].clone()).collect();
    println!("narrow: {:.1} s, {} to redo", t.elapsed().as_secs_f64(), redo.len());
    if arg("wide", 20.0) > 0.0 {
        for (k, o) in run(&rj, arg("wide", 20.0), dl, true, &|_, _| false).into_iter().enumerate() {
            outs[redo[k]] = o;
        }
    }
    let mut tot = Out::default();
    for (j, o) in jobs.iter().zip(&outs) {
        if arg("quiet", 0.0) == 0.0 || o.capped || o.bad || !o.viols.is_empty() {
            println!("{:34} execs {} steps {} nodes {} outcomes {} pruned {} max {} wall {:.2}{}{}", j.name, o.execs, o.steps, o.nodes, o.outcomes, o.pruned, o.max_steps, o.wall, if o.capped { " CAPPED" } else { "" }, if o.bad { " BAD" } else { "" });
        }
        for v in &o.viols {
            println!("   *** {} {} {:?}", v.kind, v.msg, v.devs);
        }
        tot.execs += o.execs;
        tot.steps += o.steps;
        tot.nodes += o.nodes;
    }
    println!("{} scenarios, {} executions, {} steps, {} nodes, {:.1} s", jobs.len(), tot.execs, tot.steps, tot.nodes, t.elapsed().as_secs_f64());
    0
}
