//! Enumerates bounded spaces of sequential histories on the real map and compares with a sorted map.
mod case;
mod fams;
mod heap;
mod traced;
use case::*;
use fams::*;
use std::collections::{HashSet, VecDeque};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::fs::FileExt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const HANG_SECS: u64 = 25;
static NOW: AtomicU64 = AtomicU64::new(u64::MAX);

fn exec(f: &Fam, i: u64, st: &mut Stats) -> Result<(), Bad> {
    let c = (f.f)(i);
    let before = st.ops;
    match f.exec {
        Exec::Map => {
            run(&c, st)?;
            traced::counters(st.ops - before).or_else(|e| bad("counters", e))
        }
        Exec::Owned => {
            run_owned(&c, st)?;
            traced::counters(st.ops - before).or_else(|e| bad("counters", e))
        }
        Exec::Heap => {
            st.cases += 1;
            st.ops += (c.start.len() + c.ops.len()) as u64;
            heap_neutral(&c)
        }
    }
}
fn warm() {
    traced::install();
    let c = Case { kind: 0, api: 0, start: std::rc::Rc::new((0..100).map(k8).collect()), ops: vec![], step: Default::default(), end: Default::default(), all: false };
    for k in [0, 1, 2, 9, 18] {
        let _ = run(&Case { kind: k, ..c.clone() }, &mut Stats::default());
    }
    let _ = std::panic::catch_unwind(|| panic!("warm-up"));
    let _ = traced::counters(0);
}

/// Reads "family lo hi" lines, answers with statistics and the first violation.
fn worker(id: &str, thorough: bool, progress: &str) {
    quiet_panics();
    let fams = plan(id, thorough);
    LEN_ONLY.store(id == "M04", Relaxed);
    warm();
    let pf = std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(progress).expect("progress file");
    std::thread::spawn(|| {
        let mut last = (u64::MAX, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let n = NOW.load(Relaxed);
            if n != last.0 || n == u64::MAX {
                last = (n, Instant::now());
            } else if last.1.elapsed().as_secs() > HANG_SECS {
                std::process::exit(77);
            }
        }
    });
    let mut seen: HashSet<u64> = HashSet::new();
    let mut fam = usize::MAX;
    for l in std::io::stdin().lock().lines().map_while(Result::ok) {
        let w: Vec<u64> = l.split(' ').map(|x| x.parse().unwrap()).collect();
        let f = &fams[w[0] as usize];
        if fam != w[0] as usize {
            fam = w[0] as usize;
            seen.clear();
        }
        let mut st = Stats::default();
        let mut hit = None;
        let mut i = w[1];
        while i < w[2] {
            pf.write_at(&i.to_le_bytes(), 0).ok();
            NOW.store(i, Relaxed);
            if let Err(b) = exec(f, i, &mut st) {
                if counts(id, b.kind) {
                    hit = Some((i, b));
                    break;
                }
            }
            i += 1;
        }
        NOW.store(u64::MAX, Relaxed);
        let fresh: Vec<String> = st.states.drain().filter(|h| seen.insert(*h)).map(|h| format!("{h:x}")).collect();
        let v = hit.map_or("-\t-\t-".into(), |(i, b)| format!("{i}\t{}\t{}", b.kind, b.msg.replace(['\t', '\n'], " ")));
        println!("{}\t{}\t{}\t{v}\t{}", st.cases, st.ops, st.reads, fresh.join(","));
    }
}

struct Found {
    build: usize,
    fam: usize,
    case: u64,
    kind: String,
    msg: String,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    match a.get(1).map(String::as_str) {
        Some("--worker") => worker(&a[2], a[3] == "thorough", &a[4]),
        Some("--one") => {
            // --one ID tier FAMILY CASE
            quiet_panics();
            warm();
            LEN_ONLY.store(a[2] == "M04", Relaxed);
            let fams = plan(&a[2], a[3] == "thorough");
            let f = fams.iter().find(|f| f.name == a[4]).expect("family");
            let i: u64 = a[5].parse().unwrap();
            let c = (f.f)(i);
            println!("family {}: {}", f.name, f.what);
            println!("case {i}: map kind {}, api {}, {} starting keys", c.kind, c.api, c.start.len());
            for k in c.start.iter().take(400) {
                println!("  start insert {}", show(k));
            }
            for o in &c.ops {
                match o {
                    Op::Ins(k) => println!("  insert {}", show(k)),
                    Op::Bad(k) => println!("  over-long {}", show(k)),
                }
            }
            std::io::stdout().flush().ok();
            match exec(f, i, &mut Stats::default()) {
                Ok(()) => println!("held"),
                Err(b) => {
                    println!("{}: {}", b.kind, b.msg);
                    std::process::exit(i32::from(counts(&a[2], b.kind)));
                }
            }
        }
        Some("check") => std::process::exit(check(&a[2], thorough, a.get(3).map_or("/verif", |s| s))),
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).expect("replay file");
            let g = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string()).unwrap_or_default();
            let s = Command::new(exe(&g("property "), g("build ").parse().unwrap_or(0))).args(["--one", &g("property "), &g("tier "), &g("family "), &g("case ")]).status().unwrap();
            std::process::exit(if s.success() { 0 } else { 1 });
        }
        _ => {
            eprintln!("usage: mcseq check ID ROOT | replay FILE");
            std::process::exit(3);
        }
    }
}

/// Runs one case in a process of its own: did it end well?
fn confirm(build: usize, id: &str, tier: &str, fam: &str, case: u64) -> bool {
    let mut c = Command::new(exe(id, build)).args(["--one", id, tier, fam, &case.to_string()]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    let t = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(s)) => return s.success(),
            _ if t.elapsed().as_secs() > HANG_SECS => {
                c.kill().ok();
                c.wait().ok();
                return false;
            }
            _ => std::thread::sleep(Duration::from_millis(20)),
        }
    }
}

/// This program, or a twin: without debug assertions and overflow checks, or with the tracing feature.
fn exe(id: &str, build: usize) -> std::path::PathBuf {
    let me = std::env::current_exe().unwrap();
    let d = me.parent().unwrap().parent().unwrap();
    d.join(if id == "M08" { ["traced/release", "traced/plain"] } else { ["release", "plain"] }[build]).join(me.file_name().unwrap())
}
fn builds(id: &str) -> [&str; 2] {
    if id == "M08" {
        ["with the tracing feature, debug assertions and every event looked at", "with the tracing feature, without debug assertions, nobody listening"]
    } else {
        ["with debug assertions", "without debug assertions"]
    }
}

fn js(s: &str) -> String {
    format!("\"{}\"", s.chars().map(|c| match c { '"' => "\\\"".into(), '\\' => "\\\\".into(), c if (c as u32) < 32 => " ".into(), c => c.to_string() }).collect::<String>())
}

fn check(id: &str, thorough: bool, root: &str) -> i32 {
    let tier = if thorough { "thorough" } else { "quick" };
    let t0 = Instant::now();
    let budget = if thorough { 1500.0 } else { 75.0 };
    let deadline = t0 + Duration::from_secs_f64(budget);
    let fams = plan(id, thorough);
    if fams.is_empty() {
        println!("unknown property {id}");
        return 3;
    }
    let known: Vec<(String, String, String)> = std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default().lines().filter_map(|l| {
        let r = l.strip_prefix("known: ")?;
        let g = |k: &str| r.split(' ').find_map(|w| w.strip_prefix(k)).map(str::to_string);
        (g("property=")? == id).then(|| Some((g("scenario=")?, g("kind=")?, r.to_string())))?
    }).collect();
    let nw = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
    let mut q: VecDeque<(usize, u64, u64)> = VecDeque::new();
    let nf = fams.len();
    let labels = builds(id);
    for b in 0..labels.len() {
        for (j, f) in fams.iter().enumerate() {
            let step = (f.n / 400).clamp(1, 50_000);
            let mut lo = 0;
            while lo < f.n {
                q.push_back((b * nf + j, lo, (lo + step).min(f.n)));
                lo += step;
            }
        }
    }
    struct Sh {
        q: VecDeque<(usize, u64, u64)>,
        stats: Vec<(u64, u64, u64)>,
        states: Vec<HashSet<u64>>,
        found: Vec<Found>,
        err: Option<String>,
        stop: bool,
    }
    let sh = Mutex::new(Sh { q, stats: vec![(0, 0, 0); 2 * nf], states: vec![HashSet::new(); nf], found: vec![], err: None, stop: false });
    let names: Vec<String> = fams.iter().map(|f| f.name.clone()).collect();
    let is_known = |f: &str, c: u64, k: &str| known.iter().any(|(s, kk, _)| *s == format!("{f}#{c}") && kk == k);
    let tmp = std::env::temp_dir();
    std::thread::scope(|sc| {
        for w in 0..nw {
            let (sh, names, is_known, tmp) = (&sh, &names, &is_known, &tmp);
            sc.spawn(move || {
                let pf = tmp.join(format!("mcseq.{}.{w}", std::process::id()));
                let mut left: Option<(usize, u64, u64)> = None;
                let mut build = 0;
                'proc: loop {
                    let mut c = Command::new(exe(id, build)).args(["--worker", id, tier]).arg(&pf).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("worker");
                    let mut inp = c.stdin.take().unwrap();
                    let mut out = BufReader::new(c.stdout.take().unwrap());
                    loop {
                        let job = left.take().or_else(|| {
                            let mut s = sh.lock().unwrap();
                            if s.stop || Instant::now() > deadline { None } else { s.q.pop_front() }
                        });
                        let Some((bf, lo, hi)) = job else { break };
                        if bf / nf != build {
                            build = bf / nf;
                            left = job;
                            drop(inp);
                            let _ = c.wait();
                            continue 'proc;
                        }
                        let f = bf % nf;
                        let mut l = String::new();
                        let ok = writeln!(inp, "{f} {lo} {hi}").is_ok() && inp.flush().is_ok() && out.read_line(&mut l).is_ok_and(|n| n > 0) && l.ends_with('\n');
                        let x: Vec<&str> = l.trim_end_matches('\n').split('\t').collect();
                        if !ok || x.len() < 7 {
                            // the worker died: which case was it?
                            let st = c.wait().ok();
                            let i = std::fs::read(&pf).ok().and_then(|b| b.try_into().ok()).map_or(lo, u64::from_le_bytes);
                            let hang = st.and_then(|s| s.code()) == Some(77);
                            let mut s = sh.lock().unwrap();
                            let kind = if hang { "hang" } else { "crash" };
                            if is_known(&names[f], i, kind) {
                                s.found.push(Found { build, fam: f, case: i, kind: kind.into(), msg: String::new() });
                                if i + 1 < hi { left = Some((bf, i + 1, hi)); }
                                continue 'proc;
                            }
                            drop(s);
                            if confirm(build, id, tier, &names[f], i) {
                                let mut s = sh.lock().unwrap();
                                s.err = Some(format!("a worker ended ({st:?}) in {} case {i}, which is fine on its own", names[f]));
                                s.stop = true;
                            } else {
                                let mut s = sh.lock().unwrap();
                                s.found.push(Found { build, fam: f, case: i, kind: kind.into(), msg: if hang { "the operation did not finish".into() } else { format!("the process ended abnormally: {st:?}") } });
                                s.stop = true;
                            }
                            break 'proc;
                        }
                        let n = |i: usize| x[i].parse::<u64>().unwrap_or(0);
                        let mut s = sh.lock().unwrap();
                        s.stats[bf].0 += n(0);
                        s.stats[bf].1 += n(1);
                        s.stats[bf].2 += n(2);
                        for h in x[6].split(',').filter(|h| !h.is_empty()) {
                            s.states[f].insert(u64::from_str_radix(h, 16).unwrap_or(0));
                        }
                        if x[3] != "-" {
                            let i = n(3);
                            let kn = is_known(&names[f], i, x[4]);
                            s.found.push(Found { build, fam: f, case: i, kind: x[4].into(), msg: x[5].into() });
                            if kn {
                                if i + 1 < hi { left = Some((bf, i + 1, hi)); }
                            } else {
                                s.stop = true;
                            }
                        }
                    }
                    drop(inp);
                    let _ = c.wait();
                    break;
                }
                let _ = std::fs::remove_file(&pf);
            });
        }
    });
    let s = sh.into_inner().unwrap();
    let mut info = Vec::new();
    let (mut cases, mut ops, mut reads, mut states) = (0, 0, 0, 0u64);
    let mut all = true;
    for (j, f) in fams.iter().enumerate() {
        let done: Vec<u64> = (0..labels.len()).map(|b| s.stats[b * nf + j].0).collect();
        for b in 0..labels.len() {
            let st = s.stats[b * nf + j];
            cases += st.0;
            ops += st.1;
            reads += st.2;
        }
        states += s.states[j].len() as u64;
        let complete = done.iter().all(|&d| d == f.n);
        all &= complete;
        let l = format!("{}: {}+{} of {} cases ({}+{}{}): {}", f.name, done[0], done[1], f.n, labels[0], labels[1], if complete { ", complete" } else { "" }, f.what);
        println!("{id} {l}");
        info.push(l);
    }
    let wall = t0.elapsed().as_secs_f64();
    let unlisted: Vec<&Found> = s.found.iter().filter(|f| !is_known(&names[f.fam], f.case, &f.kind)).collect();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut samples = Vec::new();
    for f in fams.iter().take(4) {
        let c = (f.f)(f.n / 2);
        let o: Vec<String> = c.ops.iter().take(6).map(|o| match o { Op::Ins(k) => format!("insert {}", show(k)), Op::Bad(k) => format!("over-long {}", show(k)) }).collect();
        samples.push(format!("{} case {}: {} starting keys, then {}", f.name, f.n / 2, c.start.len(), o.join(", ")));
    }
    let l = |v: &[String]| v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{seed},\"level\":\"model_checking\",\"coverage\":{{\"states\":{states},\"transitions\":{ops},\"traces_validated_against_impl\":{cases},\"evaluations\":{},\"distinct_nontrivial\":{states},\"rule\":{},\"exhaustive\":{},\"passes\":[{}],\"samples\":[{}]}},\"assumptions\":[{}],\"wall_s\":{wall:.2},\"violations\":{}}}\n",
        js(id), js(tier), reads + ops,
        js("states: distinct map contents (per family and map type) the real map was driven through and compared in; transitions: inserts executed on the real map; evaluations: results compared with the sorted-map oracle; every case of every listed family is executed, none is sampled"),
        all && unlisted.is_empty(), l(&info), l(&samples),
        l(&["keys and maps outside the listed families are not covered".to_string(), format!("every case runs in two builds: {}, and {}", labels[0], labels[1])]), unlisted.len()
    );
    let _ = std::fs::create_dir_all(format!("{root}/evidence/replay"));
    std::fs::write(format!("{root}/evidence/{id}.json"), ev).expect("evidence");
    for f in s.found.iter().filter(|f| is_known(&names[f.fam], f.case, &f.kind)) {
        println!("KNOWN-FINDING: property={id} {} case {} {}", names[f.fam], f.case, f.msg);
    }
    if let Some(f) = unlisted.first() {
        let path = format!("{root}/evidence/replay/{id}.txt");
        std::fs::write(&path, format!("property {id}\ntier {tier}\nbuild {}\nfamily {}\ncase {}\nkind {}\nmessage {}\n", f.build, names[f.fam], f.case, f.kind, f.msg)).expect("replay file");
        println!("{id}: {} in {} case {}, built {}: {}", f.kind, names[f.fam], f.case, labels[f.build], f.msg);
        println!("VIOLATION property={id} replay={path}");
        return 1;
    }
    if let Some(e) = s.err {
        println!("error: {e}");
        return 3;
    }
    println!("{id}: held on {cases} cases ({ops} inserts, {reads} reads) in {wall:.1} s");
    0
}
