//! Runs exploration jobs on worker processes, turns violations into replay files, writes evidence.
use crate::model::{callbacks, Model};
use crate::ffi::*;
use std::collections::{BTreeMap, VecDeque};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

pub type Mk = dyn Fn(&str, u32) -> Option<Box<dyn Model>>;

#[derive(Clone, Debug)]
pub struct Job {
    pub name: String,
    pub checks: u32,
    pub pb: i32,
    pub stale: i32,
    pub races: bool,
    pub freeze: i32,
}
#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: String,
    pub msg: String,
    pub devs: Vec<(i32, i32)>,
}
#[derive(Clone, Debug, Default)]
pub struct Out {
    pub execs: u64,
    pub steps: u64,
    pub nodes: u64,
    pub outcomes: u64,
    pub pruned: u64,
    pub capped: bool,
    pub bad: bool,
    pub wall: f64,
    pub max_steps: u64,
    pub viols: Vec<Viol>,
}

pub fn worker(mk: &Mk) {
    let stdin = std::io::stdin();
    let mut line = String::new();
    loop {
        line.clear();
        if stdin.lock().read_line(&mut line).unwrap_or(0) == 0 {
            return;
        }
        let f: Vec<&str> = line.trim_end().split('\t').collect();
        let n = |i: usize| f[i].parse::<i32>().unwrap();
        let mut r = Res::default();
        let mut vs = Vec::new();
        match mk(f[0], n(1) as u32) {
            None => r.error = 9,
            Some(mut m) => {
                let nt = m.threads() as i32;
                let cb = callbacks(&mut m);
                unsafe {
                    mc_set_races(n(4));
                    mc_set_cpu(n(7));
                    mc_explore(&cb, nt, n(2), n(3), n(5), f[6].parse().unwrap(), n(8), &mut r);
                }
                if r.error == 0 && r.diverged == 0 {
                    // a violation counts only if the same schedule shows it again
                    for (k, msg, d) in viols() {
                        vs.push((k, msg, d));
                    }
                    let mut keep = Vec::new();
                    for (k, msg, d) in vs.drain(..) {
                        let (s, al): (Vec<i32>, Vec<i32>) = d.iter().copied().unzip();
                        let mut r2 = Res::default();
                        unsafe { mc_replay(&cb, nt, n(5), s.as_ptr(), al.as_ptr(), s.len() as i32, 0, &mut r2) };
                        if r2.nviol == 0 {
                            eprintln!("{}: violation {k} does not replay: {msg}", f[0]);
                            r.diverged += 1;
                        } else {
                            keep.push((k, msg, d));
                        }
                    }
                    vs = keep;
                }
            }
        }
        let mut o = format!("R\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\n", r.execs, r.steps, r.nodes, r.outcomes, r.pruned, r.capped, r.error, r.diverged, r.wall, r.max_steps, vs.len());
        for (k, msg, d) in vs {
            let ds: Vec<String> = d.iter().map(|(s, a)| format!("{s}:{a}")).collect();
            o += &format!("V\t{k}\t{}\t{}\n", msg.replace(['\t', '\n'], " "), ds.join(","));
        }
        let mut so = std::io::stdout().lock();
        so.write_all(o.as_bytes()).unwrap();
        so.flush().unwrap();
    }
}

struct State {
    q: VecDeque<usize>,
    done: Vec<Option<Out>>,
    stop: bool,
    dead: bool,
}

/// Runs all jobs; each gets `cap` seconds, nothing starts after `deadline`. Jobs not started come back `capped`.
pub fn run(jobs: &[Job], cap: f64, deadline: Instant, wide: bool, stop_on: &(dyn Fn(&Job, &Viol) -> bool + Sync)) -> Vec<Out> {
    let ncpu = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
    let nw = if wide { 1 } else { ncpu };
    let st = Mutex::new(State { q: (0..jobs.len()).collect(), done: vec![None; jobs.len()], stop: false, dead: false });
    let cv = Condvar::new();
    std::thread::scope(|sc| {
        for w in 0..nw {
            let st = &st;
            let cv = &cv;
            sc.spawn(move || {
                let mut c = Command::new(std::env::current_exe().unwrap())
                    .arg("--worker")
                    .stdin(Stdio::piped())
                    .stdout(Stdio::piped())
                    .spawn()
                    .expect("spawn worker");
                let mut inp = c.stdin.take().unwrap();
                let mut out = BufReader::new(c.stdout.take().unwrap());
                loop {
                    let i = {
                        let mut s = st.lock().unwrap();
                        if s.stop || s.dead {
                            break;
                        }
                        match s.q.pop_front() {
                            Some(i) => i,
                            None => break,
                        }
                    };
                    let left = deadline.saturating_duration_since(Instant::now()).as_secs_f64();
                    if left <= 0.0 {
                        st.lock().unwrap().done[i] = Some(Out { capped: true, ..Out::default() });
                        continue;
                    }
                    let j = &jobs[i];
                    let r = (|| -> Option<Out> {
                        writeln!(inp, "{}\t{}\t{}\t{}\t{}\t{}\t{:.2}\t{}\t{}", j.name, j.checks, j.pb, j.stale, j.races as i32, j.freeze, cap.min(left), w, if wide { ncpu } else { 1 }).ok()?;
                        inp.flush().ok()?;
                        let mut l = String::new();
                        if out.read_line(&mut l).ok()? == 0 {
                            return None;
                        }
                        let f: Vec<&str> = l.trim_end().split('\t').collect();
                        let g = |i: usize| f[i].parse::<u64>().ok();
                        let mut o = Out {
                            execs: g(1)?,
                            steps: g(2)?,
                            nodes: g(3)?,
                            outcomes: g(4)?,
                            pruned: g(5)?,
                            capped: g(6)? != 0,
                            bad: g(7)? != 0 || g(8)? != 0,
                            wall: f[9].parse().ok()?,
                            max_steps: g(10)?,
                            viols: vec![],
                        };
                        for _ in 0..g(11)? {
                            l.clear();
                            out.read_line(&mut l).ok()?;
                            let f: Vec<&str> = l.trim_end_matches('\n').split('\t').collect();
                            let devs = f[3].split(',').filter(|s| !s.is_empty()).map(|s| s.split_once(':').unwrap()).map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())).collect();
                            o.viols.push(Viol { kind: f[1].into(), msg: f[2].into(), devs });
                        }
                        Some(o)
                    })();
                    let mut s = st.lock().unwrap();
                    match r {
                        Some(o) => {
                            if o.viols.iter().any(|v| stop_on(j, v)) {
                                s.stop = true;
                            }
                            s.done[i] = Some(o);
                        }
                        None => {
                            eprintln!("worker died on {}", j.name);
                            s.dead = true;
                            s.done[i] = Some(Out { bad: true, ..Out::default() });
                        }
                    }
                    cv.notify_all();
                }
                drop(inp);
                let _ = c.wait();
            });
        }
    });
    let mut s = st.into_inner().unwrap();
    let stopped = s.stop || s.dead;
    s.done.drain(..).map(|o| o.unwrap_or(Out { capped: !stopped, ..Out::default() })).collect()
}

pub fn write_replay(path: &str, prop: &str, j: &Job, v: &Viol) {
    let d: Vec<String> = v.devs.iter().map(|(s, a)| format!("{s}:{a}")).collect();
    let t = format!(
        "property {prop}\nscenario {}\nchecks {}\nstale {}\nraces {}\nfreeze {}\nschedule {}\nkind {}\nmessage {}\n",
        j.name, j.checks, j.stale, j.races as i32, j.freeze, d.join(","), v.kind, v.msg
    );
    if let Some(p) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(p);
    }
    std::fs::write(path, t).expect("write replay file");
}
pub fn replay(path: &str, mk: &Mk) -> i32 {
    let t = std::fs::read_to_string(path).expect("replay file");
    let f: BTreeMap<&str, &str> = t.lines().filter_map(|l| l.split_once(' ')).collect();
    let n = |k: &str| f.get(k).map_or(0, |v| v.trim().parse::<i32>().unwrap());
    let devs: Vec<(i32, i32)> = f.get("schedule").unwrap_or(&"").split(',').filter_map(|s| s.trim().split_once(':')).map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())).collect();
    let (s, al): (Vec<i32>, Vec<i32>) = devs.iter().copied().unzip();
    let mut m = mk(f["scenario"], n("checks") as u32).expect("scenario");
    let nt = m.threads() as i32;
    let cb = callbacks(&mut m);
    let mut r = Res::default();
    unsafe {
        mc_set_races(n("races"));
        mc_replay(&cb, nt, n("freeze"), s.as_ptr(), al.as_ptr(), s.len() as i32, 1, &mut r);
    }
    for (k, msg, _) in viols() {
        println!("{k}: {msg}");
    }
    println!("replayed {path}: {} violation(s)", r.nviol);
    if r.error != 0 || r.diverged != 0 {
        3
    } else {
        (r.nviol > 0) as i32
    }
}

// ------------------------------------------------------------------------------------------------
// checks
// ------------------------------------------------------------------------------------------------
/// One sweep over scenarios with one bound.
pub struct Pass {
    pub what: String,
    pub jobs: Vec<Job>,
    /// seconds one scenario may take on one core before it is redone on all of them
    pub narrow: f64,
    /// seconds it may take on all cores
    pub wide: f64,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o + "\""
}

pub struct Known {
    prop: String,
    scenario: String,
    kind: String,
    text: String,
}
/// lines `known: property=ID scenario=NAME kind=KIND text`
pub fn known(file: &str) -> Vec<Known> {
    let mut v = Vec::new();
    for l in std::fs::read_to_string(file).unwrap_or_default().lines() {
        let Some(r) = l.strip_prefix("known: ") else { continue };
        let mut k = Known { prop: String::new(), scenario: String::new(), kind: String::new(), text: String::new() };
        for w in r.split(' ') {
            if let Some(x) = w.strip_prefix("property=") {
                k.prop = x.into()
            } else if let Some(x) = w.strip_prefix("scenario=") {
                k.scenario = x.into()
            } else if let Some(x) = w.strip_prefix("kind=") {
                k.kind = x.into()
            } else {
                k.text += w;
                k.text += " ";
            }
        }
        v.push(k);
    }
    v
}

pub struct Opts {
    pub prop: String,
    pub tier: String,
    pub root: String,
    pub budget: f64,
    pub assumptions: Vec<String>,
    /// violation kinds that mean the machinery failed, not the property
    pub rule: String,
}

/// Runs the passes in order and reports. Exit code 0 held, 1 violated, 3 could not decide.
pub fn check(o: &Opts, passes: Vec<Pass>) -> i32 {
    let t0 = Instant::now();
    let deadline = t0 + std::time::Duration::from_secs_f64(o.budget);
    let known: Vec<Known> = known(&format!("{}/known_findings.txt", o.root)).into_iter().filter(|k| k.prop == o.prop).collect();
    let is_known = |j: &Job, v: &Viol| known.iter().any(|k| k.scenario == j.name && k.kind == v.kind);
    let harness = |v: &Viol| v.kind.starts_with("harness");
    let mut tot = Out::default();
    let mut nontrivial = 0u64;
    let mut passinfo = Vec::new();
    let mut samples = Vec::new();
    let mut found: Vec<(Job, Viol)> = Vec::new();
    let mut bad = false;
    let mut all_complete = true;
    for p in passes {
        if bad || found.iter().any(|(j, v)| !is_known(j, v)) {
            break;
        }
        if p.jobs.is_empty() {
            println!("error: no scenario for pass {}", p.what);
            bad = true;
            break;
        }
        let pt = Instant::now();
        let stop = |j: &Job, v: &Viol| !is_known(j, v);
        let mut outs = run(&p.jobs, p.narrow, deadline, false, &stop);
        let mut hit = outs.iter().any(|x| x.bad) || outs.iter().zip(&p.jobs).any(|(x, j)| x.viols.iter().any(|v| stop(j, v)));
        // what did not finish on one core gets all of them
        let redo: Vec<usize> = (0..outs.len()).filter(|&i| outs[i].capped).collect();
        if !hit && !redo.is_empty() && p.wide > 0.0 {
            let jobs: Vec<Job> = redo.iter().map(|&i| p.jobs[i].clone()).collect();
            for (k, x) in run(&jobs, p.wide, deadline, true, &stop).into_iter().enumerate() {
                if x.execs > 0 || x.bad {
                    outs[redo[k]] = x;
                }
            }
            hit = true;
        }
        let _ = hit;
        let (mut ex, mut done, mut cap) = (0, 0, 0);
        for (x, j) in outs.iter().zip(&p.jobs) {
            ex += x.execs;
            tot.execs += x.execs;
            tot.steps += x.steps;
            tot.nodes += x.nodes;
            tot.pruned += x.pruned;
            tot.outcomes += x.outcomes;
            tot.max_steps = tot.max_steps.max(x.max_steps);
            if x.outcomes > 1 {
                nontrivial += x.outcomes;
            }
            bad |= x.bad;
            if x.capped {
                cap += 1
            } else if x.execs > 0 {
                done += 1
            }
            for v in &x.viols {
                if harness(v) {
                    println!("error: {}: {}: {}", j.name, v.kind, v.msg);
                    bad = true;
                } else {
                    found.push((j.clone(), v.clone()));
                }
            }
        }
        let mut best: Vec<usize> = (0..outs.len()).collect();
        best.sort_by_key(|&i| std::cmp::Reverse(outs[i].outcomes));
        for &i in best.iter().take(2) {
            let (x, j) = (&outs[i], &p.jobs[i]);
            samples.push(format!("{}: scenario {}: {} executions, {} distinct outcomes, longest {} atomic steps", p.what, j.name, x.execs, x.outcomes, x.max_steps));
        }
        if cap > 0 {
            all_complete = false;
        }
        let line = format!("{}: {} scenarios, {done} explored completely, {cap} stopped by the time cap, {ex} executions, {:.1} s", p.what, p.jobs.len(), pt.elapsed().as_secs_f64());
        println!("{} {line}", o.prop);
        passinfo.push(line);
    }
    let wall = t0.elapsed().as_secs_f64();
    let unlisted: Vec<&(Job, Viol)> = found.iter().filter(|(j, v)| !is_known(j, v)).collect();
    let jsl = |v: &[String]| v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{seed},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"evaluations\":{},\"distinct_nontrivial\":{nontrivial},\"rule\":{},\"exhaustive\":{},\"pruned_equivalent\":{},\"longest_execution_steps\":{},\"passes\":[{}],\"samples\":[{}]}},\"assumptions\":[{}],\"wall_s\":{wall:.2},\"violations\":{}}}\n",
        js(&o.prop), js(&o.tier), tot.nodes, tot.steps, tot.execs, tot.execs, js(&o.rule), all_complete && !bad && unlisted.is_empty(), tot.pruned, tot.max_steps,
        jsl(&passinfo), jsl(&samples), jsl(&o.assumptions), unlisted.len()
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", o.root));
    std::fs::write(format!("{}/evidence/{}.json", o.root, o.prop), ev).expect("evidence");
    for (j, v) in found.iter().filter(|(j, v)| is_known(j, v)) {
        let t = known.iter().find(|k| k.scenario == j.name && k.kind == v.kind).map_or("", |k| &k.text);
        println!("KNOWN-FINDING: property={} {} [{} {}]", o.prop, t.trim(), j.name, v.kind);
    }
    if let Some((j, v)) = unlisted.first() {
        let path = format!("{}/evidence/replay/{}.txt", o.root, o.prop);
        write_replay(&path, &o.prop, j, v);
        println!("{}: {} in scenario {} (preemption bound {}): {}", o.prop, v.kind, j.name, j.pb, v.msg);
        println!("VIOLATION property={} replay={path}", o.prop);
        return 1;
    }
    if bad {
        println!("{}: the check could not decide", o.prop);
        return 3;
    }
    println!("{}: held on {} executions ({} atomic steps) in {wall:.1} s", o.prop, tot.execs, tot.steps);
    0
}
