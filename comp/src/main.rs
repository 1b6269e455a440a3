//! Enumerates bounded spaces of states and operation sequences of the map's building blocks, on the real code.
mod bag;
mod frz;
mod heap;
mod inode;
mod keys;
mod leaf;
mod nver;
mod own;
mod perm;
mod search;
mod slots;
use std::collections::VecDeque;
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What a part covered.
#[derive(Default)]
pub struct St {
    pub states: u64,
    pub trans: u64,
    pub evals: u64,
}
pub type R = Result<(), String>;
pub type PartFn = Box<dyn Fn(&mut St, bool) -> R>;
pub struct Part {
    pub name: String,
    pub what: &'static str,
    pub f: PartFn,
}
pub fn part(name: impl Into<String>, what: &'static str, f: impl Fn(&mut St, bool) -> R + 'static) -> Part {
    Part { name: name.into(), what, f: Box::new(f) }
}

/// Checks a condition, counting it.
#[macro_export]
macro_rules! ck {
    ($st:expr, $c:expr, $($a:tt)*) => {{
        $st.evals += 1;
        if !$c {
            return Err(format!($($a)*));
        }
    }};
}
pub fn panics<T>(f: impl FnOnce() -> T) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}

fn parts(id: &str, thorough: bool) -> Vec<Part> {
    match id {
        "P01" => perm::parts(thorough),
        "P02" => frz::parts(),
        "P03" => bag::parts(),
        "P04" => inode::parts(thorough),
        "P05" => search::parts(),
        "P06" => keys::parts(),
        "P07" => slots::parts(),
        "P08" => leaf::parts(),
        "P09" => own::parts(),
        "P10" => nver::parts(thorough),
        _ => vec![],
    }
}
const BUILDS: [&str; 2] = ["with debug assertions", "without debug assertions"];
fn exe(build: usize) -> std::path::PathBuf {
    let me = std::env::current_exe().unwrap();
    let d = me.parent().unwrap().parent().unwrap();
    d.join(["release", "plain"][build]).join(me.file_name().unwrap())
}
fn js(s: &str) -> String {
    format!("\"{}\"", s.chars().map(|c| match c { '"' => "\\\"".into(), '\\' => "\\\\".into(), c if (c as u32) < 32 => " ".into(), c => c.to_string() }).collect::<String>())
}

/// Runs one part in this process. Prints "OK states trans evals" or "BAD message".
fn one(id: &str, name: &str, thorough: bool) -> i32 {
    std::panic::set_hook(Box::new(|_| ()));
    let ps = parts(id, thorough);
    let Some(p) = ps.iter().find(|p| p.name == name) else {
        println!("no part {name}");
        return 3;
    };
    let mut st = St::default();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.f)(&mut st, thorough)));
    heap::settle();
    match r {
        Ok(Ok(())) => {
            println!("OK {} {} {}", st.states, st.trans, st.evals);
            0
        }
        Ok(Err(m)) => {
            println!("BAD {}", m.replace('\n', " "));
            1
        }
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            println!("BAD panicked: {}", m.replace('\n', " "));
            1
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let code = match a.get(1).map(String::as_str) {
        Some("--one") => one(&a[2], &a[4], a[3] == "thorough"),
        Some("check") => check(&a[2], thorough, a.get(3).map_or("/verif", |s| s)),
        Some("list") => {
            for p in parts(&a[2], thorough) {
                println!("{}: {}", p.name, p.what);
            }
            0
        }
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).expect("replay file");
            let g = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string()).unwrap_or_default();
            let s = Command::new(exe(g("build ").parse().unwrap_or(0))).args(["--one", &g("property "), &g("tier "), &g("part ")]).status().unwrap();
            i32::from(!s.success())
        }
        _ => {
            eprintln!("usage: mccomp check ID ROOT | list ID | replay FILE");
            3
        }
    };
    std::process::exit(code);
}

fn check(id: &str, thorough: bool, root: &str) -> i32 {
    let tier = if thorough { "thorough" } else { "quick" };
    let t0 = Instant::now();
    let limit = Duration::from_secs(if thorough { 1500 } else { 240 });
    let ps = parts(id, thorough);
    if ps.is_empty() {
        println!("unknown property {id}");
        return 3;
    }
    struct Out {
        build: usize,
        part: usize,
        st: Option<[u64; 3]>,
        bad: Option<String>,
        late: bool,
        secs: f64,
    }
    let q: Mutex<VecDeque<(usize, usize)>> = Mutex::new((0..ps.len()).flat_map(|p| [(0, p), (1, p)]).collect());
    let outs: Mutex<Vec<Out>> = Mutex::new(vec![]);
    let nw = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
    let names: Vec<String> = ps.iter().map(|p| p.name.clone()).collect();
    std::thread::scope(|sc| {
        for _ in 0..nw {
            sc.spawn(|| loop {
                let Some((b, p)) = q.lock().unwrap().pop_front() else { break };
                let t = Instant::now();
                let mut c = Command::new(exe(b)).args(["--one", id, tier, &names[p]]).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("spawn");
                let mut o = Out { build: b, part: p, st: None, bad: None, late: false, secs: 0.0 };
                let status = loop {
                    match c.try_wait() {
                        Ok(Some(s)) => break Some(s),
                        _ if t.elapsed() > limit => {
                            c.kill().ok();
                            c.wait().ok();
                            break None;
                        }
                        _ => std::thread::sleep(Duration::from_millis(3)),
                    }
                };
                o.secs = t.elapsed().as_secs_f64();
                let (mut out, mut err) = (String::new(), String::new());
                use std::io::Read;
                c.stdout.take().unwrap().read_to_string(&mut out).ok();
                c.stderr.take().unwrap().read_to_string(&mut err).ok();
                let last = out.lines().last().unwrap_or("");
                match status {
                    None => o.late = true,
                    Some(s) if s.code() == Some(0) && last.starts_with("OK ") => {
                        let n: Vec<u64> = last[3..].split(' ').filter_map(|x| x.parse().ok()).collect();
                        o.st = Some([n[0], n[1], n[2]]);
                    }
                    Some(s) if s.code() == Some(1) && last.starts_with("BAD ") => o.bad = Some(last[4..].to_string()),
                    Some(s) => {
                        let h = err.lines().find_map(|l| l.strip_prefix("HEAP ")).unwrap_or("");
                        o.bad = Some(format!("the process ended abnormally ({s}) {h}"));
                    }
                }
                outs.lock().unwrap().push(o);
            });
        }
    });
    let mut outs = outs.into_inner().unwrap();
    outs.sort_by_key(|o| (o.part, o.build));
    let known: Vec<(String, String)> = std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default().lines().filter_map(|l| {
        let r = l.strip_prefix("known: ")?;
        let g = |k: &str| r.split(' ').find_map(|w| w.strip_prefix(k)).map(str::to_string);
        (g("property=")? == id).then(|| Some((g("scenario=")?, r.to_string())))?
    }).collect();
    let (mut states, mut trans, mut evals, mut runs) = (0, 0, 0, 0);
    let mut info = vec![];
    for o in &outs {
        if let Some([a, b, c]) = o.st {
            if o.build == 0 {
                states += a;
            }
            trans += b;
            evals += c;
            runs += 1;
            let l = format!("{} ({}): {a} states, {b} operations, {c} comparisons, complete: {}", names[o.part], BUILDS[o.build], ps[o.part].what);
            println!("{id} {l} [{:.1} s]", o.secs);
            if o.build == 0 {
                info.push(l);
            }
        }
    }
    let is_known = |o: &Out| known.iter().any(|(s, _)| *s == names[o.part]);
    let bad: Vec<&Out> = outs.iter().filter(|o| o.bad.is_some() && !is_known(o)).collect();
    let late = outs.iter().filter(|o| o.late).count();
    let wall = t0.elapsed().as_secs_f64();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let l = |v: &[String]| v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
    let samples: Vec<String> = ps.iter().take(4).map(|p| format!("{}: {}", p.name, p.what)).collect();
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{seed},\"level\":\"model_checking\",\"coverage\":{{\"states\":{states},\"transitions\":{trans},\"traces_validated_against_impl\":{trans},\"evaluations\":{evals},\"distinct_nontrivial\":{states},\"rule\":{},\"exhaustive\":{},\"passes\":[{}],\"samples\":[{}]}},\"assumptions\":[{}],\"wall_s\":{wall:.2},\"violations\":{}}}\n",
        js(id), js(tier),
        js("states: states the real component was put in and looked at, each reached by a different argument or operation sequence, counted in one build; transitions: operations executed on the real component, in both builds; evaluations: observations compared with the reference model; every listed space is enumerated completely, none is sampled"),
        bad.is_empty() && late == 0 && runs == outs.len(), l(&info), l(&samples),
        l(&["states and arguments outside the listed spaces are not covered".to_string(), "every part runs in two builds: with debug assertions and overflow checks, and without".into()]), bad.len()
    );
    let _ = std::fs::create_dir_all(format!("{root}/evidence/replay"));
    std::fs::write(format!("{root}/evidence/{id}.json"), ev).expect("evidence");
    for o in outs.iter().filter(|o| o.bad.is_some() && is_known(o)) {
        println!("KNOWN-FINDING: property={id} {} {}", names[o.part], o.bad.as_deref().unwrap_or(""));
    }
    if let Some(o) = bad.first() {
        let path = format!("{root}/evidence/replay/{id}.txt");
        let m = o.bad.as_deref().unwrap_or("");
        std::fs::write(&path, format!("property {id}\ntier {tier}\nbuild {}\npart {}\nmessage {m}\n", o.build, names[o.part])).expect("replay file");
        println!("{id}: {} built {}: {m}", names[o.part], BUILDS[o.build]);
        println!("VIOLATION property={id} replay={path}");
        return 1;
    }
    std::io::stdout().flush().ok();
    if let Some(o) = outs.iter().find(|o| o.late) {
        // a part takes seconds; one that needs minutes has an operation that does not end
        let path = format!("{root}/evidence/replay/{id}.txt");
        std::fs::write(&path, format!("property {id}\ntier {tier}\nbuild {}\npart {}\nmessage did not end within {limit:?}\n", o.build, names[o.part])).expect("replay file");
        println!("{id}: {} built {} did not end within {limit:?}", names[o.part], BUILDS[o.build]);
        if thorough {
            return 3;
        }
        println!("VIOLATION property={id} replay={path}");
        return 1;
    }
    println!("{id}: held: {states} states, {trans} operations, {evals} comparisons in {wall:.1} s");
    0
}
