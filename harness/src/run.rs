//! The supervisor: runs a property's cases in worker processes, watches them for crashes and
//! hangs, confirms those in a fresh process, merges what the monitors observed and writes the
//! evidence file.
use crate::props;
use crate::rng::{Rng, hash_bytes};
use serde_json::json;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};
use substrait_explain::extensions::ExtensionRegistry;

/// What a monitor saw that it should not have.
#[derive(Debug, Clone)]
pub struct Bad {
    pub what: String,
    pub detail: String,
}
pub type Res = Result<(), Bad>;
pub fn bad<T>(what: &str, detail: impl Into<String>) -> Result<T, Bad> {
    Err(Bad { what: what.into(), detail: detail.into() })
}

/// State of one worker: shared fixtures and what the monitors observed.
pub struct Env {
    pub reg: ExtensionRegistry,
    pub seed: u64,
    pub thorough: bool,
    pub index: u64,
    pub dir: PathBuf,
    pub counts: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub evals: u64,
}
impl Env {
    pub fn new(seed: u64, thorough: bool, dir: PathBuf) -> Env {
        Env {
            reg: crate::ext::registry(),
            seed,
            thorough,
            index: 0,
            dir,
            counts: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            evals: 0,
        }
    }
    /// One observed event of a kind.
    pub fn ev(&mut self, k: &str) {
        match self.counts.get_mut(k) {
            Some(v) => *v += 1,
            None => {
                self.counts.insert(k.to_string(), 1);
            }
        }
    }
    /// One oracle evaluation, of a case with this content.
    pub fn eval(&mut self, content: &[u8], nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            self.distinct.insert(hash_bytes(content));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let mut s = f();
            if s.len() > 1500 {
                let mut n = 1500;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push('…');
            }
            self.samples.push(s);
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{i}");
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
}
/// Run code under test; a panic comes back as its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn run_one(env: &mut Env, p: &props::Prop, i: u64) -> Res {
    env.index = i;
    let rng = Rng::for_case(env.seed, p.id, i);
    match guard(|| (p.run)(env, rng, i)) {
        Ok(r) => r,
        Err(m) => bad("panic", m),
    }
}

pub fn in_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(48 << 20).spawn(f).unwrap().join().unwrap()
}

fn scratch(id: &str, tag: &str) -> PathBuf {
    let d = std::env::temp_dir().join(format!("vx-{id}-{}-{tag}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}

/// `vx worker ID SEED TIER FIRST STRIDE COUNT DEADLINE_S DIR`
pub fn worker(a: &[String]) -> i32 {
    install_hook();
    let id = a[0].clone();
    let seed: u64 = a[1].parse().unwrap();
    let thorough = a[2] == "thorough";
    let first: u64 = a[3].parse().unwrap();
    let stride: u64 = a[4].parse().unwrap();
    let count: u64 = a[5].parse().unwrap();
    let limit: f64 = a[6].parse().unwrap();
    let dir = PathBuf::from(&a[7]);
    in_big_stack(move || {
        let p = props::find(&id).unwrap();
        let progress = std::fs::File::create(dir.join("progress")).unwrap();
        let made = guard(|| Env::new(seed, thorough, dir.clone()));
        let mut env = match made {
            Ok(e) => e,
            Err(m) => {
                // The fixtures only register handlers: a panic there is the code under test.
                let out = json!({"ran": 0, "evals": 0, "bad": {"i": first, "what": "panic while registering handlers", "detail": m}});
                std::fs::write(dir.join("out.json"), out.to_string()).unwrap();
                return 0;
            }
        };
        let t0 = Instant::now();
        let mut found = None;
        let mut i = first;
        let mut ran = 0u64;
        while i < count {
            progress.write_all_at(&(i + 1).to_le_bytes(), 0).unwrap();
            if let Err(b) = run_one(&mut env, p, i) {
                found = Some((i, b));
                break;
            }
            ran += 1;
            i += stride;
            if t0.elapsed().as_secs_f64() > limit {
                break;
            }
        }
        let mut h = vec![];
        for d in &env.distinct {
            h.extend_from_slice(&d.to_le_bytes());
        }
        std::fs::write(dir.join("distinct"), h).unwrap();
        let out = json!({
            "ran": ran, "evals": env.evals, "counts": env.counts, "samples": env.samples,
            "complete": i >= count,
            "bad": found.map(|(i, b)| json!({"i": i, "what": b.what, "detail": b.detail})),
        });
        std::fs::write(dir.join("out.json"), out.to_string()).unwrap();
        0
    })
}

/// `vx one ID SEED TIER INDEX`: a single case, for confirmation and replay.
pub fn one(a: &[String], verbose: bool) -> i32 {
    install_hook();
    let id = a[0].clone();
    let seed: u64 = a[1].parse().unwrap();
    let thorough = a[2] == "thorough";
    let i: u64 = a[3].parse().unwrap();
    let dir = scratch(&id, "one");
    let d2 = dir.clone();
    let r = in_big_stack(move || {
        let p = props::find(&id).unwrap();
        let mut env = Env::new(seed, thorough, d2);
        let r = run_one(&mut env, p, i);
        if verbose {
            for s in &env.samples {
                println!("sample:\n{s}");
            }
            println!("{:?}", env.counts);
        }
        r
    });
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Ok(()) => {
            println!("case held");
            0
        }
        Err(b) => {
            println!("{}\n{}", b.what, b.detail);
            1
        }
    }
}

struct Worker {
    child: Child,
    dir: PathBuf,
    slot: u64,
    last: (u64, f64),
}

fn cpu_seconds(pid: u32) -> f64 {
    let Ok(s) = std::fs::read_to_string(format!("/proc/{pid}/stat")) else { return 0.0 };
    let Some((_, rest)) = s.rsplit_once(')') else { return 0.0 };
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t: f64 = f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0.0);
    let s: f64 = f.get(12).and_then(|x| x.parse().ok()).unwrap_or(0.0);
    (t + s) / 100.0
}
fn progress(dir: &Path) -> u64 {
    std::fs::read(dir.join("progress")).ok().filter(|b| b.len() == 8).map_or(0, |b| u64::from_le_bytes(b.try_into().unwrap()))
}

fn spawn(p: &props::Prop, seed: u64, tier: &str, first: u64, stride: u64, count: u64, limit: f64, dir: &Path) -> Child {
    std::fs::create_dir_all(dir).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["worker", p.id, &seed.to_string(), tier, &first.to_string(), &stride.to_string(), &count.to_string()]);
    c.arg(limit.to_string()).arg(dir).stdin(Stdio::null()).stdout(Stdio::null());
    c.stderr(std::fs::File::create(dir.join("stderr")).unwrap());
    c.process_group(0);
    c.spawn().unwrap()
}
fn kill_group(pid: u32) {
    let _ = Command::new("kill").args(["-9", "--", &format!("-{pid}")]).stderr(Stdio::null()).status();
}

/// Run one case alone with a CPU limit; None if it held, else what happened.
fn confirm(p: &props::Prop, seed: u64, tier: &str, i: u64, cpu: u32) -> Option<Bad> {
    let exe = std::env::current_exe().unwrap();
    let script = format!(
        "ulimit -c 0; ulimit -t {cpu}; exec \"$0\" one {} {seed} {tier} {i}",
        p.id
    );
    let mut c = Command::new("bash");
    c.arg("-c").arg(script).arg(exe).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).process_group(0);
    let child = c.spawn().unwrap();
    let pid = child.id();
    let done = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let d2 = done.clone();
    std::thread::spawn(move || {
        let t0 = Instant::now();
        while t0.elapsed() < Duration::from_secs(cpu as u64 * 4 + 30) {
            std::thread::sleep(Duration::from_millis(200));
            if d2.load(std::sync::atomic::Ordering::Relaxed) {
                return;
            }
        }
        kill_group(pid);
    });
    let out = child.wait_with_output().unwrap();
    done.store(true, std::sync::atomic::Ordering::Relaxed);
    let text = format!("{}{}", String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr));
    match (out.status.code(), out.status.signal()) {
        (Some(0), _) => None,
        (Some(1), _) => {
            let (a, b) = text.split_once('\n').unwrap_or((&text, ""));
            Some(Bad { what: a.into(), detail: b.into() })
        }
        (c, s) => {
            let what = match s {
                Some(24) | Some(9) => "does not terminate",
                _ => "crashes the process",
            };
            Some(Bad { what: what.into(), detail: format!("exit {c:?} signal {s:?}\n{text}") })
        }
    }
}

pub fn check(id: &str) -> i32 {
    let Some(p) = props::find(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let verif = PathBuf::from(std::env::var("VX_HOME").unwrap_or_else(|_| "/verif".into()));
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let tier = if thorough { "thorough" } else { "quick" };
    let count = if thorough { p.thorough } else { p.quick };
    // For development only: a smaller run.
    let count = std::env::var("VX_DIV").ok().and_then(|s| s.parse::<u64>().ok()).map_or(count, |d| (count / d).max(8));
    let limit = if thorough { 600.0 } else { 150.0 };
    let t0 = Instant::now();
    let jobs = std::thread::available_parallelism().map_or(8, |n| n.get()).min(8) as u64;
    let base = scratch(id, "check");
    let mut gen_no = 0;
    let mut live: Vec<Worker> = vec![];
    let start = |slot: u64, first: u64, gen_no: &mut u64| {
        *gen_no += 1;
        let dir = base.join(format!("w{slot}-{gen_no}"));
        let left = (limit - t0.elapsed().as_secs_f64()).max(1.0);
        let child = spawn(p, seed, tier, first, jobs, count, left, &dir);
        Worker { child, dir, slot, last: (0, 0.0) }
    };
    for s in 0..jobs.min(count) {
        let w = start(s, s, &mut gen_no);
        live.push(w);
    }
    let mut outs: Vec<(serde_json::Value, PathBuf)> = vec![];
    let mut bads: Vec<(u64, Bad)> = vec![];
    let mut unconfirmed = 0u64;
    let mut harness_error = None;
    while !live.is_empty() {
        std::thread::sleep(Duration::from_millis(50));
        let mut next = vec![];
        for mut w in live.drain(..) {
            match w.child.try_wait().unwrap() {
                Some(st) => {
                    let out = std::fs::read_to_string(w.dir.join("out.json")).ok();
                    match out.and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok()) {
                        Some(v) if st.success() => {
                            if let Some(b) = v.get("bad").filter(|b| !b.is_null()) {
                                bads.push((
                                    b["i"].as_u64().unwrap(),
                                    Bad {
                                        what: b["what"].as_str().unwrap().into(),
                                        detail: b["detail"].as_str().unwrap().into(),
                                    },
                                ));
                            }
                            outs.push((v, w.dir.clone()));
                        }
                        _ => {
                            let at = progress(&w.dir);
                            if at == 0 {
                                harness_error = Some(std::fs::read_to_string(w.dir.join("stderr")).unwrap_or_default());
                                continue;
                            }
                            if !bads.is_empty() {
                                continue;
                            }
                            let i = at - 1;
                            match confirm(p, seed, tier, i, 60) {
                                Some(b) => bads.push((i, b)),
                                None => {
                                    unconfirmed += 1;
                                    if i + jobs < count && unconfirmed < 20 && bads.is_empty() {
                                        next.push(start(w.slot, i + jobs, &mut gen_no));
                                    }
                                }
                            }
                        }
                    }
                }
                None => {
                    if !bads.is_empty() {
                        // Enough: stop the others early.
                        kill_group(w.child.id());
                        let _ = w.child.wait();
                        continue;
                    }
                    let at = progress(&w.dir);
                    let cpu = cpu_seconds(w.child.id());
                    if at != w.last.0 {
                        w.last = (at, cpu);
                    } else if at > 0 && cpu - w.last.1 > p.case_cpu {
                        kill_group(w.child.id());
                        let _ = w.child.wait();
                        let i = at - 1;
                        match confirm(p, seed, tier, i, (p.case_cpu * 2.0) as u32) {
                            Some(b) => bads.push((i, b)),
                            None => {
                                unconfirmed += 1;
                                if i + jobs < count && unconfirmed < 20 && bads.is_empty() {
                                    next.push(start(w.slot, i + jobs, &mut gen_no));
                                }
                            }
                        }
                        continue;
                    }
                    next.push(w);
                }
            }
        }
        live = next;
    }
    // Fixed probes, some of which are known findings.
    let known_file = std::fs::read_to_string(verif.join("known-findings.txt")).unwrap_or_default();
    let pdir = base.clone();
    let pid = p.id;
    install_hook();
    let probed = in_big_stack(move || {
        guard(|| props::probes(pid, &mut Env::new(seed, thorough, pdir))).unwrap_or_else(|m| vec![("start", bad("panic", m))])
    });
    let mut known = vec![];
    let n_probes = probed.len();
    for (key, r) in probed {
        if let Err(b) = r {
            let head = format!("known: property={} {key}:", p.id);
            match known_file.lines().find(|l| l.starts_with(&head)) {
                Some(l) => known.push(l[head.len()..].trim().to_string()),
                None => bads.push((u64::MAX, b)),
            }
        }
    }
    for k in &known {
        println!("KNOWN-FINDING: property={} {k}", p.id);
    }
    // Merge.
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let (mut evals, mut ran, mut complete) = (0u64, 0u64, true);
    for (v, dir) in &outs {
        evals += v["evals"].as_u64().unwrap_or(0);
        ran += v["ran"].as_u64().unwrap_or(0);
        complete &= v["complete"].as_bool().unwrap_or(false);
        if let Some(m) = v["counts"].as_object() {
            for (k, n) in m {
                *counts.entry(k.clone()).or_default() += n.as_u64().unwrap_or(0);
            }
        }
        if samples.len() < 4 {
            samples.extend(v["samples"].as_array().cloned().unwrap_or_default());
        }
        if let Ok(b) = std::fs::read(dir.join("distinct")) {
            for c in b.chunks_exact(8) {
                distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    samples.truncate(4);
    let _ = std::fs::remove_dir_all(&base);
    bads.sort_by_key(|b| b.0);
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct.len(), "rule": p.rule, "samples": samples,
            "cases_run": ran, "all_cases_completed": complete, "observed": counts,
            "worker_deaths_not_reproduced": unconfirmed, "fixed_probes": n_probes, "known_findings": known,
        },
        "assumptions": p.assume,
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": bads.len(),
    });
    let ed = verif.join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    std::fs::write(ed.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    if let Some((i, b)) = bads.first() {
        let rd = verif.join("replay");
        let _ = std::fs::create_dir_all(&rd);
        let f = rd.join(format!("{}-{tier}-{seed}-{i}.txt", p.id));
        let mut h = std::fs::File::create(&f).unwrap();
        writeln!(
            h,
            "property {}\nreplay: /verif/vx.sh one {} {seed} {tier} {i}\n\n{}\n{}",
            p.id, p.id, b.what, b.detail
        )
        .unwrap();
        println!("{}", b.what);
        for l in b.detail.lines().take(30) {
            println!("  {}", l.chars().take(300).collect::<String>());
        }
        println!("VIOLATION property={} replay={}", p.id, f.display());
        return 1;
    }
    if let Some(e) = harness_error {
        eprintln!("worker failed to start: {e}");
        return 2;
    }
    println!(
        "{} held: {evals} evaluations, {} distinct, {ran} cases, {:.1} s{}",
        p.id,
        distinct.len(),
        t0.elapsed().as_secs_f64(),
        if complete { "" } else { " (time limit reached)" }
    );
    0
}
