//! Supervisor: worker processes, seed loop, minimisation, replay files, evidence
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};

use crate::exec::{run_plan, RunOut};
use crate::plan::Plan;
use crate::rec::Violation;

const HANG: Duration = Duration::from_secs(100);

#[derive(Serialize, Deserialize)]
pub struct Req {
    pub plan: Plan,
    pub log: bool,
}

/// Reads plans from stdin, writes outcomes to stdout
pub fn worker() {
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let req: Req = serde_json::from_str(&line).expect("bad request");
        let out = run_plan(&req.plan, req.log);
        let mut o = stdout.lock();
        serde_json::to_writer(&mut o, &out).unwrap();
        o.write_all(b"\n").unwrap();
        o.flush().unwrap();
    }
}

struct Proc {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
    runs: u32,
}

impl Proc {
    fn spawn() -> Self {
        let exe = std::env::current_exe().unwrap();
        let mut child = Command::new(exe)
            .arg("worker")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start a worker");
        let stdin = child.stdin.take().unwrap();
        let stdout = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(stdout).lines() {
                let Ok(l) = l else { break };
                if tx.send(l).is_err() {
                    break;
                }
            }
        });
        Self { child, stdin, rx, runs: 0 }
    }
}

impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// A slot that keeps one worker process alive
pub struct Slot(Option<Proc>);

pub enum Ran {
    Out(Box<RunOut>),
    Died(String),
    Hung,
}

impl Slot {
    pub fn new() -> Self {
        Slot(None)
    }
    pub fn run(&mut self, plan: &Plan, log: bool) -> Ran {
        if self.0.as_ref().map_or(true, |p| p.runs >= 150) {
            self.0 = None;
            self.0 = Some(Proc::spawn());
        }
        let p = self.0.as_mut().unwrap();
        p.runs += 1;
        let line = serde_json::to_string(&Req { plan: plan.clone(), log }).unwrap();
        let sent = p.stdin.write_all(line.as_bytes()).and_then(|_| p.stdin.write_all(b"\n")).and_then(|_| p.stdin.flush());
        if sent.is_err() {
            self.0 = None;
            return Ran::Died("worker is gone".into());
        }
        match p.rx.recv_timeout(HANG) {
            Ok(l) => match serde_json::from_str(&l) {
                Ok(o) => Ran::Out(Box::new(o)),
                Err(e) => Ran::Died(format!("unreadable outcome: {e}")),
            },
            Err(RecvTimeoutError::Timeout) => {
                self.0 = None;
                Ran::Hung
            }
            Err(RecvTimeoutError::Disconnected) => {
                let st = p.child.wait();
                self.0 = None;
                Ran::Died(format!("{st:?}"))
            }
        }
    }
}

/// Violations of `prop` in this outcome, including the ones seen only from outside the process
fn judge(prop: &str, r: Ran) -> (Option<Box<RunOut>>, Vec<Violation>) {
    let outside = |class: &str, detail: String| Violation { property: prop.into(), class: class.into(), detail, t_ms: 0.0 };
    match r {
        Ran::Out(o) => {
            let v = o.viols.iter().filter(|v| v.property == prop).cloned().collect();
            (Some(o), v)
        }
        Ran::Died(s) => (None, vec![outside("process-abort", format!("the simulated process aborted: {s}"))]),
        Ran::Hung => (
            None,
            vec![outside("process-hang", format!("a task never yielded again (no progress for {} s of real time)", HANG.as_secs()))],
        ),
    }
}

#[derive(Deserialize, Default)]
struct Known {
    #[serde(default)]
    findings: Vec<Finding>,
}
#[derive(Deserialize, Clone)]
struct Finding {
    property: String,
    class: String,
    #[serde(default)]
    detail_contains: Vec<String>,
    what: String,
}

fn load_known(root: &str) -> Vec<Finding> {
    let p = format!("{root}/known_findings.json");
    match std::fs::read_to_string(&p) {
        Ok(s) => serde_json::from_str::<Known>(&s).expect("known_findings.json is unreadable").findings,
        Err(_) => Vec::new(),
    }
}

fn is_known<'a>(k: &'a [Finding], v: &Violation) -> Option<&'a Finding> {
    k.iter().find(|f| {
        f.property == v.property && f.class == v.class && f.detail_contains.iter().all(|s| v.detail.contains(s.as_str()))
    })
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub detail: String,
    pub trace: u64,
    pub found_with: BTreeMap<String, serde_json::Value>,
    pub plan: Plan,
    pub event_log_tail: Vec<String>,
}

fn pmap(cands: &[Plan], prop: &str, class: &str, slots: &Mutex<Vec<Slot>>, known: &[Finding]) -> Option<usize> {
    // the first candidate (in order) that still shows the violation
    let next = AtomicU64::new(0);
    let best = Mutex::new(None::<usize>);
    let n = slots.lock().unwrap().len();
    std::thread::scope(|s| {
        for _ in 0..n {
            s.spawn(|| {
                let mut slot = slots.lock().unwrap().pop().unwrap();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst) as usize;
                    if i >= cands.len() || best.lock().unwrap().map_or(false, |b| b < i) {
                        break;
                    }
                    let (_, vs) = judge(prop, slot.run(&cands[i], false));
                    if vs.iter().any(|v| v.class == class && is_known(known, v).is_none()) {
                        let mut b = best.lock().unwrap();
                        if b.map_or(true, |x| i < x) {
                            *b = Some(i);
                        }
                    }
                }
                slots.lock().unwrap().push(slot);
            });
        }
    });
    best.into_inner().unwrap()
}

fn ddmin<T: Clone>(
    items: Vec<T>,
    mut test: impl FnMut(&[Vec<T>]) -> Option<usize>,
    deadline: Instant,
) -> Vec<T> {
    let mut cur = items;
    let mut n = 2usize;
    if !cur.is_empty() && test(&[Vec::new()]).is_some() {
        return Vec::new();
    }
    while cur.len() >= 2 && Instant::now() < deadline {
        let chunk = (cur.len() + n - 1) / n;
        let mut cands = Vec::new();
        let mut i = 0;
        while i < cur.len() {
            let mut c = cur.clone();
            c.drain(i..(i + chunk).min(cur.len()));
            cands.push(c);
            i += chunk;
        }
        match test(&cands) {
            Some(k) => {
                cur = cands.swap_remove(k);
                n = (n - 1).max(2);
            }
            None => {
                if chunk == 1 {
                    break;
                }
                n = (n * 2).min(cur.len());
            }
        }
    }
    cur
}

fn minimise(plan: Plan, prop: &str, class: &str, slots: &Mutex<Vec<Slot>>, known: &[Finding], budget: Duration) -> Plan {
    let deadline = Instant::now() + budget;
    let mut best = plan;
    // steps
    let base = best.clone();
    let steps = ddmin(
        best.steps.clone(),
        |cs| {
            let ps: Vec<Plan> = cs.iter().map(|s| Plan { steps: s.clone(), ..base.clone() }).collect();
            pmap(&ps, prop, class, slots, known)
        },
        deadline,
    );
    let cand = Plan { steps, ..base };
    if pmap(std::slice::from_ref(&cand), prop, class, slots, known).is_some() {
        best = cand;
    }
    // simpler environment
    type F = fn(&mut Plan);
    let simp: [F; 10] = [
        |p| p.knobs.stall = 0.0,
        |p| p.knobs.corrupt = 0.0,
        |p| p.knobs.truncate = 0.0,
        |p| (p.knobs.send_err, p.knobs.recv_err) = (0.0, 0.0),
        |p| p.knobs.dup = 0.0,
        |p| p.knobs.loss = 0.0,
        |p| p.knobs.reorder = 0.0,
        |p| p.knobs.policy = 0,
        |p| (p.knobs.timer_late_max_us, p.knobs.step_max_ns) = (0, 1000),
        |p| (p.knobs.lat_min_us, p.knobs.lat_max_us) = (200, 1000),
    ];
    for f in simp {
        if Instant::now() > deadline {
            break;
        }
        let mut c = best.clone();
        f(&mut c);
        if serde_json::to_string(&c.knobs).unwrap() != serde_json::to_string(&best.knobs).unwrap()
            && pmap(std::slice::from_ref(&c), prop, class, slots, known).is_some()
        {
            best = c;
        }
    }
    // fault firings
    let out = {
        let mut g = slots.lock().unwrap();
        let mut s = g.pop().unwrap();
        let r = s.run(&best, false);
        g.push(s);
        r
    };
    if let Ran::Out(o) = out {
        if !o.fired.is_empty() && o.fired.len() < 20_000 {
            let base = best.clone();
            let kept = ddmin(
                o.fired.clone(),
                |cs| {
                    let ps: Vec<Plan> =
                        cs.iter().map(|f| Plan { only_faults: Some(f.clone()), ..base.clone() }).collect();
                    pmap(&ps, prop, class, slots, known)
                },
                deadline,
            );
            let cand = Plan { only_faults: Some(kept), ..base };
            if pmap(std::slice::from_ref(&cand), prop, class, slots, known).is_some() {
                best = cand;
            }
        }
    }
    best
}

pub struct Budget {
    pub runs: u64,
    pub wall: Duration,
    pub minimise: Duration,
}

pub fn check(prop: &str, root: &str) -> i32 {
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let Some(info) = crate::families::info(prop) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    let env_num = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<u64>().ok());
    let budget = if thorough {
        Budget {
            runs: env_num("VERIF_RUNS").unwrap_or(u64::MAX),
            wall: Duration::from_secs(env_num("VERIF_WALL").unwrap_or(600)),
            minimise: Duration::from_secs(150),
        }
    } else {
        Budget {
            runs: env_num("VERIF_RUNS").unwrap_or(info.quick_runs),
            wall: Duration::from_secs(env_num("VERIF_WALL").unwrap_or(30)),
            minimise: Duration::from_secs(60),
        }
    };
    let known = load_known(root);
    let workers = env_num("VERIF_WORKERS").unwrap_or(8).max(1) as usize;
    println!("property {prop}: seed {seed}, tier {tier}, {workers} workers, up to {} runs / {:?}", budget.runs, budget.wall);
    let t0 = Instant::now();

    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let slots = Arc::new(Mutex::new((0..workers).map(|_| Slot::new()).collect::<Vec<_>>()));
    #[derive(Default)]
    struct Agg {
        runs: u64,
        nontrivial: u64,
        traces: HashSet<u64>,
        bigrams: HashSet<u64>,
        sim_ms: u64,
        steps: u64,
        faults: BTreeMap<String, u64>,
        fault_runs: BTreeMap<String, u64>,
        counts: BTreeMap<String, u64>,
        other: BTreeMap<String, (u64, u64)>,
        known_hits: BTreeMap<String, u64>,
        found: Vec<(Plan, Violation)>,
        errors: Vec<String>,
        samples: Vec<serde_json::Value>,
        max_wall: u64,
    }
    let agg = Mutex::new(Agg::default());
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| {
                let mut slot = slots.lock().unwrap().pop().unwrap();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= budget.runs || stop.load(Ordering::SeqCst) || t0.elapsed() > budget.wall {
                        break;
                    }
                    let plan = crate::families::generate(prop, seed, i, thorough);
                    let mut r = slot.run(&plan, false);
                    if !matches!(r, Ran::Out(_)) {
                        // anything that takes the whole process down has to do so twice
                        r = slot.run(&plan, false);
                    }
                    let (out, vs) = judge(prop, r);
                    let mut a = agg.lock().unwrap();
                    a.runs += 1;
                    if let Some(o) = out {
                        if let Some(e) = &o.harness_error {
                            a.errors.push(format!("run {i}: {e}"));
                            stop.store(true, Ordering::SeqCst);
                        }
                        a.max_wall = a.max_wall.max(o.wall_ms);
                        a.sim_ms += o.sim_ms;
                        a.steps += o.steps;
                        if a.traces.insert(o.trace) && o.nontrivial {
                            a.nontrivial += 1;
                        }
                        a.bigrams.extend(o.bigrams.iter());
                        for (k, v) in &o.faults {
                            *a.faults.entry(k.clone()).or_default() += v;
                            *a.fault_runs.entry(k.clone()).or_default() += 1;
                        }
                        for (k, v) in &o.counts {
                            *a.counts.entry(k.clone()).or_default() += v;
                        }
                        for v in &o.viols {
                            if v.property != prop {
                                let e = a.other.entry(format!("{}:{}", v.property, v.class)).or_insert((0, o.index));
                                e.0 += 1;
                                e.1 = e.1.min(o.index);
                            }
                        }
                        if a.samples.len() < 3 && o.nontrivial {
                            let p = &plan;
                            let head: Vec<_> = p.steps.iter().take(6).map(|s| serde_json::to_value(s).unwrap()).collect();
                            a.samples.push(serde_json::json!({
                                "index": i, "seed": p.seed, "family": p.family, "params": p.p, "knobs": p.knobs,
                                "nodes": p.nodes.len(), "operations": p.steps.len(), "first_operations": head,
                                "task_polls": o.steps, "sim_ms": o.sim_ms, "faults": o.faults, "trace_hash": format!("{:016x}", o.trace),
                            }));
                        }
                    }
                    for v in vs {
                        if let Some(f) = is_known(&known, &v) {
                            *a.known_hits.entry(f.what.clone()).or_default() += 1;
                        } else {
                            a.found.push((plan.clone(), v));
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                }
                slots.lock().unwrap().push(slot);
            });
        }
    });
    let mut a = agg.into_inner().unwrap();
    let explore_s = t0.elapsed().as_secs_f64();
    a.found.sort_by_key(|(p, _)| p.index);

    let mut code = 0;
    if !a.found.is_empty() {
        let (plan, v) = a.found[0].clone();
        println!("run {} (seed {}): {} — {}", plan.index, plan.seed, v.class, v.detail);
        let small = if v.class.starts_with("process-hang") {
            plan.clone()
        } else {
            minimise(plan.clone(), prop, &v.class, &slots, &known, budget.minimise)
        };
        let (small, fin) = {
            let mut g = slots.lock().unwrap();
            let slot = &mut g[0];
            let (o, vs) = judge(prop, slot.run(&small, true));
            let hit = vs.into_iter().find(|x| x.class == v.class);
            (small, (o, hit.unwrap_or(v.clone())))
        };
        let (o, vf) = fin;
        let (trace, log) = o.map(|o| (o.trace, o.log)).unwrap_or_default();
        let tail = log.len().saturating_sub(400);
        let rep = Replay {
            property: prop.into(),
            class: vf.class.clone(),
            detail: vf.detail.clone(),
            trace,
            found_with: [
                ("verif_seed".to_string(), serde_json::json!(seed)),
                ("run_index".to_string(), serde_json::json!(plan.index)),
                ("run_seed".to_string(), serde_json::json!(plan.seed)),
                ("operations_before_minimisation".to_string(), serde_json::json!(plan.steps.len())),
                ("operations".to_string(), serde_json::json!(small.steps.len())),
            ]
            .into(),
            plan: small,
            event_log_tail: log[tail..].to_vec(),
        };
        let dir = format!("{root}/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{}-{}.json", seed, plan.index);
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
        println!("minimised to {} operations; {}", rep.plan.steps.len(), vf.detail);
        println!("VIOLATION property={prop} replay={path}");
        code = 1;
    }
    for f in known.iter().filter(|f| f.property == prop) {
        println!("KNOWN-FINDING: property={prop} {}", f.what);
    }
    if code == 0 && !a.errors.is_empty() {
        for e in &a.errors {
            println!("harness error: {e}");
        }
        code = 2;
    }
    if code == 0 && a.nontrivial == 0 {
        println!("harness error: no run exercised the property");
        code = 2;
    }
    let wall = t0.elapsed().as_secs_f64();
    let per_hour = a.runs as f64 / explore_s * 3600.0;
    let ev = serde_json::json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "wall_s": wall,
        "violations": if code == 1 { 1 } else { 0 },
        "assumptions": info.assumptions,
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.nontrivial,
            "rule": format!("one evaluation is one simulated run of a plan derived from (VERIF_SEED, property, run index); it counts as distinct and non-trivial if its trace hash (every task poll, send and delivery with its simulated time) was not seen before and the run reached the property's oracle: {}", info.nontrivial),
            "samples": a.samples,
            "runs_and_seeds_per_hour": per_hour as u64,
            "simulated_hours": a.sim_ms as f64 / 3.6e6,
            "task_polls": a.steps,
            "distinct_trace_hashes": a.traces.len(),
            "distinct_event_bigrams": a.bigrams.len(),
            "measure_of_distinct_interleavings": "64-bit hash over the whole event sequence per run; bigrams are ordered pairs of consecutive (event kind, node) over all runs",
            "faults_injected": a.faults,
            "runs_with_fault": a.fault_runs,
            "operations_and_rare_conditions": a.counts,
            "violations_of_other_properties_seen": a.other,
            "known_findings_hit": a.known_hits,
            "real_code": info.real,
            "stub": "clock, timers, task scheduler, UDP sockets and network, OS randomness (interposed libc and tokio's time/net/task modules); everything of tokio::sync is the real code",
            "workers": workers,
            "slowest_run_ms": a.max_wall,
        }
    });
    let dir = format!("{root}/evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap()) {
        println!("harness error: cannot write evidence: {e}");
        return 2;
    }
    println!(
        "{} runs in {:.1} s ({:.0}/h), {} distinct non-trivial, {:.1} simulated min, faults {:?}",
        a.runs, explore_s, per_hour, a.nontrivial, a.sim_ms as f64 / 60e3, a.faults
    );
    if !a.other.is_empty() {
        println!("note: violations of other properties seen (count, first run): {:?}", a.other);
    }
    code
}

pub fn replay(path: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let Ok(rep) = serde_json::from_str::<Replay>(&s) else {
        eprintln!("not a replay file: {path}");
        return 2;
    };
    let mut slot = Slot::new();
    let (o, vs) = judge(&rep.property, slot.run(&rep.plan, true));
    if let Some(o) = &o {
        if std::env::var("VERIF_LOG").is_ok() {
            for l in &o.log {
                println!("{l}");
            }
        }
        println!(
            "trace hash {:016x}, recorded {:016x}{}",
            o.trace,
            rep.trace,
            if o.trace == rep.trace { " (same execution)" } else { " (different execution: the code differs)" }
        );
        println!("faults {:?} counts {:?}", o.faults, o.counts);
    }
    for v in &vs {
        println!("{}: {} (at {:.3} ms)", v.class, v.detail, v.t_ms);
    }
    if vs.iter().any(|v| v.class == rep.class) {
        println!("VIOLATION property={} replay={}", rep.property, path);
        1
    } else {
        println!("the violation does not occur");
        0
    }
}

/// Runs one plan by (property, index) with a full log
pub fn one(prop: &str, idx: u64) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let plan = crate::families::generate(prop, seed, idx, std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"));
    if std::env::var("VERIF_PLAN").is_ok() {
        println!("{}", serde_json::to_string_pretty(&plan).unwrap());
    }
    let out = run_plan(&plan, std::env::var("VERIF_LOG").is_ok());
    for l in &out.log {
        println!("{l}");
    }
    println!(
        "end {} steps {} sim {} ms wall {} ms trace {:016x} faults {:?} counts {:?} err {:?}",
        out.end, out.steps, out.sim_ms, out.wall_ms, out.trace, out.faults, out.counts, out.harness_error
    );
    for v in &out.viols {
        println!("{} {}: {} (at {:.3} ms)", v.property, v.class, v.detail, v.t_ms);
    }
    0
}

/// Every plan twice, in different processes and at different worker counts
pub fn determinism(props: &[String], n: u64) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut bad = 0;
    for prop in props {
        let run_all = |workers: usize| -> Vec<(u64, u64, u64, u64)> {
            let next = AtomicU64::new(0);
            let res = Mutex::new(Vec::new());
            std::thread::scope(|s| {
                for _ in 0..workers {
                    s.spawn(|| {
                        let mut slot = Slot::new();
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= n {
                                break;
                            }
                            let plan = crate::families::generate(prop, seed, i, false);
                            match slot.run(&plan, true) {
                                Ran::Out(o) => {
                                    let mut h = 0u64;
                                    for l in &o.log {
                                        for b in l.bytes() {
                                            h = simcore::rng::mix(h, b as u64);
                                        }
                                    }
                                    res.lock().unwrap().push((i, o.trace, h, o.steps));
                                }
                                _ => res.lock().unwrap().push((i, 0, 0, 0)),
                            }
                            if i % 7 == 3 {
                                slot = Slot::new();
                            }
                        }
                    });
                }
            });
            let mut v = res.into_inner().unwrap();
            v.sort();
            v
        };
        let a = run_all(8);
        let b = run_all(3);
        let d: Vec<_> = a.iter().zip(&b).filter(|(x, y)| x != y).map(|(x, _)| x.0).collect();
        println!("{prop}: {n} plans run twice, {} differ {:?}", d.len(), d);
        bad += d.len();
    }
    (bad > 0) as i32
}
