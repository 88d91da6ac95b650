//! Runs one plan on a fresh thread
use std::collections::BTreeMap;

use serde::{Deserialize, Serialize};
use simcore::{End, MS};

use crate::plan::Plan;
use crate::rec::{self, Violation};

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct RunOut {
    pub index: u64,
    pub seed: u64,
    pub viols: Vec<Violation>,
    pub end: String,
    pub steps: u64,
    pub sim_ms: u64,
    pub trace: u64,
    pub bigrams: Vec<u64>,
    pub faults: BTreeMap<String, u64>,
    pub fired: Vec<u64>,
    pub counts: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub harness_error: Option<String>,
    pub log: Vec<String>,
    pub wall_ms: u64,
}

pub fn run_plan(plan: &Plan, log: bool) -> RunOut {
    let plan = plan.clone();
    let (index, seed) = (plan.index, plan.seed);
    let t0 = std::time::Instant::now();
    let h = std::thread::Builder::new()
        // about what tokio gives its worker threads
        .stack_size(5 << 19)
        .spawn(move || run_inner(&plan, log))
        .unwrap();
    let mut out = match h.join() {
        Ok(o) => o,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "?".into());
            RunOut { harness_error: Some(format!("harness thread panicked: {m}")), ..Default::default() }
        }
    };
    out.index = index;
    out.seed = seed;
    out.wall_ms = t0.elapsed().as_millis() as u64;
    out
}

fn run_inner(plan: &Plan, log: bool) -> RunOut {
    rec::reset(log, &plan.focus);
    let cfg = plan.sim_cfg(log);
    let p2 = plan.clone();
    let r = simcore::run(cfg, crate::families::main(p2));
    crate::families::cleanup();
    let rec = rec::take();
    let mut counts = rec::take_counts();
    for (k, v) in &r.world.probes {
        *counts.entry(k.to_string()).or_default() += v;
    }
    let mut viols = rec.viols;
    let mut harness_error = None;
    for p in &r.world.panics {
        if p.node == 0 {
            harness_error = Some(format!("harness task panicked: {}", p.msg));
        } else {
            viols.push(Violation {
                property: "A08".into(),
                class: "task-panic".into(),
                detail: format!("a task of node {} panicked: {}", p.node, p.msg),
                t_ms: p.t as f64 / 1e6,
            });
        }
    }
    if r.end != End::Done && r.end != End::Stopped {
        viols.push(Violation {
            property: plan.focus.clone(),
            class: format!("run-did-not-end-{:?}", r.end),
            detail: format!(
                "the run did not come to its end: {:?} after {} task polls and {} simulated ms",
                r.end,
                r.steps,
                r.sim_ns / MS
            ),
            t_ms: r.sim_ns as f64 / 1e6,
        });
    }
    let mut bigrams: Vec<u64> = r.world.bigrams.iter().copied().collect();
    bigrams.sort_unstable();
    bigrams.truncate(3000);
    RunOut {
        index: 0,
        seed: 0,
        viols,
        end: format!("{:?}", r.end),
        steps: r.steps,
        sim_ms: r.sim_ns / MS,
        trace: r.world.trace_hash(),
        bigrams,
        faults: r.world.fault_counts.iter().map(|(k, v)| (k.name().to_string(), *v)).collect(),
        fired: r.world.fired.iter().map(|x| x.0).collect(),
        counts,
        nontrivial: rec.nontrivial > 0,
        harness_error,
        log: r.world.log,
        wall_ms: 0,
    }
}
