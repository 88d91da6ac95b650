//! Scenario families and the properties they decide
pub mod adnl;
pub mod chain;
pub mod cluster;
pub mod codecpeer;
pub mod dht;
pub mod fuzz;
pub mod neigh;
pub mod overlay;
pub mod rldp;

use simcore::SimRng;

use crate::plan::Plan;

pub struct Info {
    pub quick_runs: u64,
    pub nontrivial: &'static str,
    pub real: Vec<&'static str>,
    pub assumptions: Vec<&'static str>,
}

const ADNL_REAL: &str = "all of src/adnl, src/subscriber, src/util, src/proto/adnl.rs";
const RLDP_REAL: &str = "all of src/rldp (fountain coding and zstd compression included), src/proto/rldp.rs";
const DHT_REAL: &str = "all of src/dht, src/proto/dht.rs";
const OVERLAY_REAL: &str = "all of src/overlay, src/proto/overlay.rs, fountain coding and zstd compression of src/rldp";
const ASSUME: &[&str] = &[
    "tasks interleave at await points only (each poll is atomic); preemption inside synchronous code is not explored",
    "the vendored tokio 1.54 sync primitives behave as the locked tokio version",
    "ed25519, AES-CTR and SHA-256 are not broken",
];

pub fn all() -> Vec<String> {
    let mut v: Vec<String> = (1..=12).map(|i| format!("A{i:02}")).collect();
    v.extend((1..=4).map(|i| format!("R{i:02}")));
    v.extend((1..=7).map(|i| format!("D{i:02}")));
    v.extend((1..=9).map(|i| format!("O{i:02}")));
    v
}

pub fn info(p: &str) -> Option<Info> {
    let (quick_runs, nontrivial, real) = match p.as_bytes().first()? {
        b'A' if p == "A08" => (1_000_000, adnl::info(p)?.1, vec![ADNL_REAL, RLDP_REAL, DHT_REAL, OVERLAY_REAL]),
        b'A' if p == "A12" => (1_000_000, "a message or query was offered to a subscriber, or ended", vec![ADNL_REAL, RLDP_REAL]),
        b'A' => (1_000_000, adnl::info(p)?.1, vec![ADNL_REAL]),
        b'R' => (1_000_000, rldp::info(p)?, vec![ADNL_REAL, RLDP_REAL]),
        b'D' => (1_000_000, dht::info(p)?, vec![ADNL_REAL, DHT_REAL]),
        b'O' if p == "O09" => (1_000_000, "a broadcast's recipients, a list of peers or a count was compared with the active members", vec![ADNL_REAL, OVERLAY_REAL]),
        b'O' => (1_000_000, overlay::info(p)?, vec![ADNL_REAL, OVERLAY_REAL]),
        _ => return None,
    };
    Some(Info { quick_runs, nontrivial, real, assumptions: ASSUME.to_vec() })
}

pub fn generate(p: &str, seed: u64, index: u64, thorough: bool) -> Plan {
    let ph = p.bytes().fold(0u64, |h, b| simcore::rng::mix(h, b as u64));
    let s = simcore::rng::mix(simcore::rng::mix(seed, ph), index);
    let mut rng = SimRng::new(s, 500);
    // nothing a peer sends may bring a node down, on any layer
    let from = match (p, rng.below(10)) {
        ("A08", 0) => *rng.pick(&["R01", "R03", "R04"]),
        ("A08", 1) => *rng.pick(&["D01", "D02", "D03", "D04", "D06"]),
        ("A08", 2) => *rng.pick(&["O03", "O04", "O07", "O08"]),
        _ => p,
    };
    let mut plan = match from.as_bytes()[0] {
        b'R' => rldp::generate(from, index, s, &mut rng, thorough),
        b'D' => dht::generate(from, index, s, &mut rng, thorough),
        b'O' if p == "O09" => neigh::generate(from, index, s, &mut rng, thorough),
        b'O' => overlay::generate(from, index, s, &mut rng, thorough),
        _ if p == "A12" => chain::generate(from, index, s, &mut rng, thorough),
        _ => adnl::generate(p, index, s, &mut rng, thorough),
    };
    plan.focus = p.into();
    if p == "A08" && plan.family == "dht" && rng.chance(0.2) {
        plan.push(rng.range(10, 300), crate::plan::Op::DRaw { n: 0, kind: 10, arg: rng.next() >> 20 });
    }
    plan.finish()
}

pub async fn main(plan: Plan) {
    match plan.family.as_str() {
        "adnl" => adnl::main(plan).await,
        "chain" => chain::main(plan).await,
        "rldp" => rldp::main(plan).await,
        "dht" => dht::main(plan).await,
        "neigh" => neigh::main(plan).await,
        "overlay" => overlay::main(plan).await,
        f => panic!("unknown scenario family {f}"),
    }
    cleanup();
}

/// Drops everything a run left in thread-local state
pub fn cleanup() {
    adnl::clear();
    chain::clear();
    rldp::clear();
    dht::clear();
    neigh::clear();
    overlay::clear();
    cluster::clear();
}
