//! What one simulated run consists of. A plan plus the code under test determines the run.
use serde::{Deserialize, Serialize};
use simcore::{NetCfg, Policy, SimCfg, SimRng, SEC};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Knobs {
    pub policy: u8,
    pub step_max_ns: u64,
    pub stall: f64,
    pub stall_max_us: u64,
    pub timer_late_max_us: u64,
    pub lat_min_us: u64,
    pub lat_max_us: u64,
    pub loss: f64,
    pub dup: f64,
    pub reorder: f64,
    pub reorder_max_us: u64,
    pub corrupt: f64,
    pub truncate: f64,
    pub send_err: f64,
    pub recv_err: f64,
}

impl Default for Knobs {
    fn default() -> Self {
        Self {
            policy: 0,
            step_max_ns: 5_000,
            stall: 0.0,
            stall_max_us: 0,
            timer_late_max_us: 0,
            lat_min_us: 200,
            lat_max_us: 2_000,
            loss: 0.0,
            dup: 0.0,
            reorder: 0.0,
            reorder_max_us: 0,
            corrupt: 0.0,
            truncate: 0.0,
            send_err: 0.0,
            recv_err: 0.0,
        }
    }
}

impl Knobs {
    pub fn random_sched(rng: &mut SimRng) -> Self {
        let mut k = Knobs {
            policy: rng.below(4) as u8,
            step_max_ns: *rng.pick(&[1_000, 5_000, 20_000]),
            timer_late_max_us: *rng.pick(&[0, 100, 800]),
            ..Default::default()
        };
        match rng.below(4) {
            0 => (k.lat_min_us, k.lat_max_us) = (50, 100),
            1 => (k.lat_min_us, k.lat_max_us) = (200, 3_000),
            2 => (k.lat_min_us, k.lat_max_us) = (1_000, 40_000),
            _ => (k.lat_min_us, k.lat_max_us) = (5_000, 120_000),
        }
        if rng.chance(0.3) {
            k.stall = *rng.pick(&[0.002, 0.01, 0.05]);
            k.stall_max_us = *rng.pick(&[500, 5_000, 50_000]);
        }
        k
    }

    /// Only delays and reordering, nothing lost
    pub fn lossless(rng: &mut SimRng) -> Self {
        let mut k = Self::random_sched(rng);
        if rng.chance(0.6) {
            k.reorder = *rng.pick(&[0.02, 0.2, 0.5]);
            k.reorder_max_us = *rng.pick(&[3_000, 30_000, 200_000]);
        }
        k
    }

    pub fn add_dups(&mut self, rng: &mut SimRng) {
        self.dup = *rng.pick(&[0.02, 0.1, 0.4]);
    }

    /// A random subset of network faults
    pub fn swarm(rng: &mut SimRng) -> Self {
        let mut k = Self::lossless(rng);
        if rng.chance(0.6) {
            k.loss = *rng.pick(&[0.01, 0.05, 0.2, 0.4]);
        }
        if rng.chance(0.5) {
            k.add_dups(rng);
        }
        if rng.chance(0.3) {
            k.corrupt = *rng.pick(&[0.01, 0.05, 0.2]);
        }
        if rng.chance(0.3) {
            k.truncate = *rng.pick(&[0.01, 0.05]);
        }
        if rng.chance(0.2) {
            k.send_err = *rng.pick(&[0.01, 0.05]);
        }
        if rng.chance(0.2) {
            k.recv_err = *rng.pick(&[0.01, 0.05]);
        }
        k
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NodeSpec {
    pub ip: u8,
    pub port: u16,
    pub keys: Vec<u64>,
    pub skew_ms: i64,
    pub history: bool,
    pub prio: bool,
    pub version: Option<u16>,
    pub loopback: bool,
    pub transfer_timeout: u64,
    pub clock_tolerance: u32,
    pub query_timeout: u64,
    #[serde(default = "thirty")]
    pub chan_reset: u32,
    #[serde(default = "yes")]
    pub sig_required: bool,
}

fn thirty() -> u32 {
    30
}

fn yes() -> bool {
    true
}

impl NodeSpec {
    pub fn new(i: usize) -> Self {
        Self {
            ip: i as u8 + 1,
            port: 3000 + i as u16,
            keys: vec![100 * (i as u64 + 1)],
            skew_ms: 0,
            history: false,
            prio: true,
            version: None,
            loopback: false,
            transfer_timeout: 3,
            clock_tolerance: 60,
            query_timeout: 5000,
            chan_reset: 30,
            sig_required: true,
        }
    }
    pub fn random(i: usize, rng: &mut SimRng) -> Self {
        let mut n = Self::new(i);
        n.history = rng.chance(0.4);
        n.prio = rng.chance(0.7);
        n.version = if rng.chance(0.3) { Some(0) } else { None };
        n.transfer_timeout = *rng.pick(&[3, 3, 2, 5]);
        n
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Step {
    pub at: u64,
    pub op: Op,
}

/// Everything a run can be told to do. `n`, `from`, `to` are node indices, `fk`, `tk` key indices.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    // ---- environment
    Crash { n: usize },
    Restart { n: usize },
    Pause { n: usize, ms: u64 },
    Skew { n: usize, ms: i64 },
    Partition { mask: u64 },
    Heal,
    LinkLoss { a: usize, b: usize, pct: u64 },
    DropNext { a: usize, b: usize, k: u32 },
    Hold { a: usize, b: usize },
    Release,
    Quiet,
    Shutdown { n: usize },
    MovePort { n: usize },
    // ---- adnl
    Msg { from: usize, fk: usize, to: usize, tk: usize, len: usize },
    Burst { from: usize, fk: usize, to: usize, tk: usize, len: usize, count: usize, gap_us: u64 },
    Isolated { from: usize, fk: usize, to: usize, tk: usize, len: usize, query: bool },
    Query { from: usize, fk: usize, to: usize, tk: usize, len: usize, ans: usize, mode: u8, delay: u64, timeout: u64, cancel: u64 },
    Forget { n: usize, k: usize, to: usize, tk: usize },
    Learn { n: usize, k: usize, to: usize, tk: usize },
    Idle { ms: u64 },
    // ---- hosts under harness control
    Attack { v: usize, vk: usize, p: usize, pk: usize, kind: u8, arg: u64 },
    /// a recorded channel packet arrives again
    ReplayChannel { i: u64 },
    ReplayWire { i: u64, to: Option<usize>, flip: u64, from_atk: bool },
    Fuzz { v: usize, seed: u64, kind: u8 },
    CodecMsg { v: usize, seqno: u64, prio: bool, chan: bool, dup: bool },
    CodecParts { v: usize, len: usize, parts: usize, gap_ms: u64, stop: usize, kind: u8 },
    CodecHello { v: usize },
    /// a fresh peer sends a packet with odd dates; `d`: seconds ahead
    CodecDated { v: usize, kind: u8, d: i64 },
    FilterMove { v: usize, kind: u8 },
    // ---- rldp
    RQuery { from: usize, to: usize, len: usize, ans: usize, mode: u8, delay: u64, cancel: u64, kind: u8 },
    RPush { n: usize, v: usize, kind: u8, arg: u64 },
    RGc { n: usize },
    // ---- dht
    DStore { n: usize, id: u64, len: usize, ttl: u64, mode: u8 },
    DFind { n: usize, id: u64, who: usize, mode: u8 },
    DStoreAddr { n: usize },
    DFindAddr { n: usize, who: usize },
    DStoreOverlay { n: usize, ov: u64 },
    DFindOverlay { n: usize, ov: u64 },
    DPing { n: usize, to: usize },
    DFindMore { n: usize },
    /// a host under harness control queries node `n`
    DRaw { n: usize, kind: u8, arg: u64 },
    /// a node record is given to node `n` (`who`: node index, or 100 + ghost index)
    DAdd { n: usize, who: usize, kind: u8, ver: u64 },
    DGhostRec { who: usize },
    DDown { n: usize, m: usize, fails: u32, how: u8 },
    DFlaky { n: usize, m: usize, bits: u32, len: u32, how: u8 },
    DLookups { n: usize, k: u32 },
    /// node `n` is given the records of `count` peers nobody runs
    DCrowd { n: usize, count: u32, arg: u64 },
    /// node `n` is asked for the nodes nearest to a key (`how`: 0 by the host, 1.. by node `m`)
    DNear { n: usize, m: usize, how: u8, k: u32, arg: u64 },
    // ---- overlay
    /// `kind`: content, `key`: 0 the overlay's key, 1 another key; `expl`: explicit targets
    OBcast { n: usize, ov: usize, len: usize, kind: u8, uid: u64, key: u8, expl: bool },
    /// `count` consumers; `ms` > 0: each wait is cancelled after so long and repeated after `gap`; `total` > 0: ends after so many waits
    OWait { n: usize, ov: usize, count: usize, ms: u64, gap: u64, total: u64 },
    OQuery { n: usize, ov: usize, to: usize, len: usize, rldp: bool },
    /// another user sends the same data
    OTwin { n: usize, ov: usize, len: usize, kind: u8, uid: u64 },
    /// a one-way message of the overlay
    OMsg { n: usize, ov: usize, to: usize, len: usize },
    OExchange { n: usize, ov: usize, to: usize },
    ORemove { n: usize, ov: usize, to: usize },
    OAdd { n: usize, ov: usize, to: usize },
    OAddBad { n: usize, ov: usize, kind: u8, arg: u64 },
    OTake { n: usize, ov: usize },
    /// hostile host `v` acts
    OHostile { v: usize, ov: usize, kind: u8, arg: u64 },
    /// hostile host `v` asks node `to` for peers
    OProbe { v: usize, ov: usize, to: usize, arg: u64 },
    OReplay { v: usize, ov: usize, arg: u64 },
    // ---- overlay neighbours
    /// member `x` is given to node `n` (0) or removed from it
    NMember { n: usize, x: usize, kind: u8 },
    NBcast { n: usize, len: usize },
    NCached { n: usize, amount: u32, cap: u32 },
    NAsk { n: usize, m: usize },
    NTurns { n: usize },
    // ---- subscriber chains
    /// `kind`: 0 message, 1 ADNL query, 2 RLDP query; `arg` seeds what the subscribers do with it
    CSend { kind: u8, from: usize, to: usize, len: usize, arg: u64 },
    /// a host under harness control sends several messages and queries in one packet
    CBundle { to: usize, chan: bool, arg: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub focus: String,
    pub family: String,
    pub index: u64,
    pub seed: u64,
    pub knobs: Knobs,
    pub nodes: Vec<NodeSpec>,
    /// scenario parameters
    pub p: BTreeMap<String, i64>,
    pub steps: Vec<Step>,
    /// harmless network afterwards: wait this long before the final checks (ms)
    pub settle: u64,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub only_faults: Option<Vec<u64>>,
}

impl Plan {
    pub fn new(focus: &str, family: &str, index: u64, seed: u64) -> Self {
        Self {
            focus: focus.into(),
            family: family.into(),
            index,
            seed,
            knobs: Knobs::default(),
            nodes: Vec::new(),
            p: BTreeMap::new(),
            steps: Vec::new(),
            settle: 1000,
            only_faults: None,
        }
    }
    pub fn get(&self, k: &str) -> i64 {
        self.p.get(k).copied().unwrap_or(0)
    }
    pub fn is(&self, k: &str) -> bool {
        self.get(k) != 0
    }
    pub fn set(&mut self, k: &str, v: i64) {
        self.p.insert(k.into(), v);
    }
    pub fn push(&mut self, at: u64, op: Op) {
        self.steps.push(Step { at, op });
    }
    pub fn finish(mut self) -> Self {
        self.steps.sort_by_key(|s| s.at);
        self
    }

    pub fn sim_cfg(&self, log: bool) -> SimCfg {
        let k = &self.knobs;
        let mut c = SimCfg::new(self.seed);
        c.policy = match k.policy {
            0 => Policy::Fifo,
            1 => Policy::Random,
            2 => Policy::Priority,
            _ => Policy::Lifo,
        };
        c.step_min_ns = 300.min(k.step_max_ns);
        c.step_max_ns = k.step_max_ns;
        c.stall = k.stall;
        c.stall_max_us = k.stall_max_us;
        c.timer_late_max_us = k.timer_late_max_us;
        c.net = NetCfg {
            lat_min_us: k.lat_min_us,
            lat_max_us: k.lat_max_us,
            loss: k.loss,
            dup: k.dup,
            reorder: k.reorder,
            reorder_max_us: k.reorder_max_us,
            corrupt: k.corrupt,
            truncate: k.truncate,
            send_err: k.send_err,
            recv_err: k.recv_err,
            queue_cap: 100_000,
        };
        c.capture = self.is("capture");
        c.log = log;
        c.only_faults = self.only_faults.clone();
        c.max_time_ns = 24 * 3600 * SEC;
        c.max_steps = 6_000_000;
        c
    }
}
