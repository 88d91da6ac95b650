use std::cell::{Cell, RefCell};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, HashMap, HashSet, VecDeque};
use std::future::Future;
use std::hash::{BuildHasherDefault, Hasher};
use std::net::{Ipv4Addr, SocketAddrV4};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

use crate::rng::{mix, SimRng};

/// Deterministic hasher for the simulator's own maps
#[derive(Default, Clone, Copy)]
pub struct DetHasher(u64);
impl Hasher for DetHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for c in bytes.chunks(8) {
            let mut v = [0u8; 8];
            v[..c.len()].copy_from_slice(c);
            self.0 = mix(self.0, u64::from_le_bytes(v));
        }
    }
}
pub type DetMap<K, V> = HashMap<K, V, BuildHasherDefault<DetHasher>>;
pub type DetSet<K> = HashSet<K, BuildHasherDefault<DetHasher>>;

pub const BASE_REALTIME: u64 = 1_700_000_000_000_000_000;
pub const BASE_MONO: u64 = 1_000_000_000_000_000;

pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Ctx {
    pub node: u32,
    pub inc: u32,
    pub task: usize,
}

thread_local! {
    pub(crate) static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static STOP: Cell<bool> = const { Cell::new(false) };
    pub(crate) static NOW: Cell<u64> = const { Cell::new(0) };
    pub(crate) static CUR: Cell<Ctx> = const { Cell::new(Ctx { node: 0, inc: 0, task: usize::MAX }) };
    pub(crate) static CUR_SKEW: Cell<i64> = const { Cell::new(0) };
    pub(crate) static ENTROPY: Cell<SimRng> = const { Cell::new(SimRng::zero()) };
    static WORLD: RefCell<Option<Box<World>>> = const { RefCell::new(None) };
    static READY: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) };
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Policy {
    /// oldest ready task first
    Fifo,
    /// uniformly random ready task
    Random,
    /// random priorities per task, with random priority changes
    Priority,
    /// newest ready task first most of the time
    Lifo,
}

#[derive(Clone, Debug)]
pub struct NetCfg {
    pub lat_min_us: u64,
    pub lat_max_us: u64,
    pub loss: f64,
    pub dup: f64,
    pub reorder: f64,
    pub reorder_max_us: u64,
    pub corrupt: f64,
    pub truncate: f64,
    pub send_err: f64,
    pub recv_err: f64,
    pub queue_cap: usize,
}

impl Default for NetCfg {
    fn default() -> Self {
        Self {
            lat_min_us: 200,
            lat_max_us: 2_000,
            loss: 0.0,
            dup: 0.0,
            reorder: 0.0,
            reorder_max_us: 0,
            corrupt: 0.0,
            truncate: 0.0,
            send_err: 0.0,
            recv_err: 0.0,
            queue_cap: 100_000,
        }
    }
}

#[derive(Clone, Debug)]
pub struct SimCfg {
    pub seed: u64,
    pub policy: Policy,
    pub step_min_ns: u64,
    pub step_max_ns: u64,
    /// probability that a chosen ready task is held back for a while instead
    pub stall: f64,
    pub stall_max_us: u64,
    pub timer_late_max_us: u64,
    pub net: NetCfg,
    pub max_steps: u64,
    pub max_time_ns: u64,
    /// keep datagram contents in the wire log
    pub capture: bool,
    /// keep a textual event log
    pub log: bool,
    /// if set, only the faults with these firing indices take effect
    pub only_faults: Option<Vec<u64>>,
}

impl SimCfg {
    pub fn new(seed: u64) -> Self {
        Self {
            seed,
            policy: Policy::Random,
            step_min_ns: 500,
            step_max_ns: 20_000,
            stall: 0.0,
            stall_max_us: 0,
            timer_late_max_us: 300,
            net: NetCfg::default(),
            max_steps: 3_000_000,
            max_time_ns: 3600 * SEC,
            capture: false,
            log: false,
            only_faults: None,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Fault {
    Loss,
    Dup,
    Reorder,
    Corrupt,
    Truncate,
    SendErr,
    RecvErr,
    Stall,
    Partition,
    Crash,
    Restart,
    ClockSkew,
    ClockJump,
    Pause,
    Cancel,
    Hold,
    TargetedDrop,
    Hostile,
    Replay,
    Overflow,
    Shutdown,
}

impl Fault {
    pub fn name(self) -> &'static str {
        match self {
            Fault::Loss => "packet_loss",
            Fault::Dup => "packet_duplication",
            Fault::Reorder => "packet_extra_delay_reorder",
            Fault::Corrupt => "packet_bit_corruption",
            Fault::Truncate => "packet_truncation",
            Fault::SendErr => "send_error",
            Fault::RecvErr => "recv_error",
            Fault::Stall => "task_stall",
            Fault::Partition => "partitioned_packet",
            Fault::Crash => "node_crash",
            Fault::Restart => "node_restart",
            Fault::ClockSkew => "clock_skew",
            Fault::ClockJump => "clock_jump",
            Fault::Pause => "node_pause",
            Fault::Cancel => "caller_cancelled",
            Fault::Hold => "packet_held_and_released",
            Fault::TargetedDrop => "targeted_drop",
            Fault::Hostile => "hostile_datagram",
            Fault::Replay => "replayed_datagram",
            Fault::Overflow => "socket_queue_overflow",
            Fault::Shutdown => "node_shutdown",
        }
    }
}

pub(crate) struct Task {
    pub fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    pub node: u32,
    pub inc: u32,
    pub prio: u64,
    pub handle: Arc<TaskHandle>,
    pub polling: bool,
    pub kill: bool,
}

pub struct TaskHandle {
    pub id: usize,
    pub queued: AtomicBool,
    pub done: AtomicBool,
}

impl Wake for TaskHandle {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if self.done.load(Ordering::Relaxed) {
            return;
        }
        if !self.queued.swap(true, Ordering::Relaxed) {
            let _ = READY.try_with(|r| r.borrow_mut().push(self.id));
        }
    }
}

pub(crate) enum Event {
    Wake(Waker, Arc<AtomicBool>),
    Deliver(Packet),
    Unstall(usize),
    Unpause(u32, u64),
}

pub struct Packet {
    pub src: SocketAddrV4,
    pub dst: SocketAddrV4,
    pub data: Rc<[u8]>,
    pub wire: usize,
}

struct TimerEntry {
    at: u64,
    seq: u64,
    ev: Event,
}
impl PartialEq for TimerEntry {
    fn eq(&self, o: &Self) -> bool {
        self.at == o.at && self.seq == o.seq
    }
}
impl Eq for TimerEntry {}
impl PartialOrd for TimerEntry {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TimerEntry {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.at, self.seq).cmp(&(o.at, o.seq))
    }
}

pub struct NodeState {
    pub ip: Ipv4Addr,
    pub inc: u32,
    pub alive: bool,
    pub skew_ns: i64,
    pub paused_until: u64,
    parked: Vec<usize>,
}

pub(crate) struct Sock {
    pub addr: SocketAddrV4,
    pub node: u32,
    pub inc: u32,
    pub queue: VecDeque<(SocketAddrV4, Rc<[u8]>)>,
    pub wakers: Vec<Waker>,
    pub closed: bool,
}

/// One datagram handed to the network by a socket (or injected)
#[derive(Clone)]
pub struct WireRec {
    pub t: u64,
    pub node: u32,
    pub inc: u32,
    pub src: SocketAddrV4,
    pub dst: SocketAddrV4,
    pub len: usize,
    pub hash: u64,
    pub injected: bool,
    pub data: Option<Rc<[u8]>>,
    /// copies that reached a socket
    pub delivered: u32,
    /// copies that reached a socket after modification by the network
    pub damaged: bool,
    pub first_delivery: u64,
    pub last_delivery: u64,
}

#[derive(Clone, Debug)]
pub struct PanicRec {
    pub node: u32,
    pub inc: u32,
    pub t: u64,
    pub msg: String,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct LinkRule {
    pub blocked: bool,
    pub loss: f64,
    pub drop_next: u32,
    pub hold: bool,
    pub extra_delay_us: u64,
}

pub struct World {
    pub cfg: SimCfg,
    rng_sched: SimRng,
    rng_net: SimRng,
    rng_fault: SimRng,
    pub(crate) tasks: Vec<Option<Task>>,
    free: Vec<usize>,
    timers: BinaryHeap<Reverse<TimerEntry>>,
    tseq: u64,
    pub(crate) nodes: Vec<NodeState>,
    pub(crate) socks: Vec<Sock>,
    pub(crate) by_addr: DetMap<SocketAddrV4, usize>,
    pub(crate) fds: DetMap<i32, usize>,
    pub(crate) next_port: u16,
    pub wire: Vec<WireRec>,
    links: DetMap<(Ipv4Addr, Ipv4Addr), LinkRule>,
    held: Vec<(Ipv4Addr, Ipv4Addr, Packet)>,
    pub panics: Vec<PanicRec>,
    pub steps: u64,
    trace: u64,
    last_ev: u64,
    pub bigrams: DetSet<u64>,
    fault_idx: u64,
    pub fired: Vec<(u64, Fault)>,
    only: Option<DetSet<u64>>,
    pub fault_counts: BTreeMap<Fault, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub log: Vec<String>,
    tapped: DetMap<SocketAddrV4, usize>,
    pub raw_inbox: Vec<VecDeque<(SocketAddrV4, Rc<[u8]>)>>,
}

pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|w| f(w.borrow_mut().as_mut().expect("no simulation is running")))
}

pub fn try_with<R>(f: impl FnOnce(&mut World) -> R) -> Option<R> {
    WORLD
        .try_with(|w| match w.try_borrow_mut() {
            Ok(mut w) => w.as_mut().map(|w| f(w)),
            Err(_) => None,
        })
        .ok()
        .flatten()
}

pub fn is_active() -> bool {
    ACTIVE.try_with(|a| a.get()).unwrap_or(false)
}

/// Simulated nanoseconds since the start of the run
pub fn now_ns() -> u64 {
    NOW.with(|n| n.get())
}

pub fn now_ms() -> u64 {
    now_ns() / MS
}

/// Unix seconds as the given node sees them
pub fn wall_secs(node: u32) -> u32 {
    let skew = with(|w| w.nodes[node as usize].skew_ns);
    (((BASE_REALTIME + now_ns()) as i64 + skew) / SEC as i64) as u32
}

pub fn cur() -> Ctx {
    CUR.with(|c| c.get())
}

fn set_ctx(c: Ctx) {
    CUR.with(|x| x.set(c));
    let skew = with(|w| w.nodes[c.node as usize].skew_ns);
    CUR_SKEW.with(|s| s.set(skew));
}

/// Runs synchronous code in the context of a node
pub fn on_node<R>(node: u32, f: impl FnOnce() -> R) -> R {
    struct Restore(Ctx);
    impl Drop for Restore {
        fn drop(&mut self) {
            set_ctx(self.0)
        }
    }
    let old = cur();
    let inc = with(|w| w.nodes[node as usize].inc);
    let _r = Restore(old);
    set_ctx(Ctx { node, inc, task: old.task });
    f()
}

impl World {
    fn new(cfg: SimCfg) -> Self {
        let seed = cfg.seed;
        Self {
            rng_sched: SimRng::new(seed, 1),
            rng_net: SimRng::new(seed, 2),
            rng_fault: SimRng::new(seed, 3),
            tasks: Vec::new(),
            free: Vec::new(),
            timers: BinaryHeap::new(),
            tseq: 0,
            nodes: vec![NodeState {
                ip: Ipv4Addr::new(10, 255, 0, 1),
                inc: 0,
                alive: true,
                skew_ns: 0,
                paused_until: 0,
                parked: Vec::new(),
            }],
            socks: Vec::new(),
            by_addr: Default::default(),
            fds: Default::default(),
            next_port: 40_000,
            wire: Vec::new(),
            links: Default::default(),
            held: Vec::new(),
            panics: Vec::new(),
            steps: 0,
            trace: seed,
            last_ev: 0,
            bigrams: Default::default(),
            fault_idx: 0,
            fired: Vec::new(),
            only: cfg.only_faults.as_ref().map(|v| v.iter().copied().collect()),
            fault_counts: BTreeMap::new(),
            probes: BTreeMap::new(),
            log: Vec::new(),
            tapped: Default::default(),
            raw_inbox: Vec::new(),
            cfg,
        }
    }

    pub(crate) fn trace_ev(&mut self, kind: u64, a: u64, b: u64) {
        let e = mix(mix(kind, a), b);
        self.trace = mix(self.trace, mix(e, NOW.with(|n| n.get())));
        let coarse = mix(kind, a);
        self.bigrams.insert(mix(self.last_ev, coarse));
        self.last_ev = coarse;
    }

    fn logln(&mut self, f: impl FnOnce() -> String) {
        if self.cfg.log {
            let t = NOW.with(|n| n.get());
            let s = f();
            self.log.push(format!("{:>14.6}ms {}", t as f64 / 1e6, s));
        }
    }

    pub fn trace_hash(&self) -> u64 {
        self.trace
    }

    /// Draws one fault decision; every fault that fires has an index so that replays can
    /// keep only some of them
    pub fn fire(&mut self, f: Fault, p: f64) -> bool {
        if p <= 0.0 {
            return false;
        }
        if !self.rng_fault.chance(p) {
            return false;
        }
        let idx = self.fault_idx;
        self.fault_idx += 1;
        if let Some(only) = &self.only {
            if !only.contains(&idx) {
                return false;
            }
        }
        self.fired.push((idx, f));
        self.count(f);
        true
    }

    pub fn count(&mut self, f: Fault) {
        *self.fault_counts.entry(f).or_default() += 1;
    }

    pub fn probe(&mut self, name: &'static str) {
        *self.probes.entry(name).or_default() += 1;
    }

    pub(crate) fn at(&mut self, t: u64, ev: Event) {
        let seq = self.tseq;
        self.tseq += 1;
        self.timers.push(Reverse(TimerEntry { at: t, seq, ev }));
    }

    pub(crate) fn timer_jitter(&mut self) -> u64 {
        let m = self.cfg.timer_late_max_us;
        if m == 0 {
            0
        } else {
            self.rng_sched.below(m * US)
        }
    }

    // ---------------------------------------------------------------- network
    pub(crate) fn send(&mut self, src: SocketAddrV4, dst: SocketAddrV4, data: &[u8], injected: bool, extra_us: u64) {
        let ctx = CUR.with(|c| c.get());
        let mut h = DetHasher::default();
        h.write(data);
        let hash = h.finish();
        let rc: Rc<[u8]> = data.into();
        let wire = self.wire.len();
        self.wire.push(WireRec {
            t: now_ns(),
            node: ctx.node,
            inc: ctx.inc,
            src,
            dst,
            len: data.len(),
            hash,
            injected,
            data: if self.cfg.capture { Some(rc.clone()) } else { None },
            delivered: 0,
            damaged: false,
            first_delivery: 0,
            last_delivery: 0,
        });
        self.trace_ev(10, (ctx.node as u64) << 8 | injected as u64, hash);
        self.logln(|| format!("send #{wire} {src} -> {dst} len={} h={:08x}{}", data.len(), hash as u32, if injected { " (injected)" } else { "" }));

        let mut pkt = Packet { src, dst, data: rc, wire };
        // loopback stays on the host
        if dst.ip().is_loopback() {
            pkt.dst.set_ip(*src.ip());
            pkt.src.set_ip(Ipv4Addr::LOCALHOST);
            let t = now_ns() + 20 * US + self.rng_net.below(100 * US);
            self.at(t, Event::Deliver(pkt));
            return;
        }
        let n = self.cfg.net.clone();
        let mut loss = n.loss;
        let mut delay_us = extra_us;
        let mut rule_hold = false;
        if let Some(r) = self.links.get_mut(&(*src.ip(), *dst.ip())) {
            if r.blocked {
                self.count(Fault::Partition);
                self.logln(|| format!("  blocked #{wire}"));
                return;
            }
            if r.drop_next > 0 {
                r.drop_next -= 1;
                self.count(Fault::TargetedDrop);
                self.logln(|| format!("  targeted drop #{wire}"));
                return;
            }
            loss = loss.max(r.loss);
            delay_us += r.extra_delay_us;
            rule_hold = r.hold;
        }
        if self.fire(Fault::Loss, loss) {
            self.logln(|| format!("  lost #{wire}"));
            return;
        }
        if self.fire(Fault::Corrupt, n.corrupt) && !pkt.data.is_empty() {
            let mut v = pkt.data.to_vec();
            for _ in 0..=self.rng_net.below(3) {
                let i = self.rng_net.below(v.len() as u64 * 8) as usize;
                v[i / 8] ^= 1 << (i % 8);
            }
            if v[..] != pkt.data[..] {
                self.wire[wire].damaged = true;
            }
            pkt.data = v.into();
        }
        if self.fire(Fault::Truncate, n.truncate) && !pkt.data.is_empty() {
            let l = self.rng_net.below(pkt.data.len() as u64) as usize;
            pkt.data = pkt.data[..l].into();
            self.wire[wire].damaged = true;
        }
        if rule_hold {
            self.count(Fault::Hold);
            self.logln(|| format!("  held #{wire}"));
            self.held.push((*src.ip(), *dst.ip(), pkt));
            return;
        }
        let copies = 1 + self.fire(Fault::Dup, n.dup) as u32 * (1 + self.rng_net.below(2) as u32);
        for _ in 0..copies {
            let mut d = self.rng_net.range(n.lat_min_us * US, n.lat_max_us * US) + delay_us * US;
            if self.fire(Fault::Reorder, n.reorder) {
                d += self.rng_net.below(n.reorder_max_us.max(1) * US);
            }
            let t = now_ns() + d;
            self.at(
                t,
                Event::Deliver(Packet {
                    src: pkt.src,
                    dst: pkt.dst,
                    data: pkt.data.clone(),
                    wire: pkt.wire,
                }),
            );
        }
    }

    fn deliver(&mut self, p: Packet) -> Vec<Waker> {
        if let Some(&i) = self.tapped.get(&p.dst) {
            self.raw_inbox[i].push_back((p.src, p.data));
            return Vec::new();
        }
        let Some(&s) = self.by_addr.get(&p.dst) else {
            self.probe("packet_to_dead_port");
            return Vec::new();
        };
        let node = self.socks[s].node;
        self.trace_ev(11, node as u64, self.wire[p.wire].hash);
        let wire = p.wire;
        self.logln(|| format!("deliver #{wire} at node {node} len={}", p.data.len()));
        let cap = self.cfg.net.queue_cap;
        let sock = &mut self.socks[s];
        if sock.queue.len() >= cap {
            self.count(Fault::Overflow);
            return Vec::new();
        }
        sock.queue.push_back((p.src, p.data));
        let w = std::mem::take(&mut sock.wakers);
        let rec = &mut self.wire[p.wire];
        if rec.delivered == 0 {
            rec.first_delivery = now_ns();
        }
        rec.last_delivery = now_ns();
        rec.delivered += 1;
        w
    }
}

// -------------------------------------------------------------------- control API

pub fn add_node(ip: Ipv4Addr) -> u32 {
    with(|w| {
        w.nodes.push(NodeState {
            ip,
            inc: 0,
            alive: true,
            skew_ns: 0,
            paused_until: 0,
            parked: Vec::new(),
        });
        (w.nodes.len() - 1) as u32
    })
}

pub fn node_inc(node: u32) -> u32 {
    with(|w| w.nodes[node as usize].inc)
}

pub fn is_alive(node: u32) -> bool {
    with(|w| w.nodes[node as usize].alive)
}

pub fn set_skew(node: u32, ns: i64) {
    with(|w| {
        w.nodes[node as usize].skew_ns = ns;
    });
    if cur().node == node {
        CUR_SKEW.with(|s| s.set(ns));
    }
}

/// Stops scheduling the node's tasks for a while (packets keep queueing)
pub fn pause(node: u32, dur_ns: u64) {
    with(|w| {
        let until = now_ns() + dur_ns;
        let n = &mut w.nodes[node as usize];
        n.paused_until = n.paused_until.max(until);
        let u = n.paused_until;
        w.count(Fault::Pause);
        w.at(u, Event::Unpause(node, u));
        w.logln(|| format!("pause node {node} for {}ms", dur_ns / MS));
    })
}

/// Kills every task of the node and closes its sockets; bumps the incarnation
pub fn crash(node: u32) {
    let (futs, inc) = with(|w| {
        w.logln(|| format!("crash node {node}"));
        w.trace_ev(20, node as u64, 0);
        let inc = w.nodes[node as usize].inc;
        w.nodes[node as usize].alive = false;
        w.nodes[node as usize].parked.clear();
        w.nodes[node as usize].paused_until = 0;
        let mut futs = Vec::new();
        for id in 0..w.tasks.len() {
            let Some(t) = &mut w.tasks[id] else { continue };
            if t.node != node || t.inc != inc {
                continue;
            }
            if t.polling {
                t.kill = true;
                continue;
            }
            let t = w.tasks[id].take().unwrap();
            t.handle.done.store(true, Ordering::Relaxed);
            futs.push(t);
            w.free.push(id);
        }
        for s in &mut w.socks {
            if s.node == node && !s.closed {
                s.closed = true;
                s.queue.clear();
                if w.by_addr.get(&s.addr).is_some() {
                    w.by_addr.remove(&s.addr);
                }
            }
        }
        (futs, inc)
    });
    // ids freed above may still be in READY; a stale entry is ignored because the handle differs
    READY.with(|r| {
        let mut r = r.borrow_mut();
        let dead: DetSet<usize> = futs.iter().map(|t| t.handle.id).collect();
        r.retain(|id| !dead.contains(id));
    });
    let old = cur();
    set_ctx(Ctx { node, inc, task: usize::MAX });
    drop(futs);
    set_ctx(old);
    with(|w| {
        w.count(Fault::Crash);
    });
}

/// Makes a crashed node usable again (new incarnation)
pub fn revive(node: u32) -> u32 {
    with(|w| {
        let n = &mut w.nodes[node as usize];
        n.inc += 1;
        n.alive = true;
        let inc = n.inc;
        w.count(Fault::Restart);
        w.trace_ev(21, node as u64, inc as u64);
        w.logln(|| format!("revive node {node} inc {inc}"));
        inc
    })
}

pub fn set_net(f: impl FnOnce(&mut NetCfg)) {
    with(|w| f(&mut w.cfg.net))
}

pub fn link(a: Ipv4Addr, b: Ipv4Addr, f: impl FnOnce(&mut LinkRule)) {
    with(|w| f(w.links.entry((a, b)).or_default()))
}

pub fn heal_links() {
    with(|w| w.links.clear());
    release_held(None);
}

/// Releases packets held on links in random order
pub fn release_held(only: Option<(Ipv4Addr, Ipv4Addr)>) {
    with(|w| {
        let mut held = std::mem::take(&mut w.held);
        w.rng_net.shuffle(&mut held);
        for (a, b, p) in held {
            if only.map_or(true, |o| o == (a, b)) {
                let t = now_ns() + w.rng_net.below(2 * MS);
                w.at(t, Event::Deliver(p));
            } else {
                w.held.push((a, b, p));
            }
        }
    })
}

/// Datagrams from a host under the harness' control (source address may be forged)
pub fn inject(src: SocketAddrV4, dst: SocketAddrV4, data: &[u8], delay_us: u64) {
    with(|w| w.send(src, dst, data, true, delay_us))
}

/// Delivers bytes to an address reliably, bypassing link faults
pub fn inject_direct(src: SocketAddrV4, dst: SocketAddrV4, data: &[u8], delay_us: u64) {
    with(|w| {
        let wire = w.wire.len();
        let mut h = DetHasher::default();
        h.write(data);
        let hash = h.finish();
        w.wire.push(WireRec {
            t: now_ns(),
            node: 0,
            inc: 0,
            src,
            dst,
            len: data.len(),
            hash,
            injected: true,
            data: None,
            delivered: 0,
            damaged: false,
            first_delivery: 0,
            last_delivery: 0,
        });
        w.trace_ev(12, 0, hash);
        w.logln(|| format!("inject #{wire} {src} -> {dst} len={} h={:08x}", data.len(), hash as u32));
        let t = now_ns() + delay_us * US;
        w.at(
            t,
            Event::Deliver(Packet {
                src,
                dst,
                data: data.into(),
                wire,
            }),
        );
    })
}

/// A raw endpoint: packets for `addr` are collected for the harness
pub fn raw_endpoint(addr: SocketAddrV4) -> usize {
    with(|w| {
        let i = w.raw_inbox.len();
        w.raw_inbox.push(VecDeque::new());
        w.tapped.insert(addr, i);
        i
    })
}

pub fn raw_recv(i: usize) -> Option<(SocketAddrV4, Rc<[u8]>)> {
    with(|w| w.raw_inbox[i].pop_front())
}

pub fn probe(name: &'static str) {
    let _ = try_with(|w| w.probe(name));
}

pub fn count_fault(f: Fault) {
    let _ = try_with(|w| w.count(f));
}

pub fn log_with(f: impl FnOnce() -> String) {
    let _ = try_with(|w| w.logln(f));
}

/// Extra entropy for the trace hash (scenario level observations)
pub fn trace(kind: u64, a: u64, b: u64) {
    let _ = try_with(|w| w.trace_ev(100 + kind, a, b));
}

// -------------------------------------------------------------------- executor

pub(crate) fn spawn_raw(fut: Pin<Box<dyn Future<Output = ()>>>) -> Option<Arc<TaskHandle>> {
    let ctx = cur();
    let r = with(|w| {
        let n = &w.nodes[ctx.node as usize];
        if !n.alive || n.inc != ctx.inc {
            return Err(fut);
        }
        let id = match w.free.pop() {
            Some(id) => id,
            None => {
                w.tasks.push(None);
                w.tasks.len() - 1
            }
        };
        let handle = Arc::new(TaskHandle {
            id,
            queued: AtomicBool::new(true),
            done: AtomicBool::new(false),
        });
        let prio = w.rng_sched.next();
        w.tasks[id] = Some(Task {
            fut: Some(fut),
            node: ctx.node,
            inc: ctx.inc,
            prio,
            handle: handle.clone(),
            polling: false,
            kill: false,
        });
        READY.with(|r| r.borrow_mut().push(id));
        Ok(handle)
    });
    match r {
        Ok(h) => Some(h),
        Err(fut) => {
            drop(fut);
            None
        }
    }
}

pub(crate) fn kill_task(h: &Arc<TaskHandle>) {
    let t = with(|w| {
        let slot = w.tasks.get_mut(h.id)?;
        match slot {
            Some(t) if Arc::ptr_eq(&t.handle, h) => {
                if t.polling {
                    t.kill = true;
                    return None;
                }
                let t = slot.take();
                h.done.store(true, Ordering::Relaxed);
                w.free.push(h.id);
                for n in &mut w.nodes {
                    n.parked.retain(|id| *id != h.id);
                }
                t
            }
            _ => None,
        }
    });
    if let Some(t) = t {
        READY.with(|r| r.borrow_mut().retain(|id| *id != h.id));
        let old = cur();
        set_ctx(Ctx { node: t.node, inc: t.inc, task: usize::MAX });
        drop(t);
        set_ctx(old);
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    /// the main future completed
    Done,
    /// no task is runnable and no timer is pending
    Stuck,
    StepLimit,
    TimeLimit,
    /// stopped on request
    Stopped,
}

fn take_panic_msg(p: Box<dyn std::any::Any + Send>) -> String {
    let m = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    };
    let loc = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
    format!("{m} at {loc}")
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if is_active() {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = Some(loc));
        } else {
            old(info);
        }
    }));
}

pub struct RunResult {
    pub end: End,
    pub steps: u64,
    pub sim_ns: u64,
    pub world: Box<World>,
}

/// Ends the current simulation after the current task poll
pub fn request_stop() {
    STOP.with(|s| s.set(true));
}

/// Runs one simulation on the current (fresh) thread
pub fn run(cfg: SimCfg, main: impl Future<Output = ()> + 'static) -> RunResult {
    ENTROPY.with(|e| e.set(SimRng::new(cfg.seed, 77)));
    HASH_SEED.with(|h| h.set(mix(cfg.seed, 78)));
    NOW.with(|n| n.set(0));
    READY.with(|r| r.borrow_mut().clear());
    let (max_steps, max_time) = (cfg.max_steps, cfg.max_time_ns);
    WORLD.with(|w| *w.borrow_mut() = Some(Box::new(World::new(cfg))));
    STOP.with(|s| s.set(false));
    ACTIVE.with(|a| a.set(true));
    set_ctx(Ctx { node: 0, inc: 0, task: usize::MAX });
    let done = Rc::new(Cell::new(false));
    let d2 = done.clone();
    spawn_raw(Box::pin(async move {
        main.await;
        d2.set(true);
    }));

    let end = loop {
        if done.get() {
            break End::Done;
        }
        if STOP.with(|s| s.get()) {
            break End::Stopped;
        }
        // fire due timers
        loop {
            let ev = with(|w| match w.timers.peek() {
                Some(Reverse(e)) if e.at <= now_ns() => w.timers.pop().map(|e| e.0.ev),
                _ => None,
            });
            match ev {
                None => break,
                Some(ev) => fire_event(ev),
            }
        }
        // choose a task
        let pick = READY.with(|r| {
            let mut r = r.borrow_mut();
            if r.is_empty() {
                return None;
            }
            Some(with(|w| {
                let i = match w.cfg.policy {
                    Policy::Fifo => 0,
                    Policy::Random => w.rng_sched.below(r.len() as u64) as usize,
                    Policy::Lifo => {
                        if w.rng_sched.chance(0.2) {
                            w.rng_sched.below(r.len() as u64) as usize
                        } else {
                            r.len() - 1
                        }
                    }
                    Policy::Priority => {
                        let mut best = 0;
                        let mut bp = 0;
                        for (i, id) in r.iter().enumerate() {
                            let p = w.tasks[*id].as_ref().map_or(u64::MAX, |t| t.prio);
                            if p >= bp {
                                bp = p;
                                best = i;
                            }
                        }
                        if w.rng_sched.chance(0.05) {
                            let np = w.rng_sched.next();
                            if let Some(t) = w.tasks[r[best]].as_mut() {
                                t.prio = np;
                            }
                        }
                        best
                    }
                };
                if matches!(w.cfg.policy, Policy::Fifo) {
                    r.remove(i)
                } else {
                    r.swap_remove(i)
                }
            }))
        });
        let Some(id) = pick else {
            let next = with(|w| w.timers.peek().map(|e| e.0.at));
            match next {
                None => break End::Stuck,
                Some(t) => {
                    if t > max_time {
                        break End::TimeLimit;
                    }
                    if t > now_ns() {
                        NOW.with(|n| n.set(t));
                    }
                }
            }
            continue;
        };
        // poll it
        let polled = with(|w| {
            let Some(t) = w.tasks[id].as_mut() else { return None };
            let node = t.node;
            if w.nodes[node as usize].paused_until > now_ns() {
                w.nodes[node as usize].parked.push(id);
                return None;
            }
            if node != 0 && w.cfg.stall > 0.0 {
                let p = w.cfg.stall;
                if w.fire(Fault::Stall, p) {
                    let m = w.cfg.stall_max_us.max(1) * US;
                    let t = now_ns() + w.rng_sched.below(m);
                    w.at(t, Event::Unstall(id));
                    return None;
                }
            }
            let t = w.tasks[id].as_mut().unwrap();
            t.handle.queued.store(false, Ordering::Relaxed);
            t.polling = true;
            let r = (t.fut.take(), t.handle.clone(), t.node, t.inc);
            w.trace_ev(1, node as u64, id as u64);
            w.steps += 1;
            Some(r)
        });
        let Some((fut, handle, node, inc)) = polled else { continue };
        let Some(mut fut) = fut else { continue };
        set_ctx(Ctx { node, inc, task: id });
        let waker = Waker::from(handle.clone());
        let mut cx = Context::from_waker(&waker);
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            real_tokio::sim_coop::budget(|| fut.as_mut().poll(&mut cx))
        }));
        let finished = match res {
            Ok(Poll::Pending) => false,
            Ok(Poll::Ready(())) => true,
            Err(p) => {
                let msg = take_panic_msg(p);
                with(|w| {
                    w.logln(|| format!("PANIC node {node}: {msg}"));
                    w.panics.push(PanicRec { node, inc, t: now_ns(), msg })
                });
                true
            }
        };
        let kill = with(|w| {
            let t = w.tasks[id].as_mut().unwrap();
            t.polling = false;
            finished || t.kill
        });
        if kill {
            handle.done.store(true, Ordering::Relaxed);
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(fut)));
            READY.with(|r| r.borrow_mut().retain(|x| *x != id));
            with(|w| {
                w.tasks[id] = None;
                w.free.push(id);
            });
        } else {
            with(|w| w.tasks[id].as_mut().unwrap().fut = Some(fut));
        }
        set_ctx(Ctx { node: 0, inc: 0, task: usize::MAX });
        let (steps, cost) = with(|w| (w.steps, w.rng_sched.range(w.cfg.step_min_ns, w.cfg.step_max_ns)));
        NOW.with(|n| n.set(n.get() + cost));
        if steps > max_steps {
            break End::StepLimit;
        }
        if now_ns() > max_time {
            break End::TimeLimit;
        }
    };

    // tear down: drop all tasks inside the simulation context
    let (sim_ns, steps) = (now_ns(), with(|w| w.steps));
    let mut guard = 0;
    loop {
        let ts: Vec<Task> = with(|w| {
            for n in &mut w.nodes {
                n.alive = false;
            }
            w.tasks.iter_mut().filter_map(|t| t.take()).collect()
        });
        if ts.is_empty() || guard > 10 {
            break;
        }
        guard += 1;
        for t in ts {
            t.handle.done.store(true, Ordering::Relaxed);
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(t)));
        }
    }
    let timers = with(|w| std::mem::take(&mut w.timers));
    drop(timers);
    let world = WORLD.with(|w| w.borrow_mut().take()).unwrap();
    ACTIVE.with(|a| a.set(false));
    RunResult { end, steps, sim_ns, world }
}

fn fire_event(ev: Event) {
    match ev {
        Event::Wake(w, cancelled) => {
            if !cancelled.load(Ordering::Relaxed) {
                w.wake()
            }
        }
        Event::Deliver(p) => {
            let ws = with(|w| w.deliver(p));
            for w in ws {
                w.wake();
            }
        }
        Event::Unstall(id) => {
            let ok = with(|w| w.tasks[id].is_some());
            if ok {
                READY.with(|r| {
                    let mut r = r.borrow_mut();
                    if !r.contains(&id) {
                        r.push(id)
                    }
                });
            }
        }
        Event::Unpause(node, until) => {
            let ids = with(|w| {
                let n = &mut w.nodes[node as usize];
                if n.paused_until > until {
                    Vec::new()
                } else {
                    std::mem::take(&mut n.parked)
                }
            });
            READY.with(|r| r.borrow_mut().extend(ids));
        }
    }
}

thread_local! {
    static HASH_SEED: Cell<u64> = const { Cell::new(0) };
}

/// Seeds for hash tables: a per-run stream, so iteration orders vary between runs and repeat
pub fn hash_seed() -> u64 {
    if !is_active() {
        return 0x1234_5678;
    }
    HASH_SEED.with(|h| {
        let v = mix(h.get(), 0x68617368);
        h.set(v);
        v
    })
}
