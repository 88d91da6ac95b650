//! Nodes under test and the environment operations common to all scenarios
use std::cell::RefCell;
use std::net::{Ipv4Addr, SocketAddrV4};
use std::rc::Rc;
use std::sync::Arc;

use everscale_network::adnl::{self, Keystore, NewPeerContext, NodeIdFull, NodeIdShort, NodeOptions};
use simcore::rt::spawn_local;
use simcore::time::{sleep, Duration};
use simcore::*;

use crate::codec;
use crate::plan::{NodeSpec, Op, Plan};
use crate::rec;

pub const US_PER_MS: u64 = 1000;

#[derive(Clone, Copy, Debug)]
pub struct Ident {
    pub full: NodeIdFull,
    pub short: NodeIdShort,
}

pub fn ident(seed: u64) -> Ident {
    thread_local!(static IDENTS: std::cell::RefCell<std::collections::BTreeMap<u64, Ident>> = const { std::cell::RefCell::new(std::collections::BTreeMap::new()) });
    IDENTS.with(|m| {
        m.borrow_mut()
            .entry(seed)
            .or_insert_with(|| {
                let k = codec::make_key(seed);
                Ident { full: *k.full_id(), short: *k.id() }
            })
            .clone()
    })
}

/// One life of a node
#[derive(Clone, Debug)]
pub struct Life {
    pub inc: u32,
    pub addr: SocketAddrV4,
    pub start_time: u32,
    pub from_ns: u64,
}

pub struct NodeRt {
    pub sid: u32,
    pub spec: NodeSpec,
    pub ids: Vec<Ident>,
    pub adnl: Option<Arc<adnl::Node>>,
    pub lives: Vec<Life>,
    pub port: u16,
    pub up: bool,
    pub shut_at: Option<u64>,
    pub paused_ns: u64,
    pub restarting: bool,
    /// (own key index, peer ident, its node) configured by the user
    pub known: Vec<(usize, Ident, usize)>,
}

impl NodeRt {
    pub fn ip(&self) -> Ipv4Addr {
        Ipv4Addr::new(10, 0, 0, self.spec.ip)
    }
    pub fn addr(&self) -> SocketAddrV4 {
        SocketAddrV4::new(self.ip(), self.port)
    }
    pub fn inc(&self) -> u32 {
        self.lives.last().map_or(0, |l| l.inc)
    }
}

/// Hooks a scenario family gives to the cluster
pub trait Family {
    /// Called in the node's context after `adnl::Node::new`, before `start`
    fn attach(&self, n: usize, node: &Arc<adnl::Node>);
    /// Called in the node's context after `start`
    fn started(&self, _n: usize, _node: &Arc<adnl::Node>) {}
    /// The node is gone (crash or shutdown): drop what belongs to it
    fn gone(&self, _n: usize) {}
    fn filter(&self, _n: usize) -> Option<Arc<dyn adnl::PeerFilter>> {
        None
    }
    /// Whether the network builder makes the node's stack (`build` instead of `adnl::Node::new`, `attach` and `start`)
    fn built(&self, _n: usize) -> bool {
        false
    }
    fn build(&self, _n: usize, _addr: SocketAddrV4, _ks: Keystore, _opts: NodeOptions) -> anyhow::Result<Arc<adnl::Node>> {
        anyhow::bail!("not built")
    }
}

pub struct Cluster {
    pub plan: Rc<Plan>,
    pub nodes: RefCell<Vec<NodeRt>>,
    pub fam: RefCell<Option<Rc<dyn Family>>>,
}

thread_local! {
    static CL: RefCell<Option<Rc<Cluster>>> = const { RefCell::new(None) };
}

pub fn cl() -> Rc<Cluster> {
    CL.with(|c| c.borrow().clone().expect("no cluster"))
}

pub fn clear() {
    let c = CL.with(|c| c.borrow_mut().take());
    if let Some(c) = c {
        *c.fam.borrow_mut() = None;
        let nodes = std::mem::take(&mut *c.nodes.borrow_mut());
        drop(nodes);
    }
}

pub fn install(plan: &Rc<Plan>) -> Rc<Cluster> {
    let nodes = plan
        .nodes
        .iter()
        .map(|spec| {
            let sid = add_node(Ipv4Addr::new(10, 0, 0, spec.ip));
            if spec.skew_ms != 0 {
                set_skew(sid, spec.skew_ms * MS as i64);
                count_fault(Fault::ClockSkew);
            }
            NodeRt {
                sid,
                spec: spec.clone(),
                ids: spec.keys.iter().map(|k| ident(*k)).collect(),
                adnl: None,
                lives: Vec::new(),
                port: spec.port,
                up: false,
                shut_at: None,
                paused_ns: 0,
                restarting: false,
                known: Vec::new(),
            }
        })
        .collect();
    let c = Rc::new(Cluster { plan: plan.clone(), nodes: RefCell::new(nodes), fam: RefCell::new(None) });
    CL.with(|x| *x.borrow_mut() = Some(c.clone()));
    c
}

impl Cluster {
    pub fn len(&self) -> usize {
        self.nodes.borrow().len()
    }
    pub fn sid(&self, n: usize) -> u32 {
        self.nodes.borrow()[n].sid
    }
    pub fn up(&self, n: usize) -> bool {
        self.nodes.borrow()[n].up
    }
    pub fn adnl(&self, n: usize) -> Option<Arc<adnl::Node>> {
        self.nodes.borrow()[n].adnl.clone()
    }
    pub fn id(&self, n: usize, k: usize) -> Ident {
        let ns = self.nodes.borrow();
        let v = &ns[n].ids;
        v[k % v.len()]
    }
    pub fn nkeys(&self, n: usize) -> usize {
        self.nodes.borrow()[n].ids.len()
    }
    pub fn addr(&self, n: usize) -> SocketAddrV4 {
        self.nodes.borrow()[n].addr()
    }
    pub fn inc(&self, n: usize) -> u32 {
        self.nodes.borrow()[n].inc()
    }
    pub fn lives(&self, n: usize) -> Vec<Life> {
        self.nodes.borrow()[n].lives.clone()
    }
    /// Which node and key a short id belongs to
    pub fn whose(&self, id: &NodeIdShort) -> Option<(usize, usize)> {
        for (n, node) in self.nodes.borrow().iter().enumerate() {
            for (k, i) in node.ids.iter().enumerate() {
                if &i.short == id {
                    return Some((n, k));
                }
            }
        }
        None
    }
    pub fn on<R>(&self, n: usize, f: impl FnOnce() -> R) -> R {
        let sid = self.sid(n);
        on_node(sid, f)
    }
    pub fn spawn_on<F: std::future::Future<Output = ()> + 'static>(&self, n: usize, f: F) {
        self.on(n, || {
            spawn_local(f);
        })
    }

    /// Builds and starts the node's stack
    pub fn start(self: &Rc<Self>, n: usize) -> anyhow::Result<()> {
        let (sid, spec, addr) = {
            let ns = self.nodes.borrow();
            (ns[n].sid, ns[n].spec.clone(), ns[n].addr())
        };
        let fam = self.fam.borrow().clone().unwrap();
        on_node(sid, || {
            let mut ks = Keystore::builder();
            for (tag, k) in spec.keys.iter().enumerate() {
                ks = ks.with_tagged_key(codec::key_from_seed(*k), tag)?;
            }
            let opts = NodeOptions {
                query_min_timeout_ms: 500,
                query_default_timeout_ms: spec.query_timeout,
                transfer_timeout_sec: spec.transfer_timeout,
                clock_tolerance_sec: spec.clock_tolerance,
                packet_history_enabled: spec.history,
                force_use_priority_channels: spec.prio,
                use_loopback_for_neighbours: spec.loopback,
                version: spec.version,
                channel_reset_timeout_sec: spec.chan_reset,
                packet_signature_required: spec.sig_required,
                ..Default::default()
            };
            let built = fam.built(n);
            let node = match built {
                true => fam.build(n, addr, ks.build(), opts)?,
                false => adnl::Node::new(addr, ks.build(), opts, fam.filter(n))?,
            };
            {
                let mut ns = self.nodes.borrow_mut();
                ns[n].adnl = Some(node.clone());
                ns[n].up = true;
                ns[n].shut_at = None;
                ns[n].lives.push(Life {
                    inc: node_inc(sid),
                    addr,
                    start_time: node.start_time(),
                    from_ns: now_ns(),
                });
            }
            if !built {
                fam.attach(n, &node);
                node.start()?;
            }
            let known = self.nodes.borrow()[n].known.clone();
            for (k, id, m) in known {
                let a = self.addr(m);
                let me = self.id(n, k).short;
                let _ = node.add_peer(NewPeerContext::Dht, &me, &id.short, a, id.full);
            }
            fam.started(n, &node);
            anyhow::Ok(())
        })
    }

    pub fn start_all(self: &Rc<Self>) {
        for n in 0..self.len() {
            self.start(n).expect("a node did not start");
        }
    }

    pub fn crash(&self, n: usize) {
        if !self.up(n) {
            return;
        }
        let sid = self.sid(n);
        crash(sid);
        let fam = self.fam.borrow().clone().unwrap();
        on_node(sid, || {
            fam.gone(n);
            let mut ns = self.nodes.borrow_mut();
            ns[n].up = false;
            let a = ns[n].adnl.take();
            drop(ns);
            drop(a);
        });
    }

    /// Starts a crashed or stopped node again, not before the wall clock shows a later second
    pub async fn restart(self: &Rc<Self>, n: usize) -> bool {
        while self.nodes.borrow()[n].restarting {
            sleep(Duration::from_millis(20)).await;
        }
        if self.up(n) {
            return true;
        }
        self.nodes.borrow_mut()[n].restarting = true;
        let ok = self.restart_inner(n).await;
        self.nodes.borrow_mut()[n].restarting = false;
        ok
    }

    async fn restart_inner(self: &Rc<Self>, n: usize) -> bool {
        let sid = self.sid(n);
        let last = self.nodes.borrow()[n].lives.last().map_or(0, |l| l.start_time);
        while wall_secs(sid) <= last + 1 {
            sleep(Duration::from_millis(100)).await;
        }
        if self.nodes.borrow()[n].shut_at.is_none() {
            revive(sid);
        } else {
            // the process lives on, a new instance is created in it
            count_fault(Fault::Restart);
        }
        match self.start(n) {
            Ok(()) => true,
            Err(e) => {
                rec::note(|| format!("node {n} did not start: {e}"));
                false
            }
        }
    }

    pub fn learn(&self, n: usize, k: usize, to: usize, tk: usize) -> Option<bool> {
        let id = self.id(to, tk);
        let me = self.id(n, k);
        {
            let mut ns = self.nodes.borrow_mut();
            let kk = k % ns[n].ids.len();
            if !ns[n].known.iter().any(|(a, b, _)| *a == kk && b.short == id.short) {
                ns[n].known.push((kk, id, to));
            }
        }
        let node = self.adnl(n)?;
        if !self.up(n) {
            return None;
        }
        let addr = self.addr(to);
        Some(self.on(n, || node.add_peer(NewPeerContext::Dht, &me.short, &id.short, addr, id.full).unwrap_or(false)))
    }

    /// Environment operations; false if the operation belongs to a scenario family
    pub async fn env_op(self: &Rc<Self>, op: &Op) -> bool {
        let ip = |n: usize| self.nodes.borrow()[n].ip();
        match op {
            Op::Crash { n } => self.crash(*n),
            Op::Restart { n } => {
                self.restart(*n).await;
            }
            Op::Pause { n, ms } => {
                pause(self.sid(*n), ms * MS);
                self.nodes.borrow_mut()[*n].paused_ns += ms * MS;
            }
            Op::Skew { n, ms } => {
                set_skew(self.sid(*n), ms * MS as i64);
                count_fault(Fault::ClockJump);
            }
            Op::Partition { mask } => {
                for a in 0..self.len() {
                    for b in 0..self.len() {
                        if (mask >> a & 1) != (mask >> b & 1) {
                            link(ip(a), ip(b), |l| l.blocked = true);
                        }
                    }
                }
            }
            Op::Heal => heal_links(),
            Op::LinkLoss { a, b, pct } => link(ip(*a), ip(*b), |l| l.loss = *pct as f64 / 100.0),
            Op::DropNext { a, b, k } => link(ip(*a), ip(*b), |l| l.drop_next += k),
            Op::Hold { a, b } => link(ip(*a), ip(*b), |l| l.hold = true),
            Op::Release => {
                for a in 0..self.len() {
                    for b in 0..self.len() {
                        link(ip(a), ip(b), |l| l.hold = false);
                    }
                }
                release_held(None)
            }
            Op::Quiet => calm(),
            Op::Shutdown { n } => {
                if let (true, Some(node)) = (self.up(*n), self.adnl(*n)) {
                    count_fault(Fault::Shutdown);
                    self.on(*n, || node.shutdown());
                    let mut ns = self.nodes.borrow_mut();
                    ns[*n].shut_at = Some(now_ns());
                    ns[*n].up = false;
                }
            }
            Op::MovePort { n } => {
                let mut ns = self.nodes.borrow_mut();
                ns[*n].port += 100;
            }
            Op::Idle { ms } => sleep(Duration::from_millis(*ms)).await,
            _ => return false,
        }
        true
    }
}

/// No faults from now on
pub fn calm() {
    set_net(|n| {
        n.loss = 0.0;
        n.dup = 0.0;
        n.reorder = 0.0;
        n.corrupt = 0.0;
        n.truncate = 0.0;
        n.send_err = 0.0;
        n.recv_err = 0.0;
    });
    heal_links();
}

pub async fn sleep_until_ms(ms: u64) {
    let now = now_ms();
    if ms > now {
        sleep(Duration::from_millis(ms - now)).await;
    }
}
