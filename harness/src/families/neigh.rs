//! O09: an overlay keeps as many neighbours as it may, members only, and every member gets its turn
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::net::{Ipv4Addr, SocketAddrV4};
use std::rc::Rc;
use std::sync::Arc;

use everscale_network::adnl::{self, NewPeerContext, NodeIdShort, PeersSet};
use everscale_network::{rldp, NetworkBuilder, QueryConsumingResult, QuerySubscriber, SubscriberContext};
use everscale_network::overlay::{self, BroadcastTarget, IdShort, Overlay, OverlayOptions};
use everscale_network::proto::{overlay as po, rpc};
use simcore::rt::spawn_local;
use simcore::{now_ms, rng, trace, wall_secs, with, SimRng};
use tl_proto::TlWrite;
use tokio::time::{sleep, Duration};

use super::cluster::{cl, ident, sleep_until_ms, Family, Ident};
use super::overlay::{ov_id, record, record_id};
use super::dht::overlay_node_ok;
use crate::plan::{Knobs, NodeSpec, Op, Plan};
use crate::rec::{count, nontrivial, note, viol};

const WINDOW_MS: u64 = 1_500;

struct NSt {
    plan: Rc<Plan>,
    seed: u64,
    stacks: RefCell<BTreeMap<usize, (Arc<overlay::Node>, Arc<Overlay>, Option<Arc<rldp::Node>>)>>,
    /// peers the user added and did not remove
    active: RefCell<BTreeMap<usize, BTreeSet<NodeIdShort>>>,
    removed: RefCell<BTreeMap<usize, BTreeSet<NodeIdShort>>>,
    versions: RefCell<BTreeMap<(usize, NodeIdShort), u32>>,
    /// members by id and address
    addrs: RefCell<BTreeMap<SocketAddrV4, NodeIdShort>>,
    next: Cell<u64>,
}

thread_local! {
    static ST: RefCell<Option<Rc<NSt>>> = const { RefCell::new(None) };
}

fn st() -> Rc<NSt> {
    ST.with(|s| s.borrow().clone().expect("no neighbours state"))
}

pub fn clear() {
    let s = ST.with(|s| s.borrow_mut().take());
    drop(s);
}

/// Member `x`: the real nodes first, then hosts nobody runs
fn member(x: usize) -> (u64, Ident, SocketAddrV4) {
    let c = cl();
    if x < c.len() {
        return (c.nodes.borrow()[x].spec.keys[0], c.id(x, 0), c.addr(x));
    }
    let seed = 310_000 + x as u64;
    (seed, ident(seed), SocketAddrV4::new(Ipv4Addr::new(10, 0, 245, x as u8), 3000))
}

impl NSt {
    fn private(&self) -> bool {
        self.plan.is("private")
    }

    fn members(&self) -> usize {
        self.plan.get("members") as usize
    }

    fn options(&self) -> OverlayOptions {
        let p = &self.plan;
        OverlayOptions {
            max_neighbours: p.get("maxn") as u32,
            broadcast_gc_interval_ms: p.get("gc_ms") as u64,
            overlay_peers_timeout_ms: p.get("peers_ms") as u64,
            broadcast_target_count: p.get("bt") as u32,
            secondary_broadcast_target_count: p.get("st") as u32,
            ..Default::default()
        }
    }

    fn oid(&self) -> IdShort {
        ov_id(self.seed, 0)
    }

    fn get(&self, n: usize) -> Option<Arc<Overlay>> {
        self.stacks.borrow().get(&n).map(|x| x.1.clone())
    }

    fn active(&self, n: usize) -> BTreeSet<NodeIdShort> {
        self.active.borrow().get(&n).cloned().unwrap_or_default()
    }

    fn neighbours(&self, n: usize) -> usize {
        self.active(n).len().min(self.plan.get("maxn") as usize)
    }

    fn add(&self, n: usize, x: usize) {
        let c = cl();
        let (Some(o), Some(adnl)) = (self.get(n), c.adnl(n)) else { return };
        if x == n || self.private() {
            return;
        }
        let (seed, id, addr) = member(x);
        let version = wall_secs(c.sid(n));
        let rec = record(seed, &self.oid(), version);
        match c.on(n, || o.add_public_peer(&adnl, addr, rec.as_equivalent_ref())) {
            Ok(Some(i)) if i == id.short => {}
            r => {
                viol(&["O09"], "valid-peer-refused", format!("node {n} did not accept the valid record of member {x}: {r:?}"));
                return;
            }
        }
        note(|| format!("node {n} is given member {x}"));
        self.active.borrow_mut().entry(n).or_default().insert(id.short);
        if let Some(r) = self.removed.borrow_mut().get_mut(&n) {
            r.remove(&id.short);
        }
        self.versions.borrow_mut().insert((n, id.short), version);
        count("members_added", 1);
        self.check_counts(n);
    }

    fn remove(&self, n: usize, x: usize) {
        let Some(o) = self.get(n) else { return };
        let id = member(x).1.short;
        let was = self.removed.borrow().get(&n).is_some_and(|r| r.contains(&id));
        let r = cl().on(n, || o.remove_public_peer(&id));
        note(|| format!("node {n} removes member {x}: {r}"));
        if r == was {
            viol(&["O09"], "removal", format!("node {n}: removal of member {x}, removed before: {was}, returned {r}"));
        }
        self.active.borrow_mut().entry(n).or_default().remove(&id);
        self.removed.borrow_mut().entry(n).or_default().insert(id);
        count("members_removed", 1);
        self.check_counts(n);
    }

    fn check_counts(&self, n: usize) {
        let Some(o) = self.get(n) else { return };
        let (want, got) = (self.neighbours(n), o.metrics().neighbours);
        nontrivial();
        if got != want {
            viol(&["O09"], "neighbour-count", format!("node {n} has {} active members and {got} neighbours of at most {}; {want} are due", self.active(n).len(), self.plan.get("maxn")));
        }
        for x in 0..self.members() {
            let id = member(x).1.short;
            let act = self.active(n).contains(&id);
            if o.is_active_public_peer(&id) != act {
                viol(&["O09"], "active", format!("node {n} says member {x} is{} active", if act { " not" } else { "" }));
            }
        }
    }

    fn name(&self, id: &NodeIdShort) -> String {
        (0..self.members()).find(|x| member(*x).1.short == *id).map_or("a stranger".into(), |x| format!("member {x}"))
    }

    /// Broadcasts once and returns who was sent something meanwhile
    async fn broadcast(&self, n: usize, len: usize) -> BTreeSet<NodeIdShort> {
        let c = cl();
        let (Some(o), Some(adnl)) = (self.get(n), c.adnl(n)) else { return BTreeSet::new() };
        let uid = self.next.get();
        self.next.set(uid + 1);
        let mut data = vec![0; len.max(16)];
        SimRng::new(rng::mix(self.seed, uid), 0x0909).fill(&mut data);
        let w0 = with(|w| w.wire.len());
        let before: Vec<_> = (0..c.len()).map(|m| (self.active(m), self.neighbours(m))).collect();
        let info = c.on(n, || o.broadcast(&adnl, data, None, BroadcastTarget::RandomNeighbours));
        sleep(Duration::from_millis(WINDOW_MS)).await;
        nontrivial();
        count("broadcasts", 1);
        let mut sent: BTreeMap<usize, BTreeSet<SocketAddrV4>> = BTreeMap::new();
        with(|w| {
            for r in &w.wire[w0..] {
                if let Some(m) = (0..c.len()).find(|m| c.addr(*m) == r.src) {
                    sent.entry(m).or_default().insert(r.dst);
                }
            }
        });
        let who = |a: &SocketAddrV4| self.addrs.borrow().get(a).copied();
        let mut res = BTreeSet::new();
        for (m, to) in &sent {
            for a in to {
                let Some(id) = who(a) else {
                    viol(&["O09"], "stranger", format!("node {m} sent something to {a}"));
                    continue;
                };
                if !before[*m].0.contains(&id) {
                    viol(&["O09"], "not-a-member", format!("node {m} sent a broadcast to {}, which is not an active member it was given", self.name(&id)));
                }
                if *m == n {
                    res.insert(id);
                }
            }
        }
        trace(71, uid, res.len() as u64);
        let want = before[n].1.min(self.plan.get("bt") as usize);
        note(|| format!("node {n} broadcast {len} bytes to {:?}", res.iter().map(|x| self.name(x)).collect::<Vec<_>>()));
        if res.len() != want || info.recipient_count != want {
            viol(
                &["O09"],
                "recipients",
                format!("node {n} broadcast to {} peers ({} as it says); it has {} active members, may have {} neighbours and send to {}", res.len(), info.recipient_count, before[n].0.len(), self.plan.get("maxn"), self.plan.get("bt")),
            );
        }
        if len <= 768 {
            // whoever got it passes it on
            let mut got: BTreeSet<usize> = [n].into();
            let mut todo = vec![n];
            while let Some(m) = todo.pop() {
                for a in sent.get(&m).into_iter().flatten() {
                    if let Some(x) = (0..c.len()).find(|x| c.addr(*x) == *a) {
                        if got.insert(x) {
                            todo.push(x);
                        }
                    }
                }
            }
            for m in got {
                if m == n || !c.up(m) {
                    continue;
                }
                let st = self.plan.get("st") as usize;
                let (act, nb) = &before[m];
                let from = (0..c.len()).any(|x| act.contains(&c.id(x, 0).short));
                let (lo, hi) = ((nb.saturating_sub(from as usize)).min(st), (*nb).min(st));
                let k = sent.get(&m).map_or(0, |x| x.len());
                count("forwards", 1);
                let sources: Vec<_> = sent.iter().filter(|(_, to)| to.contains(&c.addr(m))).map(|(x, _)| *x).collect();
                if let [x] = sources[..] {
                    if sent.get(&m).is_some_and(|to| to.contains(&c.addr(x))) {
                        viol(&["O09"], "passed-back", format!("node {m} passed a broadcast back to node {x}, the only one it had it from"));
                    }
                }
                if k < lo || k > hi {
                    viol(&["O09"], "forwarded-to", format!("node {m} passed a broadcast on to {k} peers; it has {nb} neighbours and may send to {st}"));
                }
            }
        }
        res
    }

    fn cached(&self, n: usize, amount: u32, cap: u32) {
        let Some(o) = self.get(n) else { return };
        let dst = PeersSet::with_capacity(cap);
        o.write_cached_peers(amount, &dst);
        let got = dst.clone_inner();
        let set: BTreeSet<_> = got.iter().copied().collect();
        let act = self.active(n);
        let want = act.len().min(amount as usize).min(cap.max(1) as usize);
        nontrivial();
        count("cached_peers", 1);
        if set.len() != got.len() || got.len() != want || !set.is_subset(&act) {
            viol(
                &["O09"],
                "cached-peers",
                format!("node {n} gave {} of its {} active members ({} different, {} active) when asked for {amount} in a set for {cap}", got.len(), act.len(), set.len(), set.intersection(&act).count()),
            );
        }
    }

    /// Node `m` asks node `n` for random peers
    async fn ask(&self, n: usize, m: usize) {
        let c = cl();
        let Some(node) = c.adnl(m) else { return };
        if n == m || !c.up(n) || !c.up(m) || self.get(n).is_none() {
            return;
        }
        let mut q = tl_proto::serialize(rpc::OverlayQuery { overlay: self.oid().as_slice() });
        rpc::OverlayGetRandomPeersOwned { peers: po::NodesOwned { nodes: Default::default() } }.write_to(&mut q);
        let (me, you) = (c.id(m, 0).short, c.id(n, 0).short);
        let rldp = |x: usize| self.stacks.borrow().get(&x).and_then(|s| s.2.clone());
        let a = match (rldp(m), rldp(n)) {
            (Some(r), Some(_)) if now_ms() % 2 == 0 => {
                count("asked_over_rldp", 1);
                let a = c.on(m, || spawn_local(async move { r.query(&me, &you, q, Some(4000)).await.map(|a| a.0) })).await;
                // the two go on sending for a while
                sleep(Duration::from_secs(5)).await;
                a
            }
            _ => c.on(m, || spawn_local(async move { node.query_raw(&me, &you, q.into(), Some(4000)).await })).await,
        };
        let Ok(Ok(Some(a))) = a else {
            viol(&["O09"], "no-answer", format!("node {n} did not answer node {m}'s query for peers on a network that loses nothing"));
            return;
        };
        let Ok(list) = tl_proto::deserialize_as_boxed::<po::Nodes>(&a) else {
            viol(&["O09"], "bad-answer", format!("node {n} answered a query for peers with something else"));
            return;
        };
        nontrivial();
        count("peer_lists", 1);
        let act = self.active(n);
        let mut ids = BTreeSet::new();
        let mut own = 0;
        for r in &list.nodes {
            let id = record_id(r);
            let ok = overlay_node_ok(self.oid().as_slice(), r);
            match id {
                Some(id) if ok && id == you => own += 1,
                Some(id) if ok && act.contains(&id) => {
                    if !ids.insert(id) {
                        viol(&["O09"], "listed-twice", format!("node {n} listed {} twice", self.name(&id)));
                    }
                    let v = self.versions.borrow().get(&(n, id)).copied().unwrap_or(0);
                    if r.version != v {
                        viol(&["O09", "O07"], "other-version", format!("node {n} listed {} with version {} instead of {v}", self.name(&id), r.version));
                    }
                }
                _ => viol(&["O09"], "bad-peer-listed", format!("node {n} listed {:?} (valid record: {ok}) which is not an active member", id.map(|i| self.name(&i)))),
            }
        }
        let want = if self.private() { 0 } else { self.neighbours(n).min(4) };
        if own != 1 || ids.len() != want {
            viol(&["O09"], "peer-list", format!("node {n} listed {} of {} neighbours and itself {own} times", ids.len(), self.neighbours(n)));
        }
    }

    fn made(&self, n: usize, node: &Arc<adnl::Node>, o: Arc<overlay::Node>, r: Option<Arc<rldp::Node>>) {
        let s = self;
        let (x, _) = if s.private() {
            let key = node.key_by_tag(0).unwrap().clone();
            let mut r = SimRng::new(s.plan.get("who") as u64, n as u64);
            let many = r.range(0, s.members() as u64) as usize;
            let ids: BTreeSet<usize> = (0..many).map(|_| r.below(s.members() as u64) as usize).filter(|x| *x != n).collect();
            let peers: Vec<_> = ids.iter().map(|x| member(*x).1.short).collect();
            s.active.borrow_mut().insert(n, peers.iter().copied().collect());
            for x in &ids {
                let (_, id, addr) = member(*x);
                node.add_peer(NewPeerContext::PublicOverlay, &cl().id(n, 0).short, &id.short, addr, id.full).unwrap();
            }
            o.add_private_overlay(&s.oid(), key, &peers, s.options())
        } else {
            o.add_public_overlay(&s.oid(), s.options())
        };
        s.stacks.borrow_mut().insert(n, (o, x, r));
    }

    /// Every active member becomes a neighbour as time passes
    async fn turns(&self, n: usize) {
        let act = self.active(n);
        if act.is_empty() {
            return;
        }
        let gc = self.plan.get("gc_ms") as u64;
        let tick = (self.plan.get("peers_ms") as u64 / gc + 1) * gc;
        let ticks = 32 * act.len() as u64;
        let mut seen = BTreeSet::new();
        let t0 = now_ms();
        let mut i = 0;
        let mut last: Option<BTreeSet<NodeIdShort>> = None;
        while now_ms() < t0 + ticks * (tick + 10) && seen.len() < act.len() {
            i += 1;
            let now = self.broadcast(n, 100).await;
            if let Some(last) = last.filter(|x| now.difference(x).count() > 2) {
                viol(
                    &["O09"],
                    "hurried",
                    format!("node {n} chooses another neighbour every {tick} ms; after that long {} of {} were new", now.difference(&last).count(), now.len()),
                );
            }
            last = Some(now.clone());
            seen.extend(now);
            sleep(Duration::from_millis(tick.saturating_sub(WINDOW_MS))).await;
        }
        count("rotations", 1);
        count("rotation_broadcasts", i);
        let missing: Vec<_> = act.difference(&seen).map(|x| self.name(x)).collect();
        if !missing.is_empty() {
            viol(
                &["O09"],
                "no-turn",
                format!("node {n} has {} active members, may have {} neighbours and is to choose another every {tick} ms; within {} s {missing:?} got no turn", act.len(), self.plan.get("maxn"), (now_ms() - t0) / 1000),
            );
        }
    }
}

struct Decline;
#[async_trait::async_trait]
impl QuerySubscriber for Decline {
    async fn try_consume_query<'a>(&self, _: SubscriberContext<'a>, _: u32, query: Cow<'a, [u8]>) -> anyhow::Result<QueryConsumingResult<'a>> {
        Ok(QueryConsumingResult::Rejected(query))
    }
}

struct Fam;
impl Family for Fam {
    fn attach(&self, n: usize, node: &Arc<adnl::Node>) {
        let s = st();
        let o = overlay::Node::new(node.clone(), 0).unwrap();
        s.made(n, node, o, None);
    }
    fn built(&self, n: usize) -> bool {
        st().plan.get("builder") >> n & 1 == 1
    }
    fn build(&self, n: usize, addr: SocketAddrV4, ks: adnl::Keystore, opts: adnl::NodeOptions) -> anyhow::Result<Arc<adnl::Node>> {
        // (sometimes with subscribers of the user, which want nothing)
        let subs = (0..st().plan.get("builder") >> n & 1 & st().plan.get("who")).map(|_| Arc::new(Decline) as Arc<dyn QuerySubscriber>).collect();
        let (node, r, o) = NetworkBuilder::with_adnl(addr, ks, opts).with_rldp_ext(Default::default(), subs).with_overlay(0).build()?;
        st().made(n, &node, o, Some(r));
        count("built_stacks", 1);
        Ok(node)
    }
    fn gone(&self, n: usize) {
        let s = st();
        let x = s.stacks.borrow_mut().remove(&n);
        s.active.borrow_mut().remove(&n);
        s.removed.borrow_mut().remove(&n);
        drop(x);
    }
}

pub async fn main(plan: Plan) {
    let plan = Rc::new(plan);
    let c = super::cluster::install(&plan);
    let s = Rc::new(NSt {
        plan: plan.clone(),
        seed: plan.seed,
        stacks: Default::default(),
        active: Default::default(),
        removed: Default::default(),
        versions: Default::default(),
        addrs: Default::default(),
        next: Cell::new(1),
    });
    ST.with(|x| *x.borrow_mut() = Some(s.clone()));
    *c.fam.borrow_mut() = Some(Rc::new(Fam));
    *s.addrs.borrow_mut() = (0..s.members()).map(|x| (member(x).2, member(x).1.short)).collect();
    c.start_all();
    let n = plan.nodes.len();
    for a in 0..n {
        for b in 0..n {
            if a != b {
                c.learn(a, 0, b, 0);
            }
        }
        s.check_counts(a);
    }
    for step in &plan.steps {
        if step.at > now_ms() {
            sleep_until_ms(step.at).await;
        }
        match &step.op {
            Op::NMember { n, x, kind } => match kind {
                0 => s.add(*n, *x),
                _ => s.remove(*n, *x),
            },
            Op::NBcast { n, len } => {
                s.broadcast(*n, *len).await;
            }
            Op::NCached { n, amount, cap } => s.cached(*n, *amount, *cap),
            Op::NAsk { n, m } => s.ask(*n, *m).await,
            Op::NTurns { n } => s.turns(*n).await,
            op => {
                c.env_op(op).await;
            }
        }
    }
    for a in 0..n {
        s.check_counts(a);
    }
}

pub fn generate(p: &str, index: u64, s: u64, rng: &mut SimRng, thorough: bool) -> Plan {
    let mut plan = Plan::new(p, "neigh", index, s);
    let n = rng.range(1, 3) as usize;
    for i in 0..n {
        plan.nodes.push(NodeSpec::random(i, rng));
    }
    plan.knobs = Knobs::random_sched(rng);
    plan.knobs.lat_max_us = plan.knobs.lat_max_us.min(40_000);
    plan.knobs.lat_min_us = plan.knobs.lat_min_us.min(1_000);
    plan.knobs.stall_max_us = plan.knobs.stall_max_us.min(5_000);
    let deep = if thorough { 2 } else { 1 };
    let members = n + rng.range(1, 14) as usize;
    if rng.chance(0.4) {
        plan.set("builder", (rng.next() & 0xff) as i64);
    }
    plan.set("members", members as i64);
    plan.set("private", rng.chance(0.2) as i64);
    plan.set("who", (rng.next() >> 20) as i64);
    let maxn = *rng.pick(&[1i64, 2, 3, 4, 5, 8, 200]);
    let turns = rng.chance(0.4);
    plan.set("maxn", maxn);
    plan.set("bt", if turns { maxn } else { *rng.pick(&[1, 2, 3, 5, 10]) });
    plan.set("st", *rng.pick(&[0, 1, 2, 3, 10]));
    plan.set("gc_ms", *rng.pick(&[500, 1_000, 1_000, 3_000]));
    plan.set("peers_ms", *rng.pick(&[2_000, 5_000, 20_000, 60_000]));
    let mut t = 10;
    // a node that is only given members, never asked to remove one, or all of it
    let shrink = rng.chance(0.7);
    for a in 0..n {
        for _ in 0..rng.below(members as u64 + 2) {
            plan.push(t, Op::NMember { n: a, x: rng.below(members as u64) as usize, kind: 0 });
        }
    }
    for _ in 0..rng.range(5, 40 * deep) {
        t += rng.range(1, 3_000);
        let a = rng.below(n as u64) as usize;
        let x = rng.below(members as u64) as usize;
        let o = match rng.below(10) {
            0 | 1 => Op::NMember { n: a, x, kind: 0 },
            2 | 3 => Op::NMember { n: a, x, kind: shrink as u8 },
            4 => Op::NCached { n: a, amount: *rng.pick(&[0u32, 1, 2, 3, 5, 10, 50]), cap: *rng.pick(&[1u32, 3, 5, 20, 100]) },
            5 => Op::NAsk { n: a, m: rng.below(n as u64) as usize },
            _ => Op::NBcast { n: a, len: if rng.chance(0.8) { rng.range(16, 768) } else { rng.range(769, 3_000) } as usize },
        };
        plan.push(t, o);
    }
    if turns {
        plan.push(t + 1, Op::NTurns { n: rng.below(n as u64) as usize });
        if rng.chance(0.5) {
            let a = rng.below(n as u64) as usize;
            plan.push(t + 2, Op::NMember { n: a, x: rng.below(members as u64) as usize, kind: rng.below(2) as u8 });
            plan.push(t + 3, Op::NBcast { n: a, len: 100 });
        }
    }
    plan
}
