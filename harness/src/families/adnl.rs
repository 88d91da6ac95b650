//! ADNL scenarios: properties A01..A11
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::net::SocketAddrV4;
use std::rc::Rc;
use std::sync::Arc;

use everscale_network::adnl::{self, NewPeerContext, NodeIdShort, PeerFilter};
use everscale_network::proto::adnl::Message;
use everscale_network::{MessageSubscriber, QueryConsumingResult, QuerySubscriber, SubscriberContext};
use simcore::rt::spawn_local;
use simcore::time::{sleep, timeout, Duration};
use simcore::*;

use super::cluster::*;
use super::codecpeer::CPeer;
use crate::codec::{self, msg, Contents};
use crate::plan::*;
use crate::rec::{count, nontrivial, note, viol};

pub const C_MSG: u32 = 0x5EED_0001;
pub const C_QUERY: u32 = 0x5EED_0002;
pub const C_ANSWER: u32 = 0x5EED_0003;
pub const ATK: u64 = 0xAA << 56;
pub const CPR: u64 = 0xCC << 56;
/// node index given to hosts under harness control
pub const ATK_NODE: usize = 1000;
pub const CP_NODE: usize = 1001;

pub type Who = (usize, usize);

pub struct Sent {
    pub from: Who,
    pub from_short: NodeIdShort,
    pub to: Who,
    pub data: Rc<[u8]>,
    pub inc_from: u32,
    pub t: u64,
    pub sends: u32,
    /// (time, incarnation of the receiver)
    pub delivered: Vec<(u64, u32)>,
    pub must: bool,
    /// (life of the receiver, why)
    pub banned: Option<(u32, &'static str)>,
}

pub struct Qr {
    pub timeout: u64,
    pub delay: u64,
    pub mode: u8,
    pub ans: usize,
    pub must: bool,
    pub answers: Vec<Vec<u8>>,
    pub done: bool,
    pub killed: bool,
    pub got: bool,
}

pub struct St {
    pub plan: Rc<Plan>,
    pub seed: u64,
    next_uid: Cell<u64>,
    pub msgs: RefCell<BTreeMap<u64, Sent>>,
    pub qs: RefCell<BTreeMap<u64, Qr>>,
    pub pending: Cell<usize>,
    /// harness activities still sending
    pub busy: Cell<usize>,
    /// (node, key, peer) -> newest start time of the peer accepted in the node's current life
    pub accepted: RefCell<BTreeMap<(usize, u32, usize, [u8; 32]), u32>>,
    pub cps: RefCell<Vec<Rc<CPeer>>>,
    pub filters: RefCell<BTreeMap<usize, BTreeSet<[u8; 32]>>>,
    pub atk_keys: Vec<Ident>,
    pub crashed_at: RefCell<BTreeMap<usize, u64>>,
    atk_rng: RefCell<SimRng>,
    /// the reliable phase: everything sent from now on has to arrive
    pub must_now: Cell<bool>,
    pub dup_possible: Cell<bool>,
    pub shut: RefCell<BTreeMap<(usize, u32), u64>>,
    pub life_no: RefCell<BTreeMap<usize, u32>>,
}

thread_local! {
    static ST: RefCell<Option<Rc<St>>> = const { RefCell::new(None) };
}

pub fn st() -> Rc<St> {
    ST.with(|s| s.borrow().clone().expect("no adnl state"))
}

pub fn try_st() -> Option<Rc<St>> {
    ST.with(|s| s.borrow().clone())
}

pub fn clear() {
    let s = ST.with(|s| s.borrow_mut().take());
    drop(s);
}

pub fn install(plan: &Rc<Plan>) -> Rc<St> {
    let s = Rc::new(St {
        plan: plan.clone(),
        seed: plan.seed,
        next_uid: Cell::new(1),
        msgs: Default::default(),
        qs: Default::default(),
        pending: Cell::new(0),
        busy: Cell::new(0),
        accepted: Default::default(),
        cps: Default::default(),
        filters: Default::default(),
        atk_keys: vec![ident(66_001), ident(66_002)],
        crashed_at: Default::default(),
        atk_rng: RefCell::new(SimRng::new(plan.seed, 0xA77)),
        must_now: Cell::new(plan.is("reliable")),
        dup_possible: Cell::new(plan.knobs.dup > 0.0),
        shut: Default::default(),
        life_no: Default::default(),
    });
    ST.with(|x| *x.borrow_mut() = Some(s.clone()));
    s
}

fn content(seed: u64, uid: u64, ctor: u32, head: &[u8], len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len.max(12 + head.len()));
    v.extend_from_slice(&ctor.to_le_bytes());
    v.extend_from_slice(&uid.to_le_bytes());
    v.extend_from_slice(head);
    let start = v.len();
    if len > start {
        v.resize(len, 0);
        // compressible and incompressible stretches
        SimRng::new(rng::mix(seed, uid), ctor as u64).fill(&mut v[start..]);
    }
    v
}

pub fn uid_of(data: &[u8]) -> Option<u64> {
    if data.len() < 12 {
        return None;
    }
    let c = u32::from_le_bytes(data[..4].try_into().unwrap());
    if c != C_MSG && c != C_QUERY && c != C_ANSWER {
        return None;
    }
    Some(u64::from_le_bytes(data[4..12].try_into().unwrap()))
}

fn query_bytes(seed: u64, uid: u64, len: usize, ans: usize, mode: u8, delay: u64) -> Vec<u8> {
    let mut h = Vec::new();
    h.extend_from_slice(&(ans as u32).to_le_bytes());
    h.extend_from_slice(&(delay as u32).to_le_bytes());
    h.extend_from_slice(&(mode as u32).to_le_bytes());
    content(seed, uid, C_QUERY, &h, len)
}

impl St {
    pub fn uid(&self) -> u64 {
        let u = self.next_uid.get();
        self.next_uid.set(u + 1);
        u
    }

    pub fn slack_ms(&self) -> u64 {
        let k = &self.plan.knobs;
        60 + k.timer_late_max_us / 1000 + 30 * k.stall_max_us / 1000
    }

    pub fn net_ms(&self) -> u64 {
        let k = &self.plan.knobs;
        2 * (k.lat_max_us + k.reorder_max_us) / 1000 + 20 * k.stall_max_us / 1000 + 500
    }

    pub fn register(&self, uid: u64, from: Who, from_short: NodeIdShort, to: Who, data: Vec<u8>, must: bool) {
        let inc_from = if from.0 < ATK_NODE { life(from.0) } else { 0 };
        self.msgs.borrow_mut().insert(
            uid,
            Sent {
                from,
                from_short,
                to,
                data: data.into(),
                inc_from,
                t: now_ns(),
                sends: 1,
                delivered: Vec::new(),
                must,
                banned: None,
            },
        );
    }

    /// Common oracle for messages and queries handed to a subscriber. Returns whether it is a known one.
    pub fn on_deliver(&self, n: usize, life_of: u32, local: &NodeIdShort, peer: &NodeIdShort, data: &[u8]) -> Option<u64> {
        let c = cl();
        let now = now_ns();
        let Some(uid) = uid_of(data) else {
            viol(
                &["A01"],
                "unknown-payload",
                format!("node {n} was handed a payload nobody sent: {} bytes {}", data.len(), hex::encode(&data[..data.len().min(24)])),
            );
            return None;
        };
        trace(1, uid, n as u64);
        if self.plan.is("filter") {
            let ok = self.filters.borrow().get(&n).map_or(true, |f| !f.contains(peer.as_slice()));
            if !ok {
                viol(&["A10"], "filtered-peer-delivered", format!("node {n} was handed a message from peer {peer} its filter rejects"));
            }
        }
        if let Some(t) = self.shut.borrow().get(&(n, life_of)) {
            if now > t + self.grace_ns() {
                viol(
                    &["A11"],
                    "delivered-after-shutdown",
                    format!("node {n} was handed a message {} ms after its shutdown", (now - t) / MS),
                );
            }
        }
        let mut msgs = self.msgs.borrow_mut();
        let Some(m) = msgs.get_mut(&uid) else {
            viol(&["A01"], "unknown-message", format!("node {n} was handed a message with uid {uid:#x} nobody sent"));
            return None;
        };
        if m.data[..] != data[..] {
            viol(
                &["A01"],
                "content-changed",
                format!("message {uid:#x} arrived changed: {} bytes sent, {} received, first difference at {:?}", m.data.len(), data.len(), m.data.iter().zip(data).position(|(a, b)| a != b)),
            );
        }
        if &m.from_short != peer {
            if m.from.0 == ATK_NODE {
                viol(
                    &["A02", "A01"],
                    "spoofed-peer",
                    format!("node {n} delivered a message made by the attacker as coming from {:?} ({peer})", c.whose(peer)),
                );
            } else {
                viol(
                    &["A01"],
                    "wrong-peer",
                    format!("message {uid:#x} of {:?} was reported as sent by {:?} ({peer})", m.from, c.whose(peer)),
                );
            }
        }
        let to_ok = c.id(m.to.0, m.to.1).short == *local && m.to.0 == n;
        if !to_ok {
            let p: &[&str] = if m.from.0 == ATK_NODE { &["A01"] } else { &["A01", "A02"] };
            viol(p, "wrong-recipient", format!("message {uid:#x} sent to {:?} was delivered at node {n} for {:?}", m.to, c.whose(local)));
        }
        if let Some((_, why)) = m.banned.filter(|b| b.0 == life_of) {
            viol(&["A07"], why, format!("node {n} accepted message {uid:#x} of {:?} although {why}", m.from));
        }
        // clocks
        if self.plan.is("static_skew") && m.from.0 < ATK_NODE {
            let ls = c.lives(m.from.0);
            if let Some(l) = ls.get(m.inc_from as usize) {
                let tol = self.plan.nodes[n].clock_tolerance;
                let w = wall_secs(c.sid(n));
                if l.start_time > w + tol + 1 {
                    viol(
                        &["A07"],
                        "packet-from-the-future",
                        format!("node {n} accepted a message of node {} started at {} while its own clock shows {w} and the tolerance is {tol}", m.from.0, l.start_time),
                    );
                }
            }
        }
        let history = n < self.plan.nodes.len() && self.plan.nodes[n].history;
        m.delivered.push((now, life_of));
        let here = m.delivered.iter().filter(|d| d.1 == life_of).count() as u32;
        if history && here > m.sends && !self.plan.is("a05_off") {
            viol(
                &["A05"],
                "processed-twice",
                format!("node {n} with packet history processed message {uid:#x} {here} times, it was sent {} time(s)", m.sends),
            );
        }
        if !self.dup_possible.get() && m.delivered.len() as u32 > m.sends {
            viol(
                &["A03"],
                "delivered-twice",
                format!("message {uid:#x} ({} bytes) was delivered {} times without any duplicated datagram, sent {} time(s)", m.data.len(), m.delivered.len(), m.sends),
            );
        }
        if m.from.0 < ATK_NODE {
            if let Some(l) = c.lives(m.from.0).get(m.inc_from as usize) {
                let key = (n, life_of, m.to.1 % c.nkeys(n), *peer.as_slice());
                let mut acc = self.accepted.borrow_mut();
                let e = acc.entry(key).or_insert(0);
                if self.plan.focus == "A07" && l.start_time < *e {
                    viol(
                        &["A07"],
                        "earlier-life-accepted",
                        format!("node {n} accepted message {uid:#x} made by node {} in its life started at {} after it had accepted one of the life started at {}", m.from.0, l.start_time, *e),
                    );
                }
                *e = (*e).max(l.start_time);
            }
        }
        count("deliveries", 1);
        nontrivial();
        Some(uid)
    }

    pub fn grace_ns(&self) -> u64 {
        (500 + 30 * self.plan.knobs.stall_max_us / 1000) * MS
    }

    pub fn send_msg(self: &Rc<Self>, from: Who, to: Who, len: usize, again: Option<u64>) -> Option<u64> {
        let c = cl();
        if !c.up(from.0) {
            return None;
        }
        let node = c.adnl(from.0)?;
        let me = c.id(from.0, from.1).short;
        let you = c.id(to.0, to.1).short;
        let must = self.must_now.get() && c.up(to.0);
        let uid = match again {
            Some(u) => {
                if let Some(m) = self.msgs.borrow_mut().get_mut(&u) {
                    m.sends += 1;
                }
                u
            }
            None => {
                let uid = self.uid();
                let from_k = from.1 % c.nkeys(from.0);
                let to_k = to.1 % c.nkeys(to.0);
                self.register(uid, (from.0, from_k), me, (to.0, to_k), content(self.seed, uid, C_MSG, &[], len), must);
                uid
            }
        };
        let data = self.msgs.borrow()[&uid].data.clone();
        let r = c.on(from.0, || node.send_custom_message(&me, &you, &data));
        count("messages_sent", 1);
        note(|| format!("msg {uid:#x} {from:?} -> {to:?} len {} {:?}", data.len(), r.is_ok()));
        if let Err(e) = r {
            if must {
                viol(&["A03"], "send-failed", format!("sending message {uid:#x} of {} bytes from {from:?} to {to:?} failed: {e}", data.len()));
            }
            let mut ms = self.msgs.borrow_mut();
            let m = ms.get_mut(&uid).unwrap();
            m.must = false;
            return None;
        }
        Some(uid)
    }

    pub fn start_query(self: &Rc<Self>, from: Who, to: Who, a: QArgs) -> Option<u64> {
        let c = cl();
        if !c.up(from.0) && self.plan.focus != "A11" {
            return None;
        }
        let node = c.adnl(from.0)?;
        let me = c.id(from.0, from.1).short;
        let you = c.id(to.0, to.1).short;
        let uid = self.uid();
        let data = query_bytes(self.seed, uid, a.len, a.ans, a.mode, a.delay);
        let big = (a.len + a.ans) as u64 / 20; // ms for the many datagrams of large ones
        let answered = matches!(a.mode, 0 | 1 | 5);
        let must = self.must_now.get()
            && c.up(to.0)
            && answered
            && a.cancel == 0
            && a.timeout > a.delay + self.net_ms() + big;
        let (fk, tk) = (from.1 % c.nkeys(from.0), to.1 % c.nkeys(to.0));
        self.register(uid, (from.0, fk), me, (to.0, tk), data.clone(), false);
        self.qs.borrow_mut().insert(
            uid,
            Qr { timeout: a.timeout, delay: a.delay, mode: a.mode, ans: a.ans, must, answers: vec![], done: false, killed: false, got: false },
        );
        note(|| format!("query {uid:#x} {from:?} -> {to:?} {a:?} must {must}"));
        self.pending.set(self.pending.get() + 1);
        count("queries", 1);
        let s = self.clone();
        let n = from.0;
        let lf = life(n);
        let g = QGuard { s: s.clone(), uid, finished: false };
        c.spawn_on(n, async move {
            let mut g = g;
            let t0 = now_ns();
            let was_up = cl().up(n);
            let paused0 = cl().nodes.borrow()[n].paused_ns;
            let q = node.query_raw(&me, &you, data.into(), Some(a.timeout));
            let r = if a.cancel > 0 {
                match timeout(Duration::from_millis(a.cancel), q).await {
                    Ok(r) => Some(r),
                    Err(_) => {
                        count_fault(Fault::Cancel);
                        None
                    }
                }
            } else {
                Some(q.await)
            };
            drop(node);
            g.finished = true;
            let el = (now_ns() - t0) / MS;
            let paused = (cl().nodes.borrow()[n].paused_ns - paused0) / MS;
            let shut = s.shut.borrow().get(&(n, lf)).copied();
            let mut qs = s.qs.borrow_mut();
            let qr = qs.get_mut(&uid).unwrap();
            qr.done = true;
            note(|| format!("query {uid:#x} returned {:?} after {el} ms", r.as_ref().map(|r| r.as_ref().map(|a| a.as_ref().map(|x| x.len())))));
            let Some(r) = r else { return };
            if el > a.timeout + s.slack_ms() + paused {
                let late: &[&str] = if shut.is_some() { &["A11", "A04"] } else { &["A04"] };
                viol(late, "query-overran", format!("query {uid:#x} returned after {el} ms, its timeout is {} ms", a.timeout));
            }
            nontrivial();
            match r {
                Ok(Some(ans)) => {
                    qr.got = true;
                    count("answers", 1);
                    if !qr.answers.iter().any(|x| x == &ans) {
                        let other = uid_of(&ans);
                        viol(
                            &["A04", "A01"],
                            "wrong-answer",
                            format!("query {uid:#x} from {from:?} to {to:?} returned {} bytes (uid {other:x?}) that its handler did not produce ({} produced)", ans.len(), qr.answers.len()),
                        );
                    }
                }
                Ok(None) => {
                    if qr.must {
                        viol(
                            &["A04", "A03"],
                            "unanswered-on-good-network",
                            format!("query {uid:#x} {from:?} -> {to:?} ({} bytes, answer {} bytes, handler delay {} ms) got no answer within {} ms on a network that loses nothing; handler ran {} time(s)", a.len, a.ans, a.delay, a.timeout, qr.answers.len()),
                        );
                    }
                    if el + 2 < a.timeout && shut.is_none() && was_up {
                        viol(&["A04"], "gave-up-early", format!("query {uid:#x} reported a timeout after {el} ms, its timeout is {} ms", a.timeout));
                    }
                }
                Err(e) => {
                    if qr.must {
                        viol(&["A04"], "query-error", format!("query {uid:#x} {from:?} -> {to:?} failed: {e}"));
                    }
                }
            }
        });
        Some(uid)
    }

    /// Waits until all queries the scenario started have ended
    pub async fn wait_queries(&self, max_ms: u64) -> bool {
        let t0 = now_ms();
        while self.pending.get() > 0 || self.busy.get() > 0 {
            if self.busy.get() == 0 && now_ms() > t0 + max_ms {
                return false;
            }
            sleep(Duration::from_millis(50)).await;
        }
        true
    }

    pub fn add_cp(&self, seed: u64, ip: u8) -> Rc<CPeer> {
        let p = CPeer::new(seed, ip);
        self.cps.borrow_mut().push(p.clone());
        p
    }
}

#[derive(Clone, Copy, Debug)]
pub struct QArgs {
    pub len: usize,
    pub ans: usize,
    pub mode: u8,
    pub delay: u64,
    pub timeout: u64,
    pub cancel: u64,
}

struct QGuard {
    s: Rc<St>,
    uid: u64,
    finished: bool,
}
impl Drop for QGuard {
    fn drop(&mut self) {
        self.s.pending.set(self.s.pending.get() - 1);
        if !self.finished {
            if let Ok(mut qs) = self.s.qs.try_borrow_mut() {
                if let Some(q) = qs.get_mut(&self.uid) {
                    q.killed = true;
                }
            }
        }
    }
}

/// How often a node has been started (its life number)
pub fn life(n: usize) -> u32 {
    cl().nodes.borrow()[n].lives.len().saturating_sub(1) as u32
}

// ------------------------------------------------------------------ subscribers

struct Sub {
    n: usize,
    life: u32,
    odd: bool,
}

#[async_trait::async_trait]
impl MessageSubscriber for Sub {
    async fn try_consume_custom<'a>(&self, ctx: SubscriberContext<'a>, constructor: u32, data: &'a [u8]) -> anyhow::Result<bool> {
        if constructor != C_MSG {
            return Ok(false);
        }
        let odd = uid_of(data).map_or(false, |u| u % 2 == 1);
        if odd != self.odd {
            return Ok(false);
        }
        st().on_deliver(self.n, self.life, ctx.local_id, ctx.peer_id, data);
        Ok(true)
    }
}

struct QSub {
    n: usize,
    life: u32,
    odd: bool,
}

#[async_trait::async_trait]
impl QuerySubscriber for QSub {
    async fn try_consume_query<'a>(&self, ctx: SubscriberContext<'a>, constructor: u32, query: Cow<'a, [u8]>) -> anyhow::Result<QueryConsumingResult<'a>> {
        if constructor != C_QUERY {
            return Ok(QueryConsumingResult::Rejected(query));
        }
        let odd = uid_of(&query).map_or(false, |u| u % 2 == 1);
        if odd != self.odd {
            return Ok(QueryConsumingResult::Rejected(query));
        }
        let mode = if query.len() >= 24 { u32::from_le_bytes(query[20..24].try_into().unwrap()) } else { 99 };
        let uid = st().on_deliver(self.n, self.life, ctx.local_id, ctx.peer_id, &query);
        let Some(uid) = uid else { return Ok(QueryConsumingResult::Rejected(query)) };
        let ans = u32::from_le_bytes(query[12..16].try_into().unwrap()) as usize;
        let delay = u32::from_le_bytes(query[16..20].try_into().unwrap()) as u64;
        match mode {
            2 => return Ok(QueryConsumingResult::Consumed(None)),
            3 => return Ok(QueryConsumingResult::Rejected(query)),
            4 => anyhow::bail!("handler failed"),
            1 => sleep(Duration::from_millis(delay)).await,
            5 => {
                // an answer without any contents
                if let Some(q) = st().qs.borrow_mut().get_mut(&uid) {
                    q.answers.push(Vec::new());
                }
                return Ok(QueryConsumingResult::Consumed(Some(Vec::new())));
            }
            _ => {}
        }
        let a = make_answer(self.n, uid, ans);
        Ok(QueryConsumingResult::Consumed(Some(a)))
    }
}

fn make_answer(n: usize, uid: u64, ans: usize) -> Vec<u8> {
    let s = st();
    let mut qs = s.qs.borrow_mut();
    let inv = qs.get(&uid).map_or(0, |q| q.answers.len()) as u32;
    let mut h = inv.to_le_bytes().to_vec();
    h.extend_from_slice(&(n as u32).to_le_bytes());
    let a = content(rng::mix(s.seed, inv as u64), uid, C_ANSWER, &h, ans);
    if let Some(q) = qs.get_mut(&uid) {
        q.answers.push(a.clone());
    }
    a
}

struct Filter {
    n: usize,
}

/// Filters also reject every peer that claims to live in this network
fn refused_addr(addr: &SocketAddrV4) -> bool {
    addr.ip().octets()[..3] == [10, 0, 200]
}

/// A peer the node knows is announced at an address the filter rejects
async fn filter_move(s: &Rc<St>, v: usize, kind: u8) {
    let c = cl();
    let Some(node) = c.adnl(v) else { return };
    let bad = SocketAddrV4::new(std::net::Ipv4Addr::new(10, 0, 200, 1 + kind), 4000);
    match kind {
        0 | 1 => {
            let p = cp(s, 0);
            if node.get_peer_address(&c.id(v, 0).short, &p.id.short).is_none() {
                return;
            }
            let mut hs = p.hs((v, 0), vec![p.ping_msg()]);
            if let Some(a) = hs.address.as_mut() {
                a.ip = u32::from(*bad.ip());
            }
            let plain = hs.sign(&p.key).ser();
            p.send_plain((v, 0), &plain, None, 500);
            sleep(Duration::from_millis(50)).await;
        }
        _ => {
            let known = c.nodes.borrow()[v].known.clone();
            let ctx = if kind == 2 { NewPeerContext::Dht } else { NewPeerContext::PublicOverlay };
            for (k, id, _) in known {
                node.add_peer(ctx, &c.id(v, k).short, &id.short, bad, id.full).ok();
            }
        }
    }
    check_filters(s);
}
impl PeerFilter for Filter {
    fn check(&self, _ctx: NewPeerContext, addr: SocketAddrV4, peer_id: &NodeIdShort) -> bool {
        let Some(s) = try_st() else { return true };
        let r = !refused_addr(&addr) && s.filters.borrow().get(&self.n).map_or(true, |f| !f.contains(peer_id.as_slice()));
        if !r {
            count("filter_rejections", 1);
        }
        r
    }
}

pub struct AdnlFam;
impl Family for AdnlFam {
    fn attach(&self, n: usize, node: &Arc<adnl::Node>) {
        let life = life(n);
        for odd in [true, false] {
            node.add_message_subscriber(Arc::new(Sub { n, life, odd })).unwrap();
            node.add_query_subscriber(Arc::new(QSub { n, life, odd })).unwrap();
        }
    }
    fn filter(&self, n: usize) -> Option<Arc<dyn PeerFilter>> {
        if st().plan.is("filter") {
            Some(Arc::new(Filter { n }))
        } else {
            None
        }
    }
}

// ------------------------------------------------------------------ operations

pub async fn op(op: &Op) {
    let c = cl();
    let s = st();
    match op {
        Op::Msg { from, fk, to, tk, len } => {
            s.send_msg((*from, *fk), (*to, *tk), *len, None);
        }
        Op::Burst { from, fk, to, tk, len, count, gap_us } => {
            let (from, to, len, count, gap) = ((*from, *fk), (*to, *tk), *len, *count, *gap_us);
            let s2 = s.clone();
            spawn_local(async move {
                for i in 0..count {
                    // vary the size a little around the requested one
                    s2.send_msg(from, to, len + (i * 7) % 40, None);
                    if gap > 0 {
                        sleep(Duration::from_micros(gap)).await;
                    }
                }
            });
        }
        Op::Isolated { from, fk, to, tk, len, query } => isolated(&s, (*from, *fk), (*to, *tk), *len, *query).await,
        Op::Query { from, fk, to, tk, len, ans, mode, delay, timeout, cancel } => {
            let a = QArgs { len: *len, ans: *ans, mode: *mode, delay: *delay, timeout: *timeout, cancel: *cancel };
            s.start_query((*from, *fk), (*to, *tk), a);
        }
        Op::Forget { n, k, to, tk } => {
            if let (true, Some(node)) = (c.up(*n), c.adnl(*n)) {
                let (me, you) = (c.id(*n, *k).short, c.id(*to, *tk).short);
                let _ = c.on(*n, || node.remove_peer(&me, &you));
                let kk = *k % c.nkeys(*n);
                c.nodes.borrow_mut()[*n].known.retain(|x| !(x.0 == kk && x.1.short == you));
                s.accepted.borrow_mut().remove(&(*n, life(*n), kk, *you.as_slice()));
            }
        }
        Op::Learn { n, k, to, tk } => {
            c.learn(*n, *k, *to, *tk);
        }
        Op::Restart { n } => {
            let n = *n;
            let c2 = c.clone();
            spawn_local(async move {
                c2.restart(n).await;
            });
        }
        Op::Shutdown { n } => {
            if c.up(*n) {
                s.shut.borrow_mut().insert((*n, life(*n)), now_ns());
            }
            c.env_op(op).await;
        }
        Op::ReplayWire { i, to, flip, from_atk } => replay_wire(&s, *i, *to, *flip, *from_atk),
        Op::ReplayChannel { i } => replay_channel(&s, *i),
        Op::Attack { v, vk, p, pk, kind, arg } => attack(&s, (*v, *vk), (*p, *pk), *kind, *arg).await,
        Op::Fuzz { v, seed, kind } => super::fuzz::fuzz(&s, *v, *seed, *kind).await,
        Op::CodecHello { v } => {
            let p = cp(&s, 0);
            if !p.connect((*v, 0)).await {
                count("codec_connect_failed", 1);
            }
        }
        Op::CodecDated { v, kind, d } => {
            let s2 = s.clone();
            let (v, kind, d) = (*v, *kind, *d);
            s.busy.set(s.busy.get() + 1);
            spawn_local(async move {
                codec_dated(&s2, v, kind, d).await;
                s2.busy.set(s2.busy.get() - 1);
            });
        }
        Op::FilterMove { v, kind } => filter_move(&s, *v, *kind).await,
        Op::CodecMsg { v, seqno, prio, chan, dup } => codec_msg(&s, *v, *seqno, *prio, *chan, *dup),
        Op::CodecParts { v, len, parts, gap_ms, stop, kind } => {
            let s2 = s.clone();
            let (v, len, parts, gap, stop, kind) = (*v, *len, *parts, *gap_ms, *stop, *kind);
            s.busy.set(s.busy.get() + 1);
            spawn_local(async move {
                codec_parts(&s2, v, len, parts, gap, stop, kind).await;
                s2.busy.set(s2.busy.get() - 1);
            });
        }
        _ => {
            c.env_op(op).await;
        }
    }
}

pub fn cp(s: &Rc<St>, i: usize) -> Rc<CPeer> {
    if s.cps.borrow().len() <= i {
        let k = s.cps.borrow().len();
        for j in k..=i {
            s.add_cp(77_000 + j as u64, 50 + j as u8);
        }
    }
    let p = s.cps.borrow()[i].clone();
    p
}

async fn isolated(s: &Rc<St>, from: Who, to: Who, len: usize, query: bool) {
    let c = cl();
    let k = &s.plan.knobs;
    let quiet = 2 * (k.lat_max_us + k.reorder_max_us) / 1000 + 20 * k.stall_max_us / 1000 + 100;
    sleep(Duration::from_millis(quiet)).await;
    if !c.up(from.0) || !c.up(to.0) {
        return;
    }
    let w0 = with(|w| w.wire.len());
    let uid = if query {
        let a = QArgs { len: 24, ans: len, mode: 0, delay: 0, timeout: 4000, cancel: 0 };
        s.start_query(from, to, a)
    } else {
        s.send_msg(from, to, len, None)
    };
    let Some(uid) = uid else { return };
    sleep(Duration::from_millis(quiet + 300)).await;
    if query {
        s.wait_queries(6000).await;
    }
    let (a, b) = (c.addr(from.0), c.addr(to.0));
    let (all, n, span) = with(|w| {
        let recs: Vec<_> = w.wire[w0..]
            .iter()
            .filter(|r| !r.injected && ((r.src == a && r.dst == b) || (query && r.src == b && r.dst == a)))
            .collect();
        let all = recs.iter().all(|r| r.delivered > 0 && !r.damaged);
        let first = recs.iter().map(|r| r.first_delivery).min().unwrap_or(0);
        let last = recs.iter().map(|r| r.first_delivery).max().unwrap_or(0);
        (all, recs.len(), last.saturating_sub(first))
    });
    if !all || n == 0 || span > SEC {
        count("isolated_with_losses", 1);
        return;
    }
    count("isolated_complete", 1);
    nontrivial();
    let ok = if query { s.qs.borrow()[&uid].got } else { !s.msgs.borrow()[&uid].delivered.is_empty() };
    if !ok {
        viol(
            &["A03"],
            "complete-but-not-delivered",
            format!(
                "{} of {len} bytes from {from:?} to {to:?}: all {n} datagrams arrived undamaged within {} ms but it was not delivered",
                if query { "an answer" } else { "a message" },
                span / MS
            ),
        );
    }
}

fn replay_wire(s: &Rc<St>, i: u64, to: Option<usize>, flip: u64, from_atk: bool) {
    let c = cl();
    let rec = with(|w| {
        let n = w.wire.len() as u64;
        if n == 0 {
            return None;
        }
        // first captured genuine datagram at or after the chosen position
        let start = (i % n) as usize;
        (0..n as usize)
            .map(|j| (start + j) % n as usize)
            .find(|j| !w.wire[*j].injected && w.wire[*j].data.is_some())
            .map(|j| w.wire[j].clone())
    });
    let Some(rec) = rec else { return };
    let mut data = rec.data.clone().unwrap().to_vec();
    let owner = c.nodes.borrow().iter().position(|x| x.lives.iter().any(|l| l.addr == rec.dst));
    let v = match to {
        Some(v) => v,
        None => match owner {
            Some(v) => v,
            None => return,
        },
    };
    if flip > 0 {
        let bit = (flip - 1) as usize % (data.len() * 8);
        data[bit / 8] ^= 1 << (bit % 8);
        if flip % 7 == 3 {
            let cut = (flip as usize / 7) % data.len();
            data.truncate(cut.max(1));
        }
    }
    s.dup_possible.set(true);
    count_fault(Fault::Replay);
    if flip == 0 {
        ban_if_stale(s, v, &data);
    }
    let src = if from_atk { atk_addr() } else { rec.src };
    inject_direct(src, c.addr(v), &data, 300);
}

/// A recorded packet of a channel arrives again, however the channel ended
fn replay_channel(s: &Rc<St>, i: u64) {
    let c = cl();
    let ids: Vec<[u8; 32]> = (0..s.plan.nodes.len()).flat_map(|n| (0..c.nkeys(n)).map(move |k| (n, k))).map(|(n, k)| *c.id(n, k).short.as_slice()).collect();
    let rec = with(|w| {
        let n = w.wire.len();
        (0..n).map(|j| &w.wire[(i as usize + j) % n]).find(|r| !r.injected && r.data.as_ref().is_some_and(|d| d.len() > 64 && !ids.iter().any(|x| d[..32] == x[..]))).cloned()
    });
    let Some(rec) = rec else { return };
    let Some(v) = c.nodes.borrow().iter().position(|x| x.lives.iter().any(|l| l.addr == rec.dst)) else { return };
    s.dup_possible.set(true);
    count_fault(Fault::Replay);
    count("channel_packets_replayed", 1);
    inject_direct(rec.src, c.addr(v), &rec.data.unwrap(), 300);
}

pub fn atk_addr() -> SocketAddrV4 {
    SocketAddrV4::new(std::net::Ipv4Addr::new(10, 0, 9, 9), 6666)
}

/// A genuine recorded handshake packet that the node has to refuse bans the messages in it
fn ban_if_stale(s: &Rc<St>, v: usize, data: &[u8]) {
    let c = cl();
    if !c.up(v) || s.plan.focus != "A07" {
        return;
    }
    let spec = s.plan.nodes[v].clone();
    for (k, seed) in spec.keys.iter().enumerate() {
        let key = codec::make_key(*seed);
        let Some(plain) = codec::open_handshake(&key, data) else { continue };
        let Some(pkt) = codec::parse(&plain) else { continue };
        let from = match &pkt.from {
            Some(everscale_network::crypto::tl::PublicKey::Ed25519 { key }) => {
                let Some(pk) = everscale_network::crypto::ed25519::PublicKey::from_bytes(**key) else { continue };
                adnl::NodeIdFull::new(pk).compute_short_id()
            }
            _ => continue,
        };
        let Some(rd) = pkt.reinit_dates else { continue };
        let acc = s.accepted.borrow().get(&(v, life(v), k, *from.as_slice())).copied().unwrap_or(0);
        let start = c.lives(v).last().map_or(0, |l| l.start_time);
        let why = if rd.target != 0 && rd.target < start {
            "it was addressed to an earlier incarnation of the receiver"
        } else if rd.local < acc {
            "a packet of a later incarnation of the sender had been accepted"
        } else if pkt.address.as_ref().map_or(false, |a| a.expire_at != 0 && a.expire_at < wall_secs(c.sid(v))) {
            "its address list had expired"
        } else {
            return;
        };
        count("stale_handshakes_replayed", 1);
        nontrivial();
        for m in pkt.messages.iter() {
            let u = match m {
                Message::Custom { data } => uid_of(data),
                Message::Query { query, .. } => uid_of(query),
                _ => None,
            };
            if let Some(u) = u {
                if let Some(m) = s.msgs.borrow_mut().get_mut(&u) {
                    m.banned = Some((life(v), why));
                    note(|| format!("message {u:#x} must not be accepted again: {why}"));
                }
            }
        }
    }
}

fn atk_payload(s: &Rc<St>, v: Who, claim_query: bool) -> (u64, Vec<u8>) {
    let uid = ATK | s.uid();
    let data = if claim_query {
        query_bytes(s.seed, uid, 30, 20, 2, 0)
    } else {
        content(s.seed, uid, C_MSG, &[], 40)
    };
    s.register(uid, (ATK_NODE, 0), s.atk_keys[0].short, v, data.clone(), false);
    (uid, data)
}

/// Packets of a host that holds only its own key, pretending to be peer `p` towards `v`
async fn attack(s: &Rc<St>, v: Who, p: Who, kind: u8, arg: u64) {
    // some attacks send recorded datagrams again
    s.dup_possible.set(true);
    let c = cl();
    if !c.up(v.0) {
        return;
    }
    let v = (v.0, v.1 % c.nkeys(v.0));
    let vid = c.id(v.0, v.1);
    let pid = c.id(p.0, p.1);
    let akey = codec::make_key(66_001);
    let mut rng = SimRng::new(rng::mix(s.seed, arg), 0xA7 + kind as u64);
    let p_start = c.lives(p.0).last().map_or(0, |l| l.start_time);
    let v_start = c.lives(v.0).last().map_or(0, |l| l.start_time);
    count_fault(Fault::Hostile);
    nontrivial();
    let (_, payload) = atk_payload(s, v, arg % 3 == 0);
    let m = if arg % 3 == 0 {
        let mut qid = [0u8; 32];
        rng.fill(&mut qid);
        msg::query(&qid, &payload)
    } else {
        msg::custom(&payload)
    };
    let eph = super::codecpeer::keypair(rng.next());
    let chk = super::codecpeer::keypair(rng.next());
    let wall = wall_secs(c.sid(v.0));
    let atk = atk_addr();
    let list = codec::AddrList {
        ip: u32::from(*atk.ip()),
        port: atk.port() as u32,
        version: wall,
        reinit: p_start,
        expire: wall + 1000,
        count: 1,
    };
    let reinit = match arg / 3 % 5 {
        0 => None,
        1 => Some((p_start, v_start)),
        2 => Some((p_start, 0)),
        3 => Some((wall, 0)),
        _ => Some((wall + 30, v_start)),
    };
    let create = msg::create_channel(chk.public_key.as_bytes(), wall + (arg / 16 % 20) as u32);
    let confirm = msg::confirm_channel(chk.public_key.as_bytes(), &[5u8; 32], wall + 20);
    let pfull = *pid.full.public_key().as_bytes();
    let pshort = *pid.short.as_slice();
    let afull = *akey.full_id().public_key().as_bytes();
    let ashort = *akey.id().as_slice();
    let base = Contents {
        messages: vec![m.clone()],
        seqno: Some(1 + arg % 1000),
        confirm: Some(0),
        reinit,
        rand1: vec![1, 2, 3],
        rand2: vec![4; 7],
        ..Default::default()
    };
    let addr = if arg & 64 != 0 { Some(list.clone()) } else { None };
    let msgs_chan = match arg / 7 % 3 {
        0 => vec![create.clone(), m.clone()],
        1 => vec![confirm.clone(), m.clone()],
        _ => vec![m.clone()],
    };
    let pkt: Option<Contents> = match kind {
        // claimed short id, no signature
        0 => Some(Contents { from_short: Some(pshort), messages: msgs_chan, ..base.clone() }),
        // claimed full key, no signature
        1 => Some(Contents { from: Some(pfull), messages: msgs_chan, address: addr, ..base.clone() }),
        // claimed full key, signed by the attacker
        2 => Some(Contents { from: Some(pfull), address: Some(list.clone()), messages: msgs_chan, ..base.clone() }.sign(&akey)),
        // claimed short id, signed by the attacker
        3 => Some(Contents { from_short: Some(pshort), messages: msgs_chan, ..base.clone() }.sign(&akey)),
        // own full key, claimed short id
        4 => Some(Contents { from: Some(afull), from_short: Some(pshort), address: Some(list.clone()), messages: msgs_chan, ..base.clone() }.sign(&akey)),
        // claimed full key, own short id
        5 => Some(Contents { from: Some(pfull), from_short: Some(ashort), address: Some(list.clone()), messages: msgs_chan, ..base.clone() }.sign(&akey)),
        // zero or odd sized signatures
        6 => {
            let n = [0usize, 1, 63, 64, 65, 128][arg as usize % 6];
            let full = arg & 32 != 0;
            Some(Contents {
                from: full.then_some(pfull),
                from_short: (!full).then_some(pshort),
                signature: Some(vec![0; n]),
                address: addr,
                messages: msgs_chan,
                ..base.clone()
            })
        }
        // an honest introduction of the attacker itself, then misuse of its own channel
        7 => {
            let own = Contents { from: Some(afull), address: Some(list.clone()), messages: vec![create.clone(), m.clone()], ..base.clone() };
            Some(own.sign(&akey))
        }
        // the claimed peer's own recorded signature moved to other contents
        8 => {
            let sig = recorded_signature(s, v, &pid.short);
            sig.map(|sig| Contents { from: Some(pfull), signature: Some(sig), address: Some(list.clone()), messages: msgs_chan, ..base.clone() })
        }
        9 => {
            let sig = recorded_signature(s, v, &pid.short);
            sig.map(|sig| Contents { from_short: Some(pshort), signature: Some(sig), messages: msgs_chan, ..base.clone() })
        }
        // no source at all
        10 => Some(Contents { messages: msgs_chan, ..base.clone() }),
        // claimed source, answer to nobody's query, channel messages only
        11 => Some(Contents { from_short: Some(pshort), messages: vec![create.clone()], ..base.clone() }),
        12 => Some(Contents { from_short: Some(pshort), messages: vec![confirm.clone()], ..base.clone() }),
        13 => Some(Contents { from: Some(pfull), messages: vec![create.clone(), confirm.clone(), m.clone()], address: Some(list.clone()), ..base.clone() }),
        _ => None,
    };
    if let Some(pk) = pkt {
        let ver = if arg & 8 != 0 { Some(0) } else { None };
        let data = codec::seal_handshake(&vid.full, &eph, &pk.ser(), ver);
        let src = if arg & 4 != 0 { c.addr(p.0) } else { atk };
        inject_direct(src, c.addr(v.0), &data, 200);
        if kind == 7 {
            // over its own channel: explicit foreign source
            let cpx = cp(s, 1);
            if cpx.connect(v).await {
                let ex = Contents {
                    from: (arg & 1 != 0).then_some(pfull),
                    from_short: (arg & 1 == 0).then_some(pshort),
                    messages: vec![m.clone()],
                    seqno: Some(40 + arg % 100),
                    ..base.clone()
                };
                cpx.send_ch_plain(v, arg & 2 != 0, &ex.ser(), 200);
            }
        }
        return;
    }
    match kind {
        // genuine packets of the peer, altered in one place
        14 => {
            let i = rng.next();
            let f = 1 + rng.next() % 20_000;
            replay_wire(s, i, None, f, arg & 1 != 0);
        }
        // genuine packets replayed from elsewhere
        15 => replay_wire(s, rng.next(), None, 0, true),
        // redirected to another node
        16 => {
            let t = rng.below(c.len() as u64) as usize;
            replay_wire(s, rng.next(), Some(t), 0, true)
        }
        // genuine outer packet of the peer re-encrypted with another destination or changed contents is not possible;
        // prefix of a genuine packet with a tail of another
        _ => {
            let (a, b) = with(|w| {
                let g: Vec<_> = w.wire.iter().filter(|r| !r.injected && r.data.is_some()).collect();
                if g.len() < 2 {
                    return (None, None);
                }
                let a = g[rng.below(g.len() as u64) as usize].data.clone();
                let b = g[rng.below(g.len() as u64) as usize].data.clone();
                (a, b)
            });
            if let (Some(a), Some(b)) = (a, b) {
                let cut = [32usize, 64, 96, 100, 68, 36][arg as usize % 6].min(a.len()).min(b.len());
                let mut d = a[..cut].to_vec();
                d.extend_from_slice(&b[cut..]);
                inject_direct(atk, c.addr(v.0), &d, 200);
            }
        }
    }
}

/// A signature the peer made in one of its recorded handshake packets to this node
fn recorded_signature(s: &Rc<St>, v: Who, p: &NodeIdShort) -> Option<Vec<u8>> {
    let key = codec::make_key(s.plan.nodes[v.0].keys[v.1]);
    let datas: Vec<Rc<[u8]>> = with(|w| w.wire.iter().rev().filter(|r| !r.injected).filter_map(|r| r.data.clone()).take(400).collect());
    for d in datas {
        let Some(plain) = codec::open_handshake(&key, &d) else { continue };
        let Some(pkt) = codec::parse(&plain) else { continue };
        let from = match &pkt.from {
            Some(everscale_network::crypto::tl::PublicKey::Ed25519 { key }) => {
                adnl::NodeIdFull::new(everscale_network::crypto::ed25519::PublicKey::from_bytes(**key)?).compute_short_id()
            }
            _ => continue,
        };
        if &from != p {
            continue;
        }
        let mut copy = plain.clone();
        if let Some(sig) = pkt.signature {
            // SAFETY: the packet is a private copy and the signature is taken from it once
            let r = unsafe { sig.extract(&mut copy) };
            return r.map(|(_, s)| s.to_vec());
        }
    }
    None
}

/// A packet of a genuine peer whose dates are ahead, outdated or of an earlier life
async fn codec_dated(s: &Rc<St>, v: usize, kind: u8, d: i64) {
    let c = cl();
    if !c.up(v) {
        return;
    }
    let i = s.cps.borrow().len().max(1);
    let p = cp(s, i);
    let vw = (v, 0);
    if matches!(kind, 2 | 3 | 5) && !p.connect(vw).await {
        count("codec_connect_failed", 1);
        return;
    }
    if !c.up(v) {
        return;
    }
    let tol = s.plan.nodes[v].clock_tolerance as i64;
    let wall = wall_secs(c.sid(v)) as i64;
    let v_start = c.lives(v).last().map_or(0, |l| l.start_time);
    let uid = CPR | s.uid();
    s.register(uid, (CP_NODE, 0), p.id.short, vw, content(s.seed, uid, C_MSG, &[], 24), false);
    let m = msg::custom(&s.msgs.borrow()[&uid].data.clone());
    let ahead = (wall + d) as u32;
    let future = "it was dated further in the future than the clock tolerance";
    let mut why = (d > tol).then_some(future);
    let mut hs = if kind == 3 { p.ch(vw, d % 2 == 0, vec![m]) } else { p.hs(vw, vec![m]) };
    match kind {
        0 => {
            hs.reinit = Some((ahead, 0));
            hs.address.as_mut().unwrap().reinit = ahead;
        }
        1 => hs.reinit = Some((ahead, 0)),
        2 => {
            hs.from = None;
            hs.from_short = Some(*p.id.short.as_slice());
            hs.address = None;
            hs.reinit = Some((ahead, 0));
        }
        3 => hs.reinit = Some((ahead, v_start)),
        4 => {
            hs.address.as_mut().unwrap().expire = (wall - 2 - d) as u32;
            why = Some("its address list had expired");
        }
        5 => {
            hs.reinit = Some((p.start - 1 - d as u32, 0));
            why = Some("a packet of a later incarnation of the sender had been accepted");
        }
        6 => {
            hs.reinit = Some((p.start, v_start - 1 - d as u32));
            why = Some("it was addressed to an earlier incarnation of the receiver");
        }
        _ => hs.address.as_mut().unwrap().reinit = ahead,
    }
    count("dated_packets", 1);
    nontrivial();
    if let Some(why) = why {
        s.msgs.borrow_mut().get_mut(&uid).unwrap().banned = Some((life(v), why));
        note(|| format!("message {uid:#x} must not be accepted: {why}"));
    }
    let l0 = life(v);
    let sent = if kind == 3 {
        p.send_ch_plain(vw, d % 2 == 0, &hs.ser(), 100)
    } else {
        p.send_plain(vw, &hs.sign(&p.key).ser(), None, 100);
        true
    };
    if why.is_some() || !sent {
        return;
    }
    sleep(Duration::from_millis(3000)).await;
    if c.up(v) && life(v) == l0 && s.msgs.borrow()[&uid].delivered.is_empty() {
        viol(
            &["A07"],
            "within-tolerance-refused",
            format!("node {v} did not accept a packet (kind {kind}) dated {d} s ahead although its clock tolerance is {tol} s"),
        );
    }
}

fn codec_msg(s: &Rc<St>, v: usize, seqno: u64, prio: bool, chan: bool, dup: bool) {
    let p = cp(s, 0);
    p.drain();
    let vw = (v, 0);
    let Some(_) = p.chan(vw) else { return };
    let uid = if dup {
        // an exact copy of the contents sent under this number before
        let ms = s.msgs.borrow();
        let f = ms.iter().find(|(_, m)| m.from == (CP_NODE, seqno as usize) && m.sends > 0 && (m.from_short == p.id.short));
        match f {
            Some((u, _)) => *u,
            None => return,
        }
    } else {
        let uid = CPR | s.uid();
        s.register(uid, (CP_NODE, seqno as usize), p.id.short, vw, content(s.seed, uid, C_MSG, &[], 24), true);
        uid
    };
    let data = s.msgs.borrow()[&uid].data.clone();
    let m = msg::custom(&data);
    if dup {
        count_fault(Fault::Replay);
        s.dup_possible.set(true);
    }
    if chan {
        let mut ch = p.ch(vw, prio, vec![m]);
        ch.seqno = Some(seqno);
        p.send_ch_plain(vw, prio, &ch.ser(), 100);
    } else {
        let mut hs = p.hs(vw, vec![m]);
        hs.seqno = Some(seqno);
        p.send_plain(vw, &hs.sign(&p.key).ser(), None, 100);
    }
    count("numbered_packets", 1);
}

/// A large message sent part by part by a host under harness control
async fn codec_parts(s: &Rc<St>, v: usize, len: usize, parts: usize, gap: u64, stop: usize, kind: u8) {
    use sha2::Digest;
    let p = cp(s, 0);
    p.drain();
    let vw = (v, 0);
    if p.chan(vw).is_none() {
        return;
    }
    let uid = CPR | s.uid();
    let body = content(s.seed, uid, C_MSG, &[], len);
    let full = msg::custom(&body);
    s.register(uid, (CP_NODE, 0), p.id.short, vw, body, false);
    let hash: [u8; 32] = sha2::Sha256::digest(&full).into();
    let size = full.len().div_ceil(parts).max(1);
    let mut chunks: Vec<(usize, &[u8])> = full.chunks(size).enumerate().map(|(i, c)| (i * size, c)).collect();
    let mut rng = SimRng::new(rng::mix(s.seed, uid), 5);
    if kind & 1 != 0 {
        rng.shuffle(&mut chunks);
    }
    let rounds = if kind & 2 != 0 { 2 } else { 1 };
    for r in 0..rounds {
        if r > 0 {
            // the very same message once more, after the first copy is done with
            sleep(Duration::from_millis(300)).await;
            s.msgs.borrow_mut().get_mut(&uid).unwrap().sends += 1;
        }
        let stop = if stop == 0 { chunks.len() } else { stop.min(chunks.len()) };
        for (i, (off, c)) in chunks.iter().enumerate() {
            if i >= stop {
                break;
            }
            if i > 0 {
                sleep(Duration::from_millis(gap)).await;
            }
            let m = msg::part(&hash, full.len() as u32, *off as u32, c);
            let ch = p.ch(vw, i % 2 == 0, vec![m.clone()]);
            p.send_ch_plain(vw, i % 2 == 0, &ch.ser(), 100);
            if kind & 4 != 0 && i + 1 < stop && rng.chance(0.3) {
                // a duplicated part
                let ch = p.ch(vw, true, vec![m]);
                p.send_ch_plain(vw, true, &ch.ser(), 150);
            }
        }
        if stop == chunks.len() {
            sleep(Duration::from_millis(200 + s.slack_ms() * 4)).await;
            let got = s.msgs.borrow()[&uid].delivered.len();
            nontrivial();
            if got < r + 1 && cl().up(v) {
                let slow = gap > 500;
                let ps: &[&str] = if slow { &["A09", "A03"] } else { &["A03"] };
                viol(
                    ps,
                    if slow { "live-transfer-dropped" } else { "complete-but-not-delivered" },
                    format!("a message of {len} bytes in {} parts {gap} ms apart was not delivered (round {r}, transfer timeout {} s)", chunks.len(), s.plan.nodes[v].transfer_timeout),
                );
            }
        } else {
            count("transfers_abandoned", 1);
            nontrivial();
        }
    }
}

// ------------------------------------------------------------------ final checks

pub fn check_channels(when: &str) {
    let c = cl();
    for n in 0..c.len() {
        if !c.up(n) {
            continue;
        }
        let m = c.adnl(n).unwrap().metrics();
        if m.channels_by_peers_len > m.peer_count {
            viol(
                &["A09"],
                "more-channels-than-peers",
                format!("{when}: node {n} keeps {} channels for {} peers", m.channels_by_peers_len, m.peer_count),
            );
        }
        if m.channels_by_id_len > 2 * m.channels_by_peers_len {
            viol(
                &["A09"],
                "stale-channel-ids",
                format!("{when}: node {n} keeps {} channel ids for {} channels", m.channels_by_id_len, m.channels_by_peers_len),
            );
        }
    }
}

async fn final_checks(s: &Rc<St>) {
    let c = cl();
    let plan = &s.plan;
    // every query ends
    let longest = s.qs.borrow().values().map(|q| q.timeout).max().unwrap_or(0);
    if !s.wait_queries(longest + s.slack_ms() + 1000).await {
        let qs = s.qs.borrow();
        for (u, q) in qs.iter().filter(|(_, q)| !q.done && !q.killed) {
            viol(&["A04"], "query-never-returned", format!("query {u:#x} with timeout {} ms did not return", q.timeout));
        }
    }
    // what had to arrive did
    for (u, m) in s.msgs.borrow().iter() {
        if m.must {
            nontrivial();
            if m.delivered.is_empty() {
                let prop: &[&str] = match m.from.0 {
                    CP_NODE => &["A05"],
                    _ if plan.focus == "A05" => &["A05", "A03"],
                    _ if plan.focus == "A07" => &["A07", "A03"],
                    _ if plan.focus == "A02" => &["A02", "A03"],
                    _ if plan.focus == "A10" => &["A10", "A03"],
                    _ if plan.focus == "A08" => &["A08", "A03"],
                    _ => &["A03"],
                };
                viol(
                    prop,
                    "not-delivered",
                    format!("message {u:#x} of {} bytes from {:?} to {:?} sent at {} ms never arrived on a network that loses nothing", m.data.len(), m.from, m.to, m.t / MS),
                );
            }
        }
    }
    // queries leave nothing registered
    for n in 0..c.len() {
        if c.up(n) {
            let m = c.adnl(n).unwrap().metrics();
            if m.query_count != 0 && s.pending.get() == 0 {
                viol(&["A04"], "query-left-registered", format!("node {n} still has {} queries registered after all calls ended", m.query_count));
            }
        }
    }
    check_channels("at the end");
}

/// Honest queries between all pairs that know each other must succeed
async fn pairs_must_talk(s: &Rc<St>, props: &[&str], class: &str) {
    let c = cl();
    let mut uids = Vec::new();
    for n in 0..c.len() {
        if !c.up(n) {
            continue;
        }
        let known = c.nodes.borrow()[n].known.clone();
        for (k, id, m) in known {
            if !c.up(m) {
                continue;
            }
            let Some((_, tk)) = c.whose(&id.short) else { continue };
            if let Some(f) = s.filters.borrow().get(&n) {
                if f.contains(id.short.as_slice()) {
                    continue;
                }
            }
            let mine = c.id(n, k).short;
            if let Some(f) = s.filters.borrow().get(&m) {
                if f.contains(mine.as_slice()) {
                    continue;
                }
            }
            let a = QArgs { len: 40, ans: 40, mode: 0, delay: 0, timeout: 3000 + s.net_ms(), cancel: 0 };
            if let Some(u) = s.start_query((n, k), (m, tk), a) {
                s.qs.borrow_mut().get_mut(&u).unwrap().must = false;
                uids.push((u, n, m));
            }
        }
    }
    s.wait_queries(10_000 + s.net_ms()).await;
    for (u, n, m) in uids {
        nontrivial();
        if !s.qs.borrow()[&u].got && c.up(n) && c.up(m) {
            viol(props, class, format!("afterwards a query from node {n} to node {m} got no answer on a good network"));
        }
    }
}

/// A06: queries every second in both directions until each pair has a streak of successes
async fn recovery(s: &Rc<St>) {
    let c = cl();
    let limit = s.plan.get("recover_s").max(1) as u64;
    let mut streak: BTreeMap<(usize, usize, usize, usize), u32> = BTreeMap::new();
    let t0 = now_ms();
    loop {
        let mut uids = Vec::new();
        for n in 0..c.len() {
            let known = c.nodes.borrow()[n].known.clone();
            for (k, id, m) in known {
                let Some((_, tk)) = c.whose(&id.short) else { continue };
                // one side may stay silent: the other one must find out on its own
                let silent = s.plan.get("one_sided");
                if silent != 0 && (n < m) == (silent == 1) {
                    continue;
                }
                let a = QArgs { len: 30, ans: 30, mode: 0, delay: 0, timeout: 1500 + s.net_ms(), cancel: 0 };
                if let Some(u) = s.start_query((n, k), (m, tk), a) {
                    s.qs.borrow_mut().get_mut(&u).unwrap().must = false;
                    uids.push((u, (n, k, m, tk)));
                }
            }
        }
        sleep(Duration::from_millis(1000)).await;
        s.wait_queries(5_000 + s.net_ms()).await;
        for (u, key) in uids {
            let got = s.qs.borrow()[&u].got;
            let e = streak.entry(key).or_insert(0);
            *e = if got { *e + 1 } else { 0 };
        }
        nontrivial();
        if streak.values().all(|v| *v >= 6) {
            count("recovery_ms", now_ms() - t0);
            count("recoveries", 1);
            break;
        }
        if now_ms() - t0 > limit * 1000 {
            for (k, v) in streak.iter().filter(|(_, v)| **v < 6) {
                viol(
                    &["A06"],
                    "no-recovery",
                    format!("node {} (key {}) cannot query node {} (key {}) {} s after the network healed; current streak {v}", k.0, k.1, k.2, k.3, limit),
                );
            }
            break;
        }
    }
}

// ------------------------------------------------------------------ the run

pub async fn main(plan: Plan) {
    let plan = Rc::new(plan);
    let c = install_cluster(&plan);
    let s = st();
    c.start_all();
    for step in plan.steps.iter().filter(|x| x.at == 0) {
        op(&step.op).await;
    }
    if plan.is("watch_channels") {
        spawn_local(async move {
            loop {
                sleep(Duration::from_millis(150)).await;
                check_channels("while running");
            }
        });
    }
    for step in plan.steps.iter().filter(|x| x.at > 0) {
        sleep_until_ms(step.at).await;
        note(|| format!("{:?}", step.op));
        op(&step.op).await;
    }
    match plan.focus.as_str() {
        "A06" => {
            calm();
            for n in 0..c.len() {
                c.restart(n).await;
            }
            sleep(Duration::from_millis(plan.settle)).await;
            recovery(&s).await;
        }
        "A09" => {
            // quiet down, then everything unfinished has to go
            calm();
            s.wait_queries(20_000).await;
            let tt = plan.nodes.iter().map(|n| n.transfer_timeout).max().unwrap_or(3);
            sleep(Duration::from_millis(plan.settle + s.net_ms() + (2 * tt + 2) * 1000)).await;
            for n in 0..c.len() {
                if !c.up(n) {
                    continue;
                }
                let m = c.adnl(n).unwrap().metrics();
                nontrivial();
                if m.incoming_transfers_len != 0 {
                    viol(
                        &["A09"],
                        "transfer-left-behind",
                        format!("node {n} keeps {} unfinished transfers long after traffic stopped (timeout {} s)", m.incoming_transfers_len, plan.nodes[n].transfer_timeout),
                    );
                }
            }
        }
        "A08" | "A02" | "A10" => {
            calm();
            sleep(Duration::from_millis(plan.settle + s.net_ms())).await;
            let f = plan.focus.clone();
            if plan.is("reliable") || f == "A08" {
                pairs_must_talk(&s, &[&f], "honest-pair-cut-off").await;
            }
            if f == "A02" {
                check_addresses(&s);
            }
            if f == "A10" {
                check_filters(&s);
            }
        }
        "A11" => {
            sleep(Duration::from_millis(plan.settle + s.net_ms())).await;
            shutdown_checks(&s).await;
        }
        _ => {
            if !plan.is("noquiet") {
                calm();
            }
            sleep(Duration::from_millis(plan.settle + s.net_ms())).await;
        }
    }
    final_checks(&s).await;
}

pub fn install_cluster(plan: &Rc<Plan>) -> Rc<Cluster> {
    let c = super::cluster::install(plan);
    let s = install(plan);
    if plan.is("filter") {
        // bit (n * 16 + 4 * m + k) set: node n rejects key k of node m; codec peers use bits 12..15 (m = 3)
        let bits = plan.get("filter_bits") as u64;
        for n in 0..plan.nodes.len().min(3) {
            let mut f = BTreeSet::new();
            for (m, spec) in plan.nodes.iter().enumerate() {
                for (k, seed) in spec.keys.iter().enumerate() {
                    if n != m && bits >> (n * 16 + 4 * m + k) & 1 == 1 {
                        f.insert(*ident(*seed).short.as_slice());
                    }
                }
            }
            for j in 0..2u64 {
                if bits >> (n * 16 + 12 + j as usize) & 1 == 1 {
                    f.insert(*ident(77_000 + j).short.as_slice());
                }
            }
            s.filters.borrow_mut().insert(n, f);
        }
    }
    *c.fam.borrow_mut() = Some(Rc::new(AdnlFam));
    c
}

/// The address a node uses for a peer is one the peer had, not an attacker's and not one of an
/// incarnation older than the newest accepted
fn check_addresses(s: &Rc<St>) {
    let c = cl();
    for n in 0..c.len() {
        if !c.up(n) {
            continue;
        }
        let node = c.adnl(n).unwrap();
        for k in 0..c.nkeys(n) {
            let me = c.id(n, k).short;
            for m in 0..c.len() {
                for tk in 0..c.nkeys(m) {
                    if m == n {
                        continue;
                    }
                    let you = c.id(m, tk).short;
                    let Some(a) = node.get_peer_address(&me, &you) else { continue };
                    let acc = s.accepted.borrow().get(&(n, life(n), k, *you.as_slice())).copied().unwrap_or(0);
                    let ok = c.lives(m).iter().any(|l| l.addr == a && l.start_time >= acc);
                    nontrivial();
                    if !ok {
                        viol(
                            &["A02"],
                            "address-hijacked",
                            format!("node {n} uses address {a} for node {m}, whose accepted incarnation never had it"),
                        );
                    }
                }
            }
        }
    }
}

fn check_filters(s: &Rc<St>) {
    let c = cl();
    for n in 0..c.len() {
        if !c.up(n) {
            continue;
        }
        let node = c.adnl(n).unwrap();
        for k in 0..c.nkeys(n) {
            let me = c.id(n, k).short;
            let mut ids: Vec<NodeIdShort> = s.cps.borrow().iter().map(|p| p.id.short).collect();
            ids.extend(c.nodes.borrow()[n].known.iter().map(|x| x.1.short));
            for id in ids {
                if let Some(a) = node.get_peer_address(&me, &id) {
                    if refused_addr(&a) {
                        viol(&["A10"], "filtered-address-used", format!("node {n} uses address {a} for peer {id} although its filter rejects that address"));
                    }
                }
            }
            if let Some(f) = s.filters.borrow().get(&n) {
                for id in f {
                    nontrivial();
                    if node.get_peer_address(&me, &NodeIdShort::new(*id)).is_some() {
                        viol(&["A10"], "filtered-peer-added", format!("node {n} added peer {} although its filter rejects it", hex::encode(id)));
                    }
                }
            }
        }
    }
}

/// A11: after shutdown nothing leaves the node any more, and a new instance works
async fn shutdown_checks(s: &Rc<St>) {
    let c = cl();
    let shut: Vec<((usize, u32), u64)> = s.shut.borrow().iter().map(|(k, v)| (*k, *v)).collect();
    for ((n, lf), t) in &shut {
        nontrivial();
        let lives = c.lives(*n);
        let addr = lives[*lf as usize].addr;
        let until = lives.get(*lf as usize + 1).map_or(u64::MAX, |l| l.from_ns);
        let bad = with(|w| w.wire.iter().filter(|r| !r.injected && r.src == addr && r.t > t + s.grace_ns() && r.t < until).count());
        if bad > 0 {
            viol(&["A11"], "sent-after-shutdown", format!("node {n} sent {bad} datagrams more than {} ms after its shutdown", s.grace_ns() / MS));
        }
    }
    // a new instance on the same port
    calm();
    for ((n, _), _) in &shut {
        if c.up(*n) {
            continue;
        }
        let had = c.lives(*n).len();
        c.restart(*n).await;
        if c.lives(*n).len() == had {
            viol(&["A11"], "restart-failed", format!("node {n} could not be started again on its port after shutdown: its socket is still in use"));
        }
    }
    if !shut.is_empty() {
        // queries between all of them work again within the recovery bound
        let mut ok = false;
        for _ in 0..60 {
            let mut uids = vec![];
            for n in 0..c.len() {
                let known = c.nodes.borrow()[n].known.clone();
                for (k, id, m) in known {
                    let Some((_, tk)) = c.whose(&id.short) else { continue };
                    let a = QArgs { len: 30, ans: 30, mode: 0, delay: 0, timeout: 1000 + s.net_ms(), cancel: 0 };
                    if let Some(u) = s.start_query((n, k), (m, tk), a) {
                        s.qs.borrow_mut().get_mut(&u).unwrap().must = false;
                        uids.push(u);
                    }
                }
            }
            sleep(Duration::from_millis(1000)).await;
            s.wait_queries(5000 + s.net_ms()).await;
            if uids.iter().all(|u| s.qs.borrow()[u].got) {
                ok = true;
                break;
            }
        }
        if !ok {
            viol(&["A11"], "no-service-after-restart", "after shutdown and a new start the nodes could not query each other");
        }
    }
}

// ------------------------------------------------------------------ generation

pub fn info(p: &str) -> Option<(u64, &'static str)> {
    Some(match p {
        "A01" => (700, "a message, query or answer was compared with what was sent"),
        "A02" => (500, "an attack was carried out against a node that later proved reachable by the honest peer"),
        "A03" => (600, "a message had to arrive and was checked for arrival"),
        "A04" => (500, "a query ended and its result, time and bookkeeping were checked"),
        "A05" => (500, "a packet was duplicated, replayed or renumbered and its processing counted"),
        "A06" => (250, "nodes had to recover after a storm of faults"),
        "A07" => (400, "a stale, premature or skewed packet met a restarted node"),
        "A08" => (400, "hostile datagrams were injected and honest traffic checked afterwards"),
        "A09" => (300, "unfinished transfers or removed peers were checked for leftovers"),
        "A10" => (300, "a filtered peer tried to get in"),
        "A11" => (300, "a node was shut down while in use"),
        _ => return None,
    })
}

pub fn any_len(rng: &mut SimRng) -> usize {
    match rng.below(10) {
        0..=3 => rng.range(12, 200) as usize,
        4 => rng.range(200, 900) as usize,
        // around the single packet limit and the split points
        5 | 6 => *rng.pick(&[900usize, 930, 940, 950, 960, 966, 970, 975, 976, 980, 984, 988, 1000, 1008, 1010, 1011, 1012, 1013, 1016, 1020, 1024, 1028, 1100]),
        7 => *rng.pick(&[1980usize, 1984, 2000, 2030, 2036, 2047, 2048, 2052, 2100, 3000, 3060, 3072, 4090, 4096]),
        8 => rng.range(1100, 6000) as usize,
        _ if rng.chance(0.04) => rng.range(60_000, 300_000) as usize,
        _ => rng.range(6000, 30_000) as usize,
    }
}

/// Everybody learns everybody (or a random half of the key pairs)
pub fn mesh(plan: &mut Plan, rng: &mut SimRng, full: bool) {
    let keys: Vec<usize> = plan.nodes.iter().map(|n| n.keys.len()).collect();
    for a in 0..keys.len() {
        for b in 0..keys.len() {
            if a == b {
                continue;
            }
            for ka in 0..keys[a] {
                for kb in 0..keys[b] {
                    if full || rng.chance(0.6) {
                        plan.push(0, Op::Learn { n: a, k: ka, to: b, tk: kb });
                    }
                }
            }
        }
    }
}

pub struct Mix {
    pub queries: f64,
    pub bursts: f64,
    pub big: bool,
    pub timeout: u64,
    pub modes: bool,
    pub cancel: bool,
}

pub fn traffic(plan: &mut Plan, rng: &mut SimRng, t0: u64, t1: u64, n: usize, mix: &Mix) {
    // only along pairs known at the start
    let pairs: Vec<(usize, usize, usize, usize)> = plan
        .steps
        .iter()
        .filter_map(|s| match s.op {
            Op::Learn { n, k, to, tk } => Some((n, k, to, tk)),
            _ => None,
        })
        .collect();
    if pairs.is_empty() {
        return;
    }
    for _ in 0..n {
        let at = rng.range(t0, t1);
        let (from, fk, to, tk) = *rng.pick(&pairs);
        let len = if mix.big { any_len(rng) } else { rng.range(12, 300) as usize };
        let x = rng.f64();
        if x < mix.queries {
            let mode = if mix.modes { *rng.pick(&[0u8, 0, 0, 0, 1, 1, 2, 3, 4, 5]) } else { *rng.pick(&[0u8, 0, 0, 0, 1, 1, 5]) };
            let timeout = if mix.timeout > 0 { mix.timeout } else { *rng.pick(&[1u64, 20, 100, 400, 1000, 3000]) };
            let delay = if mode == 1 { rng.below(if mix.timeout > 0 { 400 } else { 2 * timeout + 5 }) } else { 0 };
            let cancel = if mix.cancel && rng.chance(0.25) { 1 + rng.below(timeout + timeout / 4 + 1) } else { 0 };
            let ans = if mix.big { any_len(rng) } else { rng.range(20, 300) as usize };
            plan.push(at, Op::Query { from, fk, to, tk, len: len.max(24), ans: ans.max(20), mode, delay, timeout, cancel });
        } else if x < mix.queries + mix.bursts {
            let count = rng.range(2, 25) as usize;
            let gap_us = *rng.pick(&[0u64, 0, 10, 500, 5000]);
            let len = len.min(5000);
            plan.push(at, Op::Burst { from, fk, to, tk, len, count, gap_us });
        } else {
            plan.push(at, Op::Msg { from, fk, to, tk, len });
        }
    }
}

fn nodes(plan: &mut Plan, rng: &mut SimRng, n: usize, maxkeys: usize) {
    for i in 0..n {
        let mut s = NodeSpec::random(i, rng);
        let k = rng.range(1, maxkeys as u64) as usize;
        s.keys = (0..k).map(|j| 100 * (i as u64 + 1) + j as u64).collect();
        plan.nodes.push(s);
    }
}

/// Some nodes share a host (and may talk over its loopback), some use equal ports on their hosts
fn neighbours(plan: &mut Plan, rng: &mut SimRng) {
    if rng.chance(0.75) {
        return;
    }
    let shared = rng.chance(0.7);
    let looped = rng.chance(0.6);
    let same_port = rng.chance(0.5);
    for s in &mut plan.nodes {
        s.loopback = looped && rng.chance(0.85);
        if same_port {
            s.port = 3000;
        }
    }
    if shared {
        for i in 1..plan.nodes.len() {
            if rng.chance(0.6) {
                plan.nodes[i].ip = plan.nodes[0].ip;
                plan.nodes[i].port = 3000 + i as u16;
            }
        }
    }
}

const MIX: Mix = Mix { queries: 0.35, bursts: 0.15, big: true, timeout: 0, modes: true, cancel: true };
const RELIABLE_MIX: Mix = Mix { queries: 0.35, bursts: 0.15, big: true, timeout: 8000, modes: false, cancel: false };

pub fn generate(p: &str, index: u64, seed: u64, rng: &mut SimRng, thorough: bool) -> Plan {
    let mut plan = Plan::new(p, "adnl", index, seed);
    let deep = if thorough { 2 } else { 1 };
    match p {
        "A01" => {
            let n = rng.range(2, 4) as usize;
            nodes(&mut plan, rng, n, 3);
            neighbours(&mut plan, rng);
            plan.knobs = if rng.chance(0.35) { Knobs::lossless(rng) } else { Knobs::swarm(rng) };
            plan.set("capture", 1);
            plan.set("a05_off", 0);
            mesh(&mut plan, rng, false);
            let t1 = *rng.pick(&[500u64, 3000, 8000]);
            let ops = rng.range(10, 60 * deep) as usize;
            traffic(&mut plan, rng, 5, t1, ops, &MIX);
            for _ in 0..rng.below(25) {
                let at = rng.range(20, t1);
                let flip = if rng.chance(0.7) { 1 + rng.below(16_000) } else { 0 };
                let to = if rng.chance(0.2) { Some(rng.below(n as u64) as usize) } else { None };
                plan.push(at, Op::ReplayWire { i: rng.next() % 100_000, to, flip, from_atk: rng.chance(0.5) });
            }
            for _ in 0..rng.below(6) {
                let (v, pp) = (rng.below(n as u64) as usize, rng.below(n as u64) as usize);
                if v != pp {
                    plan.push(rng.range(20, t1), Op::Attack { v, vk: 0, p: pp, pk: 0, kind: 14 + rng.below(4) as u8, arg: rng.next() % 10_000 });
                }
            }
            if rng.chance(0.3) {
                let x = rng.below(n as u64) as usize;
                let at = rng.range(100, t1);
                plan.push(at, Op::Crash { n: x });
                plan.push(at + rng.range(10, 900), Op::Restart { n: x });
            }
            if rng.chance(0.2) {
                let (a, b) = (rng.below(n as u64) as usize, rng.below(n as u64) as usize);
                if a != b {
                    // forgetting a peer forgets its history too
                    plan.set("a05_off", 1);
                    plan.push(rng.range(20, t1), Op::Forget { n: a, k: rng.below(3) as usize, to: b, tk: rng.below(3) as usize });
                }
            }
        }
        "A02" => {
            let n = rng.range(2, 3) as usize;
            nodes(&mut plan, rng, n, 2);
            plan.knobs = Knobs::lossless(rng);
            plan.set("capture", 1);
            plan.set("reliable", 1);
            mesh(&mut plan, rng, true);
            let t1 = 4000;
            let early = rng.chance(0.3);
            if !early {
                // honest sessions exist before the attacks
                let c = rng.range(2, 12) as usize;
                traffic(&mut plan, rng, 5, 400, c, &Mix { big: false, ..RELIABLE_MIX });
            }
            for _ in 0..rng.range(3, 25 * deep) {
                let v = rng.below(n as u64) as usize;
                let pp = (v + 1 + rng.below(n as u64 - 1) as usize) % n;
                let at = rng.range(if early { 1 } else { 600 }, t1);
                plan.push(
                    at,
                    Op::Attack { v, vk: rng.below(2) as usize, p: pp, pk: rng.below(2) as usize, kind: rng.below(18) as u8, arg: rng.next() % 1_000_000 },
                );
            }
            let moved = rng.chance(0.35);
            if moved {
                // the peer moves and restarts, then old packets come back
                let x = rng.below(n as u64) as usize;
                plan.set("reliable", 0);
                plan.push(1500, Op::Crash { n: x });
                plan.push(1501, Op::MovePort { n: x });
                plan.push(1502, Op::Restart { n: x });
                for y in 0..n {
                    if y != x {
                        for k in 0..2 {
                            for tk in 0..2 {
                                plan.push(5000, Op::Learn { n: x, k, to: y, tk });
                                for j in 0..3 {
                                    plan.push(5200 + 100 * j, Op::Msg { from: x, fk: k, to: y, tk, len: 40 });
                                }
                            }
                        }
                    }
                }
                for _ in 0..rng.range(2, 12) {
                    plan.push(rng.range(6500, 8000), Op::ReplayWire { i: rng.next() % 60, to: None, flip: 0, from_atk: true });
                }
            } else {
                let c = rng.range(2, 14) as usize;
                traffic(&mut plan, rng, 600, t1 + 500, c, &RELIABLE_MIX);
            }
            plan.settle = 800;
        }
        "A03" => {
            let n = rng.range(2, 3) as usize;
            nodes(&mut plan, rng, n, 2);
            neighbours(&mut plan, rng);
            match rng.below(3) {
                0 => {
                    plan.knobs = Knobs::lossless(rng);
                    plan.set("reliable", 1);
                    mesh(&mut plan, rng, true);
                    let t1 = *rng.pick(&[200u64, 2000, 8000]);
                    let c = rng.range(8, 50 * deep) as usize;
                    traffic(&mut plan, rng, 5, t1, c, &RELIABLE_MIX);
                }
                1 => {
                    plan.knobs = Knobs::swarm(rng);
                    plan.knobs.send_err = 0.0;
                    plan.knobs.recv_err = 0.0;
                    plan.knobs.loss = *rng.pick(&[0.0, 0.01, 0.05, 0.15]);
                    plan.knobs.corrupt = plan.knobs.corrupt.min(0.02);
                    plan.knobs.reorder_max_us = plan.knobs.reorder_max_us.min(100_000);
                    plan.knobs.dup = 0.0;
                    mesh(&mut plan, rng, true);
                    for i in 0..rng.range(4, 14 * deep) {
                        let a = rng.below(n as u64) as usize;
                        let b = (a + 1 + rng.below(n as u64 - 1) as usize) % n;
                        plan.push(10 + i, Op::Isolated { from: a, fk: rng.below(2) as usize, to: b, tk: rng.below(2) as usize, len: any_len(rng).max(24), query: rng.chance(0.4) });
                    }
                }
                _ => {
                    plan.knobs = Knobs::lossless(rng);
                    plan.set("reliable", 1);
                    if rng.chance(0.5) {
                        plan.knobs.add_dups(rng);
                    }
                    mesh(&mut plan, rng, true);
                    plan.push(5, Op::CodecHello { v: 0 });
                    for _ in 0..rng.range(2, 8) {
                        let len = any_len(rng).max(40);
                        let parts = rng.range(1, 20) as usize;
                        plan.push(
                            rng.range(20, 4000),
                            Op::CodecParts { v: 0, len, parts: parts.max((len + 12).div_ceil(1000)), gap_ms: *rng.pick(&[0, 0, 1, 20]), stop: 0, kind: rng.below(8) as u8 },
                        );
                    }
                    let c = rng.range(2, 20) as usize;
                    traffic(&mut plan, rng, 5, 4000, c, &RELIABLE_MIX);
                }
            }
            plan.settle = 1500;
        }
        "A04" => {
            let n = rng.range(2, 3) as usize;
            nodes(&mut plan, rng, n, 2);
            neighbours(&mut plan, rng);
            let good = rng.chance(0.4);
            plan.knobs = if good { Knobs::lossless(rng) } else { Knobs::swarm(rng) };
            mesh(&mut plan, rng, true);
            if good {
                plan.set("reliable", 1);
                if rng.chance(0.5) {
                    plan.knobs.add_dups(rng);
                }
            }
            let t1 = *rng.pick(&[200u64, 2000, 6000]);
            let c = rng.range(10, 50 * deep) as usize;
            let mix = Mix { queries: 0.9, timeout: if good && rng.chance(0.5) { 8000 } else { 0 }, ..MIX };
            traffic(&mut plan, rng, 5, t1, c, &mix);
            if !good {
                if rng.chance(0.5) {
                    let x = rng.below(n as u64) as usize;
                    let at = rng.range(50, t1);
                    plan.push(at, Op::Crash { n: x });
                    plan.push(at + rng.range(1, 1500), Op::Restart { n: x });
                }
                if rng.chance(0.3) {
                    plan.push(rng.range(5, t1), Op::Pause { n: rng.below(n as u64) as usize, ms: rng.range(50, 2500) });
                }
                if rng.chance(0.3) {
                    let at = rng.range(5, t1);
                    plan.push(at, Op::Partition { mask: 1 });
                    plan.push(at + rng.range(50, 2000), Op::Heal);
                }
                if rng.chance(0.3) {
                    let at = rng.range(5, t1);
                    plan.push(at, Op::Hold { a: 1, b: 0 });
                    plan.push(at + rng.range(50, 3000), Op::Release);
                }
                if rng.chance(0.2) {
                    plan.push(rng.range(5, t1), Op::Forget { n: 0, k: 0, to: 1, tk: 0 });
                }
            }
        }
        "A05" => gen_a05(&mut plan, rng, deep),
        "A06" => gen_a06(&mut plan, rng),
        "A07" => gen_a07(&mut plan, rng),
        "A08" => {
            let n = rng.range(2, 3) as usize;
            nodes(&mut plan, rng, n, 2);
            plan.knobs = Knobs::lossless(rng);
            if rng.chance(0.4) {
                plan.knobs.send_err = *rng.pick(&[0.02, 0.3]);
                plan.knobs.recv_err = *rng.pick(&[0.02, 0.3]);
            }
            plan.set("capture", 1);
            mesh(&mut plan, rng, true);
            let t1 = *rng.pick(&[500u64, 4000]);
            let c = rng.range(3, 20) as usize;
            traffic(&mut plan, rng, 5, t1, c, &MIX);
            for _ in 0..rng.range(5, 80 * deep) {
                plan.push(rng.range(5, t1), Op::Fuzz { v: rng.below(n as u64) as usize, seed: rng.next() % 1_000_000_000, kind: rng.below(super::fuzz::KINDS as u64) as u8 });
            }
            plan.settle = 500;
        }
        "A09" => {
            let n = rng.range(2, 4) as usize;
            nodes(&mut plan, rng, n, 2);
            plan.knobs = if rng.chance(0.5) { Knobs::swarm(rng) } else { Knobs::lossless(rng) };
            plan.knobs.corrupt = 0.0;
            plan.set("watch_channels", 1);
            mesh(&mut plan, rng, true);
            let t1 = *rng.pick(&[2000u64, 8000, 50_000]);
            let c = rng.range(5, 40 * deep) as usize;
            traffic(&mut plan, rng, 5, t1, c, &MIX);
            for _ in 0..rng.below(12) {
                let (a, b) = (rng.below(n as u64) as usize, rng.below(n as u64) as usize);
                if a == b {
                    continue;
                }
                let at = rng.range(5, t1);
                let (k, tk) = (rng.below(2) as usize, rng.below(2) as usize);
                plan.push(at, Op::Forget { n: a, k, to: b, tk });
                if rng.chance(0.6) {
                    plan.push(at + rng.range(1, 2000), Op::Learn { n: a, k, to: b, tk });
                }
            }
            for _ in 0..rng.below(3) {
                let x = rng.below(n as u64) as usize;
                let at = rng.range(50, t1);
                plan.push(at, Op::Crash { n: x });
                plan.push(at + rng.range(1, 3000), Op::Restart { n: x });
            }
            if rng.chance(0.7) {
                let mut k = Knobs::lossless(rng);
                k.stall = 0.0;
                plan.knobs = k;
                plan.push(1, Op::CodecHello { v: 0 });
                for _ in 0..rng.range(1, 6) {
                    let tt = plan.nodes[0].transfer_timeout * 1000;
                    let parts = rng.range(2, 9) as usize;
                    if rng.chance(0.5) {
                        // slow but alive
                        let gap_ms = rng.range(200, tt - 1300);
                        plan.push(rng.range(10, 2000), Op::CodecParts { v: 0, len: 3000, parts, gap_ms, stop: 0, kind: rng.below(2) as u8 });
                    } else {
                        let stop = rng.range(1, parts as u64 - 1) as usize;
                        plan.push(rng.range(10, 6000), Op::CodecParts { v: 0, len: 3000, parts, gap_ms: *rng.pick(&[0, 10, 500]), stop, kind: rng.below(8) as u8 });
                    }
                }
                // a crash would end the transfers
                plan.steps.retain(|s| !matches!(s.op, Op::Crash { n: 0 } | Op::Restart { n: 0 }));
            }
            if rng.chance(0.5) {
                plan.push(t1 / 2, Op::Partition { mask: 1 });
                plan.push(t1 / 2 + rng.range(100, 40_000), Op::Heal);
                for i in 0..rng.below(45) {
                    plan.push(t1 / 2 + i * 1000, Op::Query { from: 0, fk: 0, to: 1, tk: 0, len: 24, ans: 20, mode: 0, delay: 0, timeout: 500, cancel: 0 });
                }
            }
            plan.settle = 40_000.min(2 * t1);
        }
        "A10" => {
            let n = 3;
            nodes(&mut plan, rng, n, 2);
            plan.knobs = Knobs::lossless(rng);
            plan.set("filter", 1);
            let mut bits = 0u64;
            for b in 0..48 {
                if rng.chance(0.35) {
                    bits |= 1 << b;
                }
            }
            plan.set("filter_bits", bits as i64);
            mesh(&mut plan, rng, false);
            let c = rng.range(5, 30) as usize;
            traffic(&mut plan, rng, 5, 3000, c, &MIX);
            for j in 0..rng.below(4) {
                plan.push(10 + j * 300, Op::Attack { v: rng.below(3) as usize, vk: 0, p: rng.below(3) as usize, pk: 0, kind: 7, arg: rng.next() % 1000 });
            }
            if rng.chance(0.5) {
                plan.push(20, Op::CodecHello { v: 0 });
                for i in 0..rng.below(20) {
                    plan.push(900 + i, Op::CodecMsg { v: 0, seqno: 100 + i, prio: rng.chance(0.5), chan: rng.chance(0.5), dup: false });
                }
                plan.push(rng.range(950, 2900), Op::FilterMove { v: 0, kind: rng.below(2) as u8 });
            }
            for _ in 0..rng.below(3) {
                plan.push(rng.range(100, 2900), Op::FilterMove { v: rng.below(3) as usize, kind: rng.range(2, 3) as u8 });
            }
            for _ in 0..rng.below(4) {
                let (a, b) = (rng.below(3) as usize, rng.below(3) as usize);
                if a != b {
                    plan.push(rng.range(100, 2500), Op::Learn { n: a, k: rng.below(2) as usize, to: b, tk: rng.below(2) as usize });
                }
            }
            plan.set("reliable", 0);
            plan.settle = 500;
        }
        "A11" => {
            let n = rng.range(2, 3) as usize;
            nodes(&mut plan, rng, n, 2);
            plan.knobs = if rng.chance(0.6) { Knobs::lossless(rng) } else { Knobs::swarm(rng) };
            mesh(&mut plan, rng, true);
            let t1 = *rng.pick(&[100u64, 1000, 4000]);
            let c = rng.range(5, 40) as usize;
            traffic(&mut plan, rng, 2, t1, c, &MIX);
            let x = rng.below(n as u64) as usize;
            let at = rng.range(1, t1);
            plan.push(at, Op::Shutdown { n: x });
            let y = (x + 1) % n;
            for _ in 0..rng.below(6) {
                plan.push(
                    at + rng.below(3000),
                    Op::Query { from: x, fk: 0, to: y, tk: 0, len: 24, ans: 30, mode: 0, delay: 0, timeout: *rng.pick(&[300, 1500]), cancel: 0 },
                );
            }
            // others keep talking to it; sometimes as a flood around the moment of shutdown
            let flood = rng.chance(0.3);
            let k = if flood { rng.range(100, 600) } else { rng.range(1, 10) };
            for _ in 0..if flood { 1 } else { 3 } {
                plan.push((at + rng.below(40)).saturating_sub(20).max(2), Op::Burst { from: y, fk: 0, to: x, tk: 0, len: 30, count: k as usize, gap_us: *rng.pick(&[0, 20, 1000]) });
            }
            plan.push(at + 1200, Op::Msg { from: y, fk: 0, to: x, tk: 0, len: 30 });
            plan.settle = 3000;
        }
        _ => unreachable!(),
    }
    if p != "A05" {
        fit_history(&mut plan);
    }
    plan
}

/// Packets which are overtaken by more than the window of the packets history are dropped by design (A05 decides
/// where the window ends), so where everything has to arrive no node with a history gets that many packets from a peer
pub fn fit_history(plan: &mut Plan) {
    const WINDOW: usize = 230;
    let n = plan.nodes.len();
    let packets = |len: usize| 2 + len / 900;
    let mut to_node = vec![HashMap::<usize, usize>::new(); n];
    for s in &plan.steps {
        let mut add = |from: usize, to: usize, k: usize| {
            if to < n {
                *to_node[to].entry(from).or_default() += k;
            }
        };
        match &s.op {
            Op::Msg { from, to, len, .. } => add(*from, *to, packets(*len)),
            Op::Burst { from, to, len, count, .. } => add(*from, *to, count * packets(*len)),
            Op::Isolated { from, to, len, query, .. } => {
                add(*from, *to, packets(*len));
                if *query {
                    add(*to, *from, packets(*len));
                }
            }
            Op::Query { from, to, len, ans, .. } => {
                add(*from, *to, packets(*len));
                add(*to, *from, packets(*ans));
            }
            Op::CodecParts { v, parts, .. } => add(usize::MAX, *v, parts + 2),
            _ => {}
        }
    }
    for (spec, from) in plan.nodes.iter_mut().zip(to_node) {
        if from.values().any(|k| *k > WINDOW) {
            spec.history = false;
        }
    }
}

fn gen_a05(plan: &mut Plan, rng: &mut SimRng, deep: u64) {
    let n = 2;
    nodes(plan, rng, n, 1);
    for s in &mut plan.nodes {
        s.history = true;
    }
    if rng.chance(0.2) {
        // packets of channels which ended with a reset or a restart come again
        plan.knobs = Knobs::lossless(rng);
        plan.knobs.reorder_max_us = plan.knobs.reorder_max_us.min(30_000);
        plan.set("capture", 1);
        for s in &mut plan.nodes {
            s.chan_reset = *rng.pick(&[1u32, 2, 5]);
        }
        mesh(plan, rng, true);
        let mut t = 5;
        for _ in 0..rng.range(2, 5) {
            for _ in 0..rng.range(2, 12) {
                let a = rng.below(2) as usize;
                t += rng.range(20, 200);
                match rng.below(3) {
                    0 => plan.push(t, Op::Burst { from: a, fk: 0, to: 1 - a, tk: 0, len: 30, count: rng.range(1, 12) as usize, gap_us: 1000 }),
                    _ => plan.push(t, Op::Query { from: a, fk: 0, to: 1 - a, tk: 0, len: 30, ans: 24, mode: 0, delay: 0, timeout: 900, cancel: 0 }),
                }
            }
            t += 500;
            for _ in 0..rng.range(0, 4) {
                plan.push(t + rng.below(100), Op::ReplayChannel { i: rng.next() % 100_000 });
            }
            let a = rng.below(2) as usize;
            if rng.chance(0.3) {
                plan.push(t, Op::Crash { n: a });
                t += rng.range(1000, 4000);
                plan.push(t, Op::Restart { n: a });
            } else {
                plan.push(t, Op::Partition { mask: 1 });
                let both = rng.chance(0.3);
                for i in 0..rng.range(3, 9) {
                    t += 1000;
                    let from = if both && i % 2 == 0 { 1 - a } else { a };
                    plan.push(t, Op::Query { from, fk: 0, to: 1 - from, tk: 0, len: 30, ans: 24, mode: 0, delay: 0, timeout: 900, cancel: 0 });
                }
                t += 1000;
                plan.push(t, Op::Heal);
            }
            t += rng.range(10, 300);
        }
        for i in 0..rng.range(2, 10) {
            let a = (i % 2) as usize;
            t += rng.range(20, 700);
            plan.push(t, Op::Query { from: a, fk: 0, to: 1 - a, tk: 0, len: 30, ans: 24, mode: 0, delay: 0, timeout: 900, cancel: 0 });
        }
        for _ in 0..rng.range(10, 60) {
            t += rng.below(30);
            plan.push(t, Op::ReplayChannel { i: rng.next() % 100_000 });
        }
        plan.steps.sort_by_key(|s| s.at);
        return;
    }
    if rng.chance(0.4) {
        // real nodes, duplicated and late datagrams
        plan.knobs = Knobs::lossless(rng);
        plan.knobs.reorder_max_us = plan.knobs.reorder_max_us.min(30_000);
        plan.knobs.add_dups(rng);
        plan.set("capture", 1);
        plan.set("reliable", 1);
        mesh(plan, rng, true);
        let t1 = 6000;
        for i in 0..rng.range(5, 60 * deep) {
            let a = rng.below(2) as usize;
            plan.push(5 + i * 90, Op::Burst { from: a, fk: 0, to: 1 - a, tk: 0, len: 30, count: rng.range(1, 40) as usize, gap_us: *rng.pick(&[1000, 2000]) });
        }
        for _ in 0..rng.range(5, 60) {
            plan.push(rng.range(100, t1), Op::ReplayWire { i: rng.next() % 100_000, to: None, flip: 0, from_atk: rng.chance(0.3) });
        }
        if rng.chance(0.3) {
            // a gap in the middle
            plan.push(2000, Op::Heal);
        }
        plan.steps.sort_by_key(|s| s.at);
        return;
    }
    // arbitrary packet numbers from a host under harness control
    plan.knobs = Knobs { lat_min_us: 50, lat_max_us: 100, ..Default::default() };
    plan.knobs.policy = 0;
    plan.set("a05_codec", 1);
    mesh(plan, rng, true);
    plan.push(5, Op::CodecHello { v: 0 });
    let mut t = 1000u64;
    let prio = rng.chance(0.5);
    let chan = rng.chance(0.8) || prio;
    let mut base: u64 = if rng.chance(0.3) { 300 } else { 20 };
    if rng.chance(0.2) {
        base = *rng.pick(&[u32::MAX as u64 - 100, 1 << 40, (1 << 63) - 300]);
    }
    let mut sent: Vec<u64> = Vec::new();
    let total = rng.range(60, 500 * deep);
    while (sent.len() as u64) < total {
        // a stretch of consecutive numbers, shuffled within a small window
        let len = rng.range(1, 90);
        let w = *rng.pick(&[1u64, 1, 4, 12, 30]);
        let mut run: Vec<u64> = (base..base.saturating_add(len)).collect();
        let mut i = 0;
        while i < run.len() {
            let e = (i + w as usize).min(run.len());
            rng.shuffle(&mut run[i..e]);
            i = e;
        }
        for q in run {
            if q == 0 || q >= u64::MAX - 1 {
                continue;
            }
            plan.push(t, Op::CodecMsg { v: 0, seqno: q, prio, chan, dup: false });
            t += 1;
            sent.push(q);
            if rng.chance(0.12) {
                let from = sent.len().saturating_sub(1 + rng.below(700) as usize);
                let d = *rng.pick(&sent[from..]);
                plan.push(t, Op::CodecMsg { v: 0, seqno: d, prio, chan, dup: true });
                t += 1;
            }
            if rng.chance(0.05) {
                plan.push(t, Op::CodecMsg { v: 0, seqno: q, prio, chan, dup: true });
                t += 1;
            }
        }
        base = base.saturating_add(len);
        // jump
        if rng.chance(0.5) {
            let j = match rng.below(8) {
                0 => rng.below(64),
                1 => rng.below(256),
                2 => 256 - (base & 255),
                3 => 511 - (base & 255),
                4 => rng.below(1024),
                5 => 256 * (1 + rng.below(4)),
                6 => 1 << rng.range(8, 40),
                _ => {
                    if rng.chance(0.2) {
                        (u64::MAX - base).saturating_sub(rng.range(2, 900))
                    } else {
                        rng.below(20_000)
                    }
                }
            };
            base = base.saturating_add(j);
        }
        if base > u64::MAX - 200 {
            break;
        }
    }
    plan.settle = 300;
}

fn gen_a06(plan: &mut Plan, rng: &mut SimRng) {
    let n = rng.range(2, 3) as usize;
    nodes(plan, rng, n, 2);
    neighbours(plan, rng);
    plan.knobs = Knobs::swarm(rng);
    if rng.chance(0.5) {
        plan.knobs.loss = *rng.pick(&[0.1, 0.3, 0.5]);
    }
    mesh(plan, rng, true);
    let t1 = *rng.pick(&[1500u64, 6000, 40_000, 90_000]);
    let c = rng.range(10, 60) as usize;
    traffic(plan, rng, 2, t1, c, &Mix { big: false, ..MIX });
    // steady queries keep the reset logic busy
    if t1 > 30_000 {
        for i in 0..t1 / 1000 {
            let a = rng.below(n as u64) as usize;
            let b = (a + 1 + rng.below(n as u64 - 1) as usize) % n;
            plan.push(i * 1000 + rng.below(900) + 1, Op::Query { from: a, fk: rng.below(2) as usize, to: b, tk: rng.below(2) as usize, len: 24, ans: 24, mode: 0, delay: 0, timeout: 700, cancel: 0 });
        }
    }
    for _ in 0..rng.range(1, 8) {
        let at = rng.range(2, t1);
        let a = rng.below(n as u64) as usize;
        let b = (a + 1 + rng.below(n as u64 - 1) as usize) % n;
        match rng.below(9) {
            0 | 1 => {
                plan.push(at, Op::Crash { n: a });
                plan.push(at + rng.range(1, 4000), Op::Restart { n: a });
            }
            2 => {
                plan.push(at, Op::Crash { n: a });
                plan.push(at + rng.range(0, 50), Op::Crash { n: b });
                plan.push(at + rng.range(51, 3000), Op::Restart { n: a });
                plan.push(at + rng.range(51, 3000), Op::Restart { n: b });
            }
            3 => {
                plan.push(at, Op::Partition { mask: 1 << a });
                let most = if rng.chance(0.5) { 3000 } else { 60_000 };
                plan.push(at + rng.range(20, most), Op::Heal);
            }
            4 => {
                plan.push(at, Op::Hold { a, b });
                plan.push(at + rng.range(20, 40_000), Op::Release);
            }
            5 => plan.push(at, Op::DropNext { a, b, k: rng.range(1, 4) as u32 }),
            6 => plan.push(at, Op::Pause { n: a, ms: rng.range(100, 5000) }),
            7 => {
                plan.push(at, Op::LinkLoss { a, b, pct: *rng.pick(&[80, 100]) });
                plan.push(at + rng.range(500, 45_000), Op::Heal);
            }
            _ => {
                // queries nobody answers on a dead link: both sides may reset their peer
                plan.push(at, Op::LinkLoss { a: b, b: a, pct: 100 });
                let (k, tk) = (rng.below(2) as usize, rng.below(2) as usize);
                let last = rng.range(20, 80);
                for i in 0..last {
                    let (from, to) = if rng.chance(0.8) { (a, b) } else { (b, a) };
                    plan.push(at + i * 1000, Op::Query { from, fk: k, to, tk, len: 40, ans: 20, mode: 0, delay: 0, timeout: 900, cancel: 0 });
                }
                plan.push(at + last * 1000 + rng.below(2000), Op::Heal);
            }
        }
    }
    plan.set("recover_s", 180);
    if rng.chance(0.4) {
        let most = *rng.pick(&[3u32, 10, 60, 120]);
        for x in &mut plan.nodes {
            x.chan_reset = if rng.chance(0.7) { most } else { 30 };
            x.sig_required = rng.chance(0.7);
        }
        plan.set("recover_s", 180.max(90 + 3 * most as i64));
    }
    if rng.chance(0.4) {
        plan.set("one_sided", 1 + rng.below(2) as i64);
    }
    plan.settle = *rng.pick(&[0u64, 1000, 10_000]);
}

fn gen_a07(plan: &mut Plan, rng: &mut SimRng) {
    let n = 2;
    nodes(plan, rng, n, 2);
    plan.set("capture", 1);
    if rng.chance(0.3) {
        // a genuine peer's packets with odd dates
        plan.knobs = Knobs::lossless(rng);
        let tol = *rng.pick(&[60u32, 60, 10, 3]);
        for s in &mut plan.nodes {
            s.clock_tolerance = tol;
        }
        mesh(plan, rng, true);
        let c = rng.range(2, 8) as usize;
        traffic(plan, rng, 5, 3000, c, &MIX);
        for i in 0..rng.range(3, 14) {
            let kind = rng.below(8) as u8;
            let d = match kind {
                4..=6 => *rng.pick(&[0i64, 0, 1, 5, 1000]),
                _ => match rng.below(4) {
                    0 => rng.below(tol as u64 - 1) as i64,
                    1 => tol as i64 - 2,
                    2 => tol as i64 + 2,
                    _ => tol as i64 + 2 + rng.below(100_000) as i64,
                },
            };
            plan.push(100 + i * rng.range(1, 400), Op::CodecDated { v: rng.below(2) as usize, kind, d });
        }
        plan.settle = 1000;
        return;
    }
    match rng.below(4) {
        // replays of recorded handshakes after restarts
        0 | 1 => {
            plan.knobs = Knobs::lossless(rng);
            mesh(plan, rng, true);
            let c = rng.range(6, 20) as usize;
            traffic(plan, rng, 5, 900, c, &Mix { queries: 0.4, bursts: 0.0, big: false, timeout: 2000, modes: false, cancel: false });
            let mut t = 1500;
            for _ in 0..rng.range(1, 3) {
                let x = rng.below(2) as usize;
                plan.push(t, Op::Crash { n: x });
                plan.push(t + 10, Op::Restart { n: x });
                t += 3000;
                let c = rng.range(4, 12) as usize;
                traffic(plan, rng, t, t + 800, c, &Mix { queries: 0.4, bursts: 0.0, big: false, timeout: 2000, modes: false, cancel: false });
                t += 1000;
                for _ in 0..rng.range(5, 30) {
                    plan.push(t + rng.below(400), Op::ReplayWire { i: rng.next() % 100_000, to: None, flip: 0, from_atk: rng.chance(0.5) });
                }
                t += 600;
            }
            if rng.chance(0.3) {
                // much later: the address lists in recorded packets have expired
                plan.push(t, Op::Idle { ms: 1_200_000 });
                for j in 0..rng.range(3, 20) {
                    plan.push(t + 1_200_000 + j, Op::ReplayWire { i: rng.next() % 100_000, to: None, flip: 0, from_atk: true });
                }
            }
        }
        // clocks apart by less than the tolerance: everything works
        2 => {
            plan.knobs = Knobs::lossless(rng);
            plan.set("reliable", 1);
            plan.set("static_skew", 1);
            let tol = *rng.pick(&[60u32, 60, 10, 120]);
            for s in &mut plan.nodes {
                s.clock_tolerance = tol;
            }
            let d = rng.range(0, (tol as u64 - 2) * 1000) as i64;
            let d = if rng.chance(0.3) { (tol as i64 - 2) * 1000 } else { d };
            plan.nodes[0].skew_ms = if rng.chance(0.5) { d } else { -d };
            mesh(plan, rng, true);
            let c = rng.range(6, 30) as usize;
            traffic(plan, rng, 5, 4000, c, &RELIABLE_MIX);
        }
        // further apart: packets from the future are refused
        _ => {
            plan.knobs = Knobs::lossless(rng);
            plan.set("static_skew", 1);
            let tol = *rng.pick(&[60u32, 10, 5]);
            for s in &mut plan.nodes {
                s.clock_tolerance = tol;
            }
            let d = (tol as i64 + 3 + rng.below(300) as i64) * 1000;
            plan.nodes[0].skew_ms = if rng.chance(0.5) { d } else { -d };
            mesh(plan, rng, true);
            let c = rng.range(6, 30) as usize;
            traffic(plan, rng, 5, 3000, c, &MIX);
            plan.set("expect_refusal", 1);
        }
    }
    plan.settle = 1000;
}
