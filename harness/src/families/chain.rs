//! A12: messages and queries are offered to subscribers in turn, and slow or failing ones hold nobody else up
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

use everscale_network::adnl::{self, NodeIdShort};
use everscale_network::rldp;
use everscale_network::{MessageSubscriber, QueryConsumingResult, QuerySubscriber, SubscriberContext};
use simcore::{now_ms, rng, trace, SimRng};
use tokio::time::sleep;

use super::cluster::{cl, sleep_until_ms, Family};
use super::codecpeer::CPeer;
use crate::codec::msg;
use crate::plan::{Knobs, NodeSpec, Op, Plan};
use crate::rec::{count, nontrivial, note, viol};

const C_MSG: u32 = 0x5151_0001;
const C_QUERY: u32 = 0x5151_0002;
const C_ANSWER: u32 = 0x5151_0003;

/// the three chains of a node
const MSG: u8 = 0;
const QRY: u8 = 1;
const RLDP: u8 = 2;
const NAMES: [&str; 3] = ["message", "ADNL query", "RLDP query"];

struct Item {
    kind: u8,
    from: usize,
    to: usize,
    from_id: NodeIdShort,
    to_id: NodeIdShort,
    data: Vec<u8>,
    t: u64,
    /// the subscriber that takes it (`chain length`: nobody)
    taker: usize,
    /// what the taker does: 0 at once, 1 slowly, 2 fails, 3 takes it without an answer
    how: u8,
    slow: u64,
    /// how long each subscriber thinks before it declines
    think: Vec<u64>,
    timeout: u64,
    /// what comes before it in the same packet
    wait: u64,
    /// the host's query
    qid: Option<[u8; 32]>,
    next: usize,
    taken: bool,
    failed: bool,
    ended: bool,
}

struct CSt {
    plan: Rc<Plan>,
    seed: u64,
    next: Cell<u64>,
    pending: Cell<usize>,
    items: RefCell<BTreeMap<u64, Item>>,
    stacks: RefCell<BTreeMap<usize, Arc<rldp::Node>>>,
    host: Rc<CPeer>,
    /// when the last bundle has been worked off
    bundled: Cell<u64>,
}

thread_local! {
    static ST: RefCell<Option<Rc<CSt>>> = const { RefCell::new(None) };
}

fn st() -> Rc<CSt> {
    ST.with(|s| s.borrow().clone().expect("no chain state"))
}

pub fn clear() {
    let s = ST.with(|s| s.borrow_mut().take());
    drop(s);
}

fn len_of(p: &Plan, n: usize, kind: u8) -> usize {
    1 + (p.get("chains") >> (6 * n + 2 * kind as usize) & 3) as usize
}

fn body(seed: u64, uid: u64, ctor: u32, idx: u32, len: usize) -> Vec<u8> {
    let mut v = ctor.to_le_bytes().to_vec();
    v.extend_from_slice(&uid.to_le_bytes());
    v.extend_from_slice(&idx.to_le_bytes());
    let at = v.len();
    v.resize(len.max(at) / 4 * 4 + 4, 0);
    SimRng::new(rng::mix(seed, uid), ctor as u64 ^ ((idx as u64) << 40)).fill(&mut v[at..]);
    v
}

enum Verdict {
    Decline,
    Take(Option<Vec<u8>>),
    Fail,
}

impl CSt {
    fn net_ms(&self) -> u64 {
        let k = &self.plan.knobs;
        2_000 + 12 * (k.lat_max_us + k.reorder_max_us) / 1000
    }

    /// Subscriber `idx` of the chain `kind` at node `n` is offered something
    fn offered(&self, kind: u8, n: usize, idx: usize, ctx: &SubscriberContext<'_>, ctor: u32, data: &[u8]) -> Option<(u64, u64)> {
        let want = if kind == MSG { C_MSG } else { C_QUERY };
        if ctor != want {
            // other layers' messages pass by
            return None;
        }
        let uid = (data.len() >= 12).then(|| u64::from_le_bytes(data[4..12].try_into().unwrap()));
        let mut items = self.items.borrow_mut();
        let Some((uid, i)) = uid.and_then(|u| items.get_mut(&u).map(|i| (u, i))) else {
            viol(&["A12"], "unknown-payload", format!("subscriber {idx} of node {n} was offered {} bytes nobody sent", data.len()));
            return None;
        };
        trace(61, uid, (n * 8 + idx) as u64);
        note(|| format!("subscriber {idx} of node {n} is offered {} {uid}", NAMES[kind as usize]));
        count("offers", 1);
        nontrivial();
        let what = format!("{} {uid} from node {} to node {}", NAMES[i.kind as usize], i.from, i.to);
        if i.kind != kind || i.to != n {
            viol(&["A12"], "wrong-chain", format!("{what} was offered to a subscriber for {} at node {n}", NAMES[kind as usize]));
            return None;
        }
        if i.data != data {
            viol(&["A12"], "changed", format!("{what} of {} bytes was offered to subscriber {idx} as {} other bytes", i.data.len(), data.len()));
        }
        if *ctx.peer_id != i.from_id || *ctx.local_id != i.to_id {
            viol(&["A12"], "wrong-context", format!("{what} was offered to subscriber {idx} as coming from {} to {}", ctx.peer_id, ctx.local_id));
        }
        if i.taken {
            viol(&["A12"], "offered-after-taken", format!("{what} was offered to subscriber {idx} after subscriber {} had taken it", i.taker));
        } else if idx != i.next && !i.failed {
            viol(&["A12"], "out-of-turn", format!("{what} was offered to subscriber {idx}, it was the turn of subscriber {}", i.next));
        }
        i.next = idx + 1;
        let think = i.think.get(idx).copied().unwrap_or(0);
        if idx == i.taker {
            if i.how == 2 {
                i.failed = true;
            } else {
                i.taken = true;
            }
            let due = i.t + self.net_ms() + i.wait + i.think[..idx].iter().sum::<u64>();
            if now_ms() > due {
                viol(&["A12"], "held-up", format!("{what} reached subscriber {idx} {} ms after it was sent on a network that loses nothing", now_ms() - i.t));
            }
        }
        Some((uid, think))
    }

    /// What the subscribers of node `to` will do with the next item: (taker, think, how, slow)
    fn lot(&self, to: usize, kind: u8, r: &mut SimRng) -> (usize, Vec<u64>, u8, u64) {
        let k = len_of(&self.plan, to, kind);
        let taker = if r.chance(0.12) { k } else { r.below(k as u64) as usize };
        let think = (0..k).map(|_| if r.chance(0.3) { *r.pick(&[1u64, 20, 400, 3000]) } else { 0 }).collect();
        (taker, think, *r.pick(&[0u8, 0, 0, 1, 1, 2, 3]), *r.pick(&[5u64, 200, 2_000, 30_000, 100_000]))
    }

    /// The host sends several messages and queries in one packet
    async fn bundle(self: &Rc<Self>, to: usize, chan: bool, arg: u64) {
        let c = cl();
        let mut r = SimRng::new(arg, 13);
        let v = (to, 0);
        let h = self.host.clone();
        let mut msgs = Vec::new();
        let mut wait = 0;
        let many = r.range(2, 6);
        count("bundles", 1);
        for _ in 0..many {
            let kind = if r.chance(0.5) { MSG } else { QRY };
            let uid = self.next.get();
            self.next.set(uid + 1);
            let data = body(self.seed, uid, if kind == MSG { C_MSG } else { C_QUERY }, 0, r.range(16, 120) as usize);
            let (taker, think, how, slow) = self.lot(to, kind, &mut r);
            let k = think.len();
            let mut qid = [0u8; 32];
            r.fill(&mut qid);
            msgs.push(if kind == MSG { msg::custom(&data) } else { msg::query(&qid, &data) });
            if r.chance(0.1) {
                msgs.push(msg::nop());
            }
            note(|| format!("{} {uid} from the host to node {to} in one packet with others: taker {taker} of {k}, how {how}, slow {slow}, think {think:?}", NAMES[kind as usize]));
            let own = think[..taker.min(k)].iter().sum::<u64>() + if how == 1 && taker < k { slow } else { 0 };
            self.items.borrow_mut().insert(
                uid,
                Item {
                    kind,
                    from: 99,
                    to,
                    from_id: h.id.short,
                    to_id: c.id(to, 0).short,
                    data,
                    t: now_ms(),
                    taker,
                    how,
                    slow,
                    think,
                    timeout: 0,
                    wait,
                    qid: (kind == QRY).then_some(qid),
                    next: 0,
                    taken: false,
                    failed: false,
                    ended: false,
                },
            );
            wait += own;
        }
        self.bundled.set(self.bundled.get().max(now_ms() + wait));
        if chan {
            let prio = r.chance(0.5);
            let p = h.ch(v, prio, msgs).ser();
            h.send_ch_plain(v, prio, &p, 500);
        } else {
            h.send_hs(v, msgs);
        }
    }

    /// The answers to the host's queries
    fn check_host(&self) {
        self.host.drain();
        let answers = self.host.answers.borrow();
        for (uid, i) in self.items.borrow().iter() {
            let Some(q) = i.qid else { continue };
            nontrivial();
            let answers_due = i.taker < i.think.len() && matches!(i.how, 0 | 1);
            match answers.get(&q) {
                Some(a) if !answers_due => viol(&["A12"], "answered-by-nobody", format!("ADNL query {uid} of the host got an answer of {} bytes, no subscriber gave one", a.len())),
                Some(a) => {
                    count("answers", 1);
                    if *a != body(self.seed, *uid, C_ANSWER, i.taker as u32, 20 + (*uid as usize * 37) % 500) {
                        viol(&["A12"], "wrong-answer", format!("ADNL query {uid} of the host got {} bytes that are not the answer of subscriber {}", a.len(), i.taker));
                    }
                }
                None if answers_due => viol(&["A12"], "unanswered", format!("ADNL query {uid} of the host, sent in one packet with others, was not answered")),
                None => {}
            }
        }
    }

    fn send(self: &Rc<Self>, kind: u8, from: usize, to: usize, len: usize, r: &mut SimRng) {
        let c = cl();
        let Some(node) = c.adnl(from) else { return };
        let uid = self.next.get();
        self.next.set(uid + 1);
        let data = body(self.seed, uid, if kind == MSG { C_MSG } else { C_QUERY }, 0, len);
        let (taker, think, how, slow) = self.lot(to, kind, r);
        let k = think.len();
        let timeout = *r.pick(&[1_500u64, 5_000, 12_000]);
        let (me, you) = (c.id(from, 0).short, c.id(to, 0).short);
        note(|| format!("{} {uid} from node {from} to node {to}: {len} bytes, taker {taker} of {k}, how {how}, slow {slow}, think {think:?}", NAMES[kind as usize]));
        self.items.borrow_mut().insert(
            uid,
            Item { kind, from, to, from_id: me, to_id: you, data: data.clone(), t: now_ms(), taker, how, slow, think: think.clone(), timeout, wait: 0, qid: None, next: 0, taken: false, failed: false, ended: false },
        );
        count(["messages", "queries", "rldp_queries"][kind as usize], 1);
        if kind == MSG {
            if let Err(e) = c.on(from, || node.send_custom_message(&me, &you, &data)) {
                viol(&["A12"], "send-failed", format!("message {uid} could not be sent: {e:#}"));
                self.items.borrow_mut().remove(&uid);
            }
            return;
        }
        let rl = self.stacks.borrow().get(&from).cloned();
        let s = self.clone();
        self.pending.set(self.pending.get() + 1);
        c.spawn_on(from, async move {
            let t0 = now_ms();
            let res = if kind == RLDP {
                match rl {
                    Some(rl) => rl.query(&me, &you, data, None).await.map(|x| x.0),
                    None => Ok(None),
                }
            } else {
                node.query_raw(&me, &you, data.into(), Some(timeout)).await
            };
            s.pending.set(s.pending.get() - 1);
            let el = now_ms() - t0;
            let mut items = s.items.borrow_mut();
            let Some(i) = items.get_mut(&uid) else { return };
            i.ended = true;
            nontrivial();
            let what = format!("{} {uid} from node {from} to node {to}", NAMES[kind as usize]);
            let answers = taker < k && matches!(how, 0 | 1);
            let wait = think[..taker.min(k)].iter().sum::<u64>() + if how == 1 { slow } else { 0 };
            match res {
                Ok(Some(a)) => {
                    count("answers", 1);
                    let want = body(s.seed, uid, C_ANSWER, taker as u32, 20 + (uid as usize * 37) % 1500);
                    if !answers {
                        viol(&["A12"], "answered-by-nobody", format!("{what} got an answer of {} bytes, no subscriber gave one", a.len()));
                    } else if a != want {
                        viol(&["A12"], "wrong-answer", format!("{what} got {} bytes that are not the answer of subscriber {taker}", a.len()));
                    }
                }
                Ok(None) => {
                    let prompt = if kind == RLDP { wait <= 50 } else { timeout > wait + s.net_ms() };
                    if answers && prompt {
                        viol(&["A12"], "unanswered", format!("{what} got no answer after {el} ms although subscriber {taker} gave one after {wait} ms"));
                    }
                }
                Err(e) => viol(&["A12"], "query-error", format!("{what} failed: {e:#}")),
            }
        });
    }
}

async fn decide(kind: u8, n: usize, idx: usize, ctx: &SubscriberContext<'_>, ctor: u32, data: &[u8]) -> Verdict {
    let Some((uid, think)) = st().offered(kind, n, idx, ctx, ctor, data) else {
        return Verdict::Decline;
    };
    let (mine, how, slow) = {
        let s = st();
        let items = s.items.borrow();
        let i = &items[&uid];
        (i.taker == idx, i.how, i.slow)
    };
    if !mine {
        if think > 0 {
            sleep(Duration::from_millis(think)).await;
        }
        return Verdict::Decline;
    }
    match how {
        1 => {
            count("slow_handlers", 1);
            sleep(Duration::from_millis(slow)).await;
        }
        2 => {
            count("failing_handlers", 1);
            return Verdict::Fail;
        }
        3 => return Verdict::Take(None),
        _ => {}
    }
    let most = if st().items.borrow()[&uid].from == 99 { 500 } else { 1500 };
    Verdict::Take(Some(body(st().seed, uid, C_ANSWER, idx as u32, 20 + (uid as usize * 37) % most)))
}

struct Link {
    n: usize,
    kind: u8,
    idx: usize,
}

#[async_trait::async_trait]
impl MessageSubscriber for Link {
    async fn try_consume_custom<'a>(&self, ctx: SubscriberContext<'a>, constructor: u32, data: &'a [u8]) -> anyhow::Result<bool> {
        match decide(self.kind, self.n, self.idx, &ctx, constructor, data).await {
            Verdict::Decline => Ok(false),
            Verdict::Take(_) => Ok(true),
            Verdict::Fail => anyhow::bail!("subscriber failed"),
        }
    }
}

#[async_trait::async_trait]
impl QuerySubscriber for Link {
    async fn try_consume_query<'a>(&self, ctx: SubscriberContext<'a>, constructor: u32, query: Cow<'a, [u8]>) -> anyhow::Result<QueryConsumingResult<'a>> {
        match decide(self.kind, self.n, self.idx, &ctx, constructor, &query).await {
            Verdict::Decline => Ok(QueryConsumingResult::Rejected(query)),
            Verdict::Take(a) => Ok(QueryConsumingResult::Consumed(a)),
            Verdict::Fail => anyhow::bail!("subscriber failed"),
        }
    }
}

struct Fam;
impl Family for Fam {
    fn attach(&self, n: usize, node: &Arc<adnl::Node>) {
        let s = st();
        let p = &s.plan;
        let rl_at = (p.get("rldp_at") >> (4 * n) & 7) as usize;
        let rldp = || {
            let subs = (0..len_of(p, n, RLDP)).map(|idx| Arc::new(Link { n, kind: RLDP, idx }) as Arc<dyn QuerySubscriber>).collect();
            let o = rldp::NodeOptions { max_peer_queries: 1000, ..Default::default() };
            s.stacks.borrow_mut().insert(n, rldp::Node::new(node.clone(), subs, o).unwrap());
        };
        let k = len_of(p, n, MSG);
        for idx in 0..k {
            if idx == rl_at {
                rldp();
            }
            node.add_message_subscriber(Arc::new(Link { n, kind: MSG, idx })).unwrap();
        }
        if rl_at >= k {
            rldp();
        }
        for idx in 0..len_of(p, n, QRY) {
            node.add_query_subscriber(Arc::new(Link { n, kind: QRY, idx })).unwrap();
        }
    }
}

pub async fn main(plan: Plan) {
    let plan = Rc::new(plan);
    let c = super::cluster::install(&plan);
    let s = Rc::new(CSt { plan: plan.clone(), seed: plan.seed, next: Cell::new(1), pending: Cell::new(0), items: Default::default(), stacks: Default::default(), host: CPeer::new(90_001, 77), bundled: Cell::new(0) });
    ST.with(|x| *x.borrow_mut() = Some(s.clone()));
    *c.fam.borrow_mut() = Some(Rc::new(Fam));
    c.start_all();
    let n = plan.nodes.len();
    for a in 0..n {
        for b in 0..n {
            if a != b {
                c.learn(a, 0, b, 0);
            }
        }
    }
    let with_channel: std::collections::BTreeSet<usize> = plan.steps.iter().filter_map(|x| if let Op::CBundle { to, chan: true, .. } = x.op { Some(to) } else { None }).collect();
    for to in with_channel {
        if !s.host.connect((to, 0)).await {
            viol(&["A12"], "no-channel", format!("node {to} made no channel with a host that asked for one"));
            return;
        }
    }
    for step in &plan.steps {
        if step.at > 0 {
            sleep_until_ms(step.at).await;
        }
        match &step.op {
            Op::CSend { kind, from, to, len, arg } => s.send(*kind, *from, *to, *len, &mut SimRng::new(*arg, 12)),
            Op::CBundle { to, chan, arg } => {
                let (s2, to, chan, arg) = (s.clone(), *to, *chan, *arg);
                let _ = simcore::rt::spawn_local(async move { s2.bundle(to, chan, arg).await });
            }
            op => {
                c.env_op(op).await;
            }
        }
    }
    let t0 = now_ms();
    while s.pending.get() > 0 {
        if now_ms() > t0 + 400_000 {
            viol(&["A12"], "query-never-ended", format!("{} query calls did not return", s.pending.get()));
            return;
        }
        sleep(Duration::from_millis(100)).await;
    }
    sleep(Duration::from_millis(s.net_ms() + 10_000)).await;
    while now_ms() < s.bundled.get() + s.net_ms() {
        sleep(Duration::from_millis(1000)).await;
    }
    s.check_host();
    for (uid, i) in s.items.borrow().iter() {
        let what = format!("{} {uid} of {} bytes from node {} to node {} (timeout {} ms)", NAMES[i.kind as usize], i.data.len(), i.from, i.to, i.timeout);
        let k = i.think.len();
        let reached = i.taken || i.failed || (i.taker == k && i.next >= k);
        // (a query may have been given up before its turn came)
        if !reached && (i.kind != RLDP || i.next == 0) {
            viol(&["A12"], "not-offered", format!("{what} was offered to {} of {} subscribers and subscriber {} was to take it", i.next, k, i.taker));
        }
    }
}

pub fn generate(p: &str, index: u64, s: u64, rng: &mut SimRng, thorough: bool) -> Plan {
    let mut plan = Plan::new(p, "chain", index, s);
    let n = rng.range(2, 3) as usize;
    for i in 0..n {
        plan.nodes.push(NodeSpec::random(i, rng));
    }
    plan.knobs = Knobs::lossless(rng);
    plan.knobs.stall = 0.0;
    plan.set("chains", (rng.next() & 0x3_FFFF) as i64);
    plan.set("rldp_at", (rng.next() & 0x333) as i64);
    let deep = if thorough { 3 } else { 1 };
    let t1 = *rng.pick(&[50u64, 1_000, 8_000]);
    let mut packets = 0;
    let only = if rng.chance(0.4) { Some(rng.below(3) as u8) } else { None };
    for _ in 0..rng.range(4, 40 * deep) {
        let from = rng.below(n as u64) as usize;
        let to = (from + 1 + rng.below(n as u64 - 1) as usize) % n;
        if rng.chance(0.15) {
            plan.push(rng.range(1, t1), Op::CBundle { to, chan: rng.chance(0.5), arg: rng.next() >> 12 });
            continue;
        }
        let kind = only.unwrap_or(rng.below(3) as u8);
        let len = if rng.chance(0.7) { rng.range(16, 700) } else { rng.range(900, 5_000) } as usize;
        packets += 3 + len / 300;
        plan.push(rng.range(1, t1), Op::CSend { kind, from, to, len, arg: rng.next() >> 12 });
    }
    if packets > 200 || only != Some(MSG) && only != Some(QRY) {
        // packets which are overtaken by more than the window of the packets history are dropped by design, and RLDP
        // sends many
        for s in &mut plan.nodes {
            s.history = false;
        }
    }
    plan
}
