//! RLDP scenarios: properties R01..R04
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

use everscale_network::adnl::{self, NodeIdShort};
use everscale_network::proto::rldp::{Message, MessagePart, RaptorQFecType};
use everscale_network::{rldp, NetworkBuilder, MessageSubscriber, QueryConsumingResult, QuerySubscriber, SubscriberContext};
use simcore::rt::spawn_local;
use simcore::time::{sleep, timeout, Duration};
use simcore::*;

use super::adnl::life;
use super::cluster::*;
use crate::plan::*;
use crate::rec::{count, nontrivial, note, viol};

pub const C_RQUERY: u32 = 0x5EED_0011;
pub const C_RANSWER: u32 = 0x5EED_0012;
const MTU: usize = 768;
const SLICE: usize = 2_000_000;

pub struct RQ {
    from: usize,
    to: usize,
    from_short: NodeIdShort,
    to_short: NodeIdShort,
    data: Rc<[u8]>,
    ans: usize,
    kind: u32,
    must: bool,
    too_big: bool,
    hostile: bool,
    answers: Vec<Vec<u8>>,
    handled: BTreeMap<u32, u32>,
    done: bool,
}

pub struct RSt {
    plan: Rc<Plan>,
    seed: u64,
    next: Cell<u64>,
    pub pending: Cell<usize>,
    qs: RefCell<BTreeMap<u64, RQ>>,
    stacks: RefCell<BTreeMap<usize, Arc<rldp::Node>>>,
    /// handlers running now: (server, client short id) -> count
    active: RefCell<BTreeMap<(usize, [u8; 32]), usize>>,
    calm_since: Cell<u64>,
    disturbed: Cell<bool>,
}

thread_local! {
    static ST: RefCell<Option<Rc<RSt>>> = const { RefCell::new(None) };
}
pub fn st() -> Rc<RSt> {
    ST.with(|s| s.borrow().clone().expect("no rldp state"))
}
pub fn clear() {
    let s = ST.with(|s| s.borrow_mut().take());
    if let Some(s) = s {
        let x = std::mem::take(&mut *s.stacks.borrow_mut());
        drop(x);
    }
}

/// kind: 0 random, 1 compressible, 2 random with a last byte like the compression tag,
/// 3 mixed, 4 all zero
fn filler(seed: u64, uid: u64, ctor: u32, head: &[u8], len: usize, kind: u32) -> Vec<u8> {
    let mut v = Vec::with_capacity(len.max(12 + head.len()));
    v.extend_from_slice(&ctor.to_le_bytes());
    v.extend_from_slice(&uid.to_le_bytes());
    v.extend_from_slice(head);
    let start = v.len();
    if len > start {
        v.resize(len, 0);
        let mut r = SimRng::new(rng::mix(seed, uid), ctor as u64);
        match kind {
            1 => {
                for (i, b) in v[start..].iter_mut().enumerate() {
                    *b = ((i / 37) as u8) ^ (uid as u8);
                }
            }
            3 => {
                let half = start + (len - start) / 2;
                r.fill(&mut v[start..half]);
            }
            4 => {}
            _ => r.fill(&mut v[start..]),
        }
        if kind == 2 {
            let l = v.len();
            v[l - 1] = 0x80;
        }
    }
    v
}

pub fn uid_of(data: &[u8], ctor: u32) -> Option<u64> {
    if data.len() < 12 || u32::from_le_bytes(data[..4].try_into().unwrap()) != ctor {
        return None;
    }
    Some(u64::from_le_bytes(data[4..12].try_into().unwrap()))
}

fn options(p: &Plan, n: usize) -> rldp::NodeOptions {
    rldp::NodeOptions {
        max_answer_size: p.get("max_answer").max(1000) as u32,
        max_peer_queries: p.get("max_q").max(1) as usize,
        query_min_timeout_ms: p.get("min_to") as u64,
        query_max_timeout_ms: p.get("max_to") as u64,
        query_wave_len: p.get("wave") as u32,
        query_wave_interval_ms: p.get("wave_int") as u64,
        force_compression: p.get("comp") >> n & 1 == 1,
    }
}

fn is_hostile(p: &Plan, n: usize) -> bool {
    p.get("hostile") >> n & 1 == 1
}

impl RSt {
    /// how long sending so much takes when a tenth of the packets are repeated
    fn send_ms(&self, len: usize) -> u64 {
        let p = &self.plan;
        let k = &p.knobs;
        let waves = (len / MTU + 4) as u64 * 11 / 10 / p.get("wave").max(1) as u64 + 1;
        waves * (p.get("wave_int") as u64 + k.timer_late_max_us / 1000 + 2 * k.stall_max_us / 1000 + 1)
    }

    /// generous upper bound for one query call that does not wait for others
    fn bound_ms(&self, len: usize, ans: usize) -> u64 {
        let p = &self.plan;
        let k = &p.knobs;
        let max_to = p.get("max_to") as u64;
        let packets = ((len + ans) / MTU + 4) as u64;
        let waves = packets / p.get("wave").max(1) as u64 + 1;
        // timeouts stretch by 1 % per update
        let stretch = 2 + packets / 50;
        let per_wave = p.get("wave_int") as u64 + k.timer_late_max_us / 1000 + 2 * k.stall_max_us / 1000 + 2;
        max_to * stretch * 2 + waves * per_wave * 6 + 4 * (k.lat_max_us + k.reorder_max_us) / 1000 + 2000
    }

    fn query(self: &Rc<Self>, from: usize, to: usize, len: usize, ans: usize, mode: u8, delay: u64, cancel: u64, kind: u32) {
        let c = cl();
        let Some(node) = self.stacks.borrow().get(&from).cloned() else { return };
        if !c.up(from) {
            return;
        }
        let (me, you) = (c.id(from, 0).short, c.id(to, 0).short);
        let uid = self.next.get();
        self.next.set(uid + 1);
        let mut h = Vec::new();
        for x in [ans as u32, delay as u32, mode as u32, kind] {
            h.extend_from_slice(&x.to_le_bytes());
        }
        let data: Rc<[u8]> = filler(self.seed, uid, C_RQUERY, &h, len, kind).into();
        let p = &self.plan;
        let max = p.get("max_answer") as usize;
        let margin = 300 + len / 200;
        let hostile = is_hostile(p, to);
        let comp = p.get("comp") != 0;
        let sizes_fit = len + margin <= max && ans + 300 + ans / 200 <= max;
        let must = p.is("reliable")
            && !hostile
            && c.up(to)
            && (mode == 0 || mode == 1)
            && cancel == 0
            && sizes_fit
            // the server drops a query it has not received within two maximal timeouts
            && self.send_ms(len) < p.get("max_to") as u64
            && self.send_ms(ans) < p.get("max_to") as u64
            && delay * 5 <= p.get("min_to") as u64 * 2;
        self.qs.borrow_mut().insert(
            uid,
            RQ {
                from,
                to,
                from_short: me,
                to_short: you,
                data: data.clone(),
                ans,
                kind,
                must,
                too_big: !comp && len > max,
                hostile,
                answers: vec![],
                handled: Default::default(),
                done: false,
            },
        );
        self.pending.set(self.pending.get() + 1);
        count("rldp_queries", 1);
        if len + ans > SLICE {
            count("rldp_multipart_transfers", 1);
        }
        note(|| format!("rldp query {uid} {from} -> {to} len {len} ans {ans} mode {mode} delay {delay} cancel {cancel} kind {kind} must {must}"));
        let s = self.clone();
        let queued = {
            let qs = self.qs.borrow();
            qs.values().filter(|q| q.from == from && q.to == to && !q.done).count() as u64
        };
        let total: usize = {
            let qs = self.qs.borrow();
            qs.values().filter(|q| q.from == from && q.to == to && !q.done).map(|q| q.data.len() + q.ans).sum()
        };
        let g = Guard { s: s.clone(), uid };
        let rt = if uid % 3 == 0 { Some(uid % 50) } else { None };
        c.spawn_on(from, async move {
            let g = g;
            let t0 = now_ms();
            let paused0 = cl().nodes.borrow()[from].paused_ns;
            let q = node.query(&me, &you, data.to_vec(), rt);
            let r = if cancel > 0 {
                match timeout(Duration::from_millis(cancel), q).await {
                    Ok(r) => r,
                    Err(_) => {
                        count_fault(Fault::Cancel);
                        return;
                    }
                }
            } else {
                q.await
            };
            drop(node);
            let el = now_ms() - t0;
            let paused = (cl().nodes.borrow()[from].paused_ns - paused0) / MS;
            s.on_result(g.uid, r, el, queued, total, paused);
        });
    }

    fn on_result(&self, uid: u64, r: anyhow::Result<(Option<Vec<u8>>, u64)>, el: u64, queued: u64, total: usize, paused: u64) {
        let mut qs = self.qs.borrow_mut();
        let q = qs.get_mut(&uid).unwrap();
        nontrivial();
        note(|| format!("rldp query {uid} returned {:?} after {el} ms", r.as_ref().map(|x| x.0.as_ref().map(|y| y.len()))));
        let bound = (self.bound_ms(total, 0)) * (1 + queued / self.plan.get("max_q").max(1) as u64) + paused;
        if el > bound {
            viol(&["R02"], "query-overran", format!("RLDP query {uid} from {} to {} returned after {el} ms (bound {bound} ms)", q.from, q.to));
        }
        match r {
            Ok((Some(a), _)) => {
                count("rldp_answers", 1);
                trace(21, uid, a.len() as u64);
                if q.hostile {
                    // a hostile server may answer anything to this query, but only within the size limit
                    let max = self.plan.get("max_answer") as usize;
                    if a.len() > max {
                        viol(&["R03"], "oversized-answer", format!("RLDP query {uid} returned {} bytes, the limit is {max}", a.len()));
                    }
                    if !q.answers.iter().any(|x| x == &a) {
                        viol(&["R01"], "wrong-answer", format!("RLDP query {uid} returned {} bytes the hostile peer did not send as its answer", a.len()));
                    }
                } else if !q.answers.iter().any(|x| x == &a) {
                    let first = q.answers.first().map(|x| (x.len(), x.iter().zip(&a).position(|(p, q)| p != q)));
                    viol(
                        &["R01"],
                        "wrong-answer",
                        format!("RLDP query {uid} {} -> {} ({} bytes) returned {} bytes (uid {:?}) its handler did not produce; produced {} answers, first (length, first difference) {first:?}", q.from, q.to, q.data.len(), a.len(), uid_of(&a, C_RANSWER), q.answers.len()),
                    );
                }
            }
            Ok((None, _)) => {
                count("rldp_no_answer", 1);
                if q.must {
                    viol(
                        &["R02"],
                        "unanswered",
                        format!("RLDP query {uid} {} -> {} ({} bytes, answer {} bytes) got no answer after {el} ms on a network with moderate faults; its handler ran {} time(s)", q.from, q.to, q.data.len(), q.ans, q.answers.len()),
                    );
                }
            }
            Err(e) => {
                count("rldp_errors", 1);
                note(|| format!("error {e:#}"));
                if q.must {
                    viol(
                        &["R02"],
                        "query-failed",
                        format!("RLDP query {uid} {} -> {} ({} bytes, answer {} bytes) failed: {e:#}; its handler ran {} time(s)", q.from, q.to, q.data.len(), q.ans, q.answers.len()),
                    );
                }
            }
        }
    }
}

struct Guard {
    s: Rc<RSt>,
    uid: u64,
}
impl Drop for Guard {
    fn drop(&mut self) {
        self.s.pending.set(self.s.pending.get() - 1);
        if let Ok(mut q) = self.s.qs.try_borrow_mut() {
            if let Some(q) = q.get_mut(&self.uid) {
                q.done = true;
            }
        }
    }
}

struct QSub {
    n: usize,
    life: u32,
}

#[async_trait::async_trait]
impl QuerySubscriber for QSub {
    async fn try_consume_query<'a>(&self, ctx: SubscriberContext<'a>, constructor: u32, query: Cow<'a, [u8]>) -> anyhow::Result<QueryConsumingResult<'a>> {
        let peer = *ctx.peer_id;
        let Some((uid, mode, delay)) = seen(self.n, self.life, ctx.local_id, ctx.peer_id, constructor, &query) else {
            return Ok(QueryConsumingResult::Rejected(query));
        };
        let g = Active::new(self.n, peer);
        match mode {
            2 => return Ok(QueryConsumingResult::Consumed(None)),
            3 => return Ok(QueryConsumingResult::Rejected(query)),
            4 => anyhow::bail!("handler failed"),
            1 => sleep(Duration::from_millis(delay)).await,
            _ => {}
        }
        drop(g);
        let a = answer(self.n, self.life, uid);
        Ok(QueryConsumingResult::Consumed(Some(a)))
    }
}

struct Active(usize, [u8; 32]);
impl Active {
    fn new(n: usize, peer: NodeIdShort) -> Self {
        let s = st();
        let mut a = s.active.borrow_mut();
        let e = a.entry((n, *peer.as_slice())).or_insert(0);
        *e += 1;
        let max = s.plan.get("max_q") as usize;
        if *e > max && s.plan.is("limit_check") && !s.disturbed.get() {
            viol(&["R03"], "too-many-outstanding", format!("{e} queries of one peer were being handled at node {n} at once, the limit is {max}"));
        }
        if *e == max {
            count("rldp_limit_reached", 1);
        }
        Active(n, *peer.as_slice())
    }
}
impl Drop for Active {
    fn drop(&mut self) {
        if let Some(s) = ST.with(|s| s.borrow().clone()) {
            if let Some(e) = s.active.borrow_mut().get_mut(&(self.0, self.1)) {
                *e -= 1;
            }
        }
    }
}

fn seen(n: usize, life_of: u32, local: &NodeIdShort, peer: &NodeIdShort, constructor: u32, query: &[u8]) -> Option<(u64, u32, u64)> {
    let s = st();
    let Some(uid) = uid_of(query, C_RQUERY).filter(|_| constructor == C_RQUERY) else {
        if !s.plan.is("hostile_queries") {
            viol(&["R01"], "unknown-query", format!("node {n} was handed an RLDP query nobody made ({} bytes)", query.len()));
        }
        return None;
    };
    trace(22, uid, n as u64);
    let max = s.plan.get("max_answer") as usize;
    if uid >= HUID {
        // made by a hostile host
        if query.len() > max {
            viol(&["R03"], "oversized-query-handled", format!("node {n} handled a query of {} bytes, the limit is {max}", query.len()));
        }
        return Some((uid, 2, 0));
    }
    let mut qs = s.qs.borrow_mut();
    let Some(q) = qs.get_mut(&uid) else {
        viol(&["R01"], "unknown-query", format!("node {n} was handed RLDP query {uid} nobody made"));
        return None;
    };
    if q.data[..] != query[..] {
        viol(
            &["R01"],
            "query-changed",
            format!("RLDP query {uid} arrived changed at node {n}: {} bytes sent, {} received, first difference at {:?}", q.data.len(), query.len(), q.data.iter().zip(query).position(|(a, b)| a != b)),
        );
    }
    if &q.from_short != peer || &q.to_short != local || q.to != n {
        viol(&["R01"], "wrong-parties", format!("RLDP query {uid} of node {} to node {} was reported at node {n} as from {:?} to {:?}", q.from, q.to, cl().whose(peer), cl().whose(local)));
    }
    if q.too_big {
        viol(&["R03"], "oversized-query-handled", format!("node {n} handled a query of {} bytes, the limit is {max}", query.len()));
    }
    let e = q.handled.entry(life_of).or_insert(0);
    *e += 1;
    count("rldp_handled", 1);
    nontrivial();
    if *e > 1 {
        viol(&["R03"], "handled-twice", format!("RLDP query {uid} ({} bytes) was handled {e} times by node {n}", query.len()));
    }
    let w = |i: usize| u32::from_le_bytes(query[i..i + 4].try_into().unwrap());
    Some((uid, w(20), w(16) as u64))
}

fn answer(n: usize, life_of: u32, uid: u64) -> Vec<u8> {
    let s = st();
    let mut qs = s.qs.borrow_mut();
    let Some(q) = qs.get_mut(&uid) else { return vec![] };
    let inv = q.answers.len() as u32;
    let mut h = inv.to_le_bytes().to_vec();
    h.extend_from_slice(&(n as u32 * 1000 + life_of).to_le_bytes());
    let a = filler(s.seed ^ inv as u64, uid, C_RANSWER, &h, q.ans, q.kind);
    q.answers.push(a.clone());
    a
}

// ------------------------------------------------------------------ hostile hosts

const HUID: u64 = 0xBB << 56;

/// A host with valid keys that speaks RLDP by itself
struct Hostile {
    n: usize,
    parts: RefCell<BTreeMap<[u8; 32], everscale_raptorq::Decoder>>,
}
// everything of a run happens in one thread
unsafe impl Send for Hostile {}
unsafe impl Sync for Hostile {}

fn encode_parts(data: &[u8], extra: usize) -> (RaptorQFecType, Vec<(u32, Vec<u8>)>) {
    let e = everscale_raptorq::Encoder::with_defaults(data, MTU as u16);
    let mut out = Vec::new();
    for b in e.get_block_encoders() {
        for p in b.source_packets() {
            let (id, d) = p.split();
            out.push((id.encoding_symbol_id(), d));
        }
    }
    let n = out.len() as u32;
    if extra > 0 {
        for p in e.get_block_encoders()[0].repair_packets(n, extra as u32) {
            let (id, d) = p.split();
            out.push((id.encoding_symbol_id(), d));
        }
    }
    (RaptorQFecType { total_len: data.len() as u32, packet_len: MTU as u32, packet_count: n }, out)
}

fn hostile_send(n: usize, peer: &NodeIdShort, m: MessagePart<'_>) {
    let c = cl();
    let Some(node) = c.adnl(n) else { return };
    let me = c.id(n, 0).short;
    count_fault(Fault::Hostile);
    let _ = c.on(n, || node.send_custom_message(&me, peer, &tl_proto::serialize(m)));
}

fn send_transfer(n: usize, peer: &NodeIdShort, id: &[u8; 32], data: &[u8], total: u64, extra: usize) {
    let (f, ps) = encode_parts(data, extra);
    for (seqno, d) in ps {
        hostile_send(n, peer, MessagePart::MessagePart { transfer_id: id, fec_type: f, part: 0, total_size: total, seqno, data: &d });
    }
}

/// Sends a transfer whose parts are much smaller than usual
fn send_small_parts(n: usize, peer: NodeIdShort, id: [u8; 32], data: Vec<u8>, part_len: usize, total: u64, gap: u64) {
    count("hostile_multipart_transfers", 1);
    cl().spawn_on(n, async move {
        for (i, d) in data.chunks(part_len.max(1)).enumerate() {
            let (f, ps) = encode_parts(d, 2);
            for (seqno, d) in ps {
                hostile_send(n, &peer, MessagePart::MessagePart { transfer_id: &id, fec_type: f, part: i as u32, total_size: total, seqno, data: &d });
            }
            sleep(Duration::from_millis(gap)).await;
        }
    });
}

#[async_trait::async_trait]
impl MessageSubscriber for Hostile {
    async fn try_consume_custom<'a>(&self, ctx: SubscriberContext<'a>, _c: u32, data: &'a [u8]) -> anyhow::Result<bool> {
        let Ok(m) = tl_proto::deserialize::<MessagePart>(data) else { return Ok(false) };
        let MessagePart::MessagePart { transfer_id, fec_type, part, seqno, data, .. } = m else { return Ok(true) };
        if part > 0 || fec_type.total_len == 0 || fec_type.packet_len != MTU as u32 {
            return Ok(true);
        }
        let mut ds = self.parts.borrow_mut();
        let d = ds.entry(*transfer_id).or_insert_with(|| {
            everscale_raptorq::Decoder::new(everscale_raptorq::ObjectTransmissionInformation::with_defaults(fec_type.total_len as u64, MTU as u16))
        });
        let r = d.decode(everscale_raptorq::EncodingPacket::new(everscale_raptorq::PayloadId::new(0, seqno), data.to_vec()));
        let Some(full) = r else { return Ok(true) };
        ds.remove(transfer_id);
        drop(ds);
        let me = self.n;
        let peer = *ctx.peer_id;
        hostile_send(me, &peer, MessagePart::Complete { transfer_id, part });
        let Ok(Message::Query { query_id, data: q, .. }) = tl_proto::deserialize::<Message>(&full) else { return Ok(true) };
        let Some(uid) = uid_of(q, C_RQUERY) else { return Ok(true) };
        let s = st();
        let mut qs = s.qs.borrow_mut();
        let Some(rq) = qs.get_mut(&uid) else { return Ok(true) };
        let back = transfer_id.map(|x| x ^ 0xff);
        let max = s.plan.get("max_answer") as usize;
        let mut r = SimRng::new(s.seed ^ uid, 0x605);
        let kind = r.below(11);
        count(&format!("hostile_answer_{kind}"), 1);
        let ans = |len: usize| filler(s.seed, uid, C_RANSWER, &[9; 8], len, 0);
        let wrap = |qid: &[u8; 32], d: &[u8]| tl_proto::serialize(Message::Answer { query_id: qid, data: d });
        match kind {
            // the plain truth
            0 => {
                let a = ans(rq.ans.min(max / 2));
                rq.answers.push(a.clone());
                let w = wrap(query_id, &a);
                send_transfer(me, &peer, &back, &w, w.len() as u64, 2);
            }
            // an answer to another query
            1 => {
                let w = wrap(&[7; 32], &ans(100));
                send_transfer(me, &peer, &back, &w, w.len() as u64, 2);
            }
            // larger than allowed, honestly announced
            2 => {
                let a = ans(max + 2000 + r.below(3000) as usize);
                rq.answers.push(a.clone());
                let w = wrap(query_id, &a);
                send_transfer(me, &peer, &back, &w, w.len() as u64, 2);
            }
            // larger than announced
            3 => {
                let a = ans(max + 2000);
                rq.answers.push(a.clone());
                let w = wrap(query_id, &a);
                send_transfer(me, &peer, &back, &w, (max as u64 / 2).max(100), 2);
            }
            // announced sizes that change
            4 => {
                let a = ans(rq.ans.min(max / 2).max(2000));
                let w = wrap(query_id, &a);
                let (f, ps) = encode_parts(&w, 1);
                for (i, (seqno, d)) in ps.into_iter().enumerate() {
                    let total = w.len() as u64 + i as u64 % 2;
                    hostile_send(me, &peer, MessagePart::MessagePart { transfer_id: &back, fec_type: f, part: 0, total_size: total, seqno, data: &d });
                }
            }
            // never finishes
            5 => {
                let (f, ps) = encode_parts(&ans(20_000), 0);
                for (seqno, d) in ps.into_iter().take(5) {
                    hostile_send(me, &peer, MessagePart::MessagePart { transfer_id: &back, fec_type: f, part: 0, total_size: 20_000, seqno, data: &d });
                }
            }
            // confirms and completes that make no sense
            6 => {
                for i in [0u32, 1, 2, 7, u32::MAX] {
                    hostile_send(me, &peer, MessagePart::Complete { transfer_id, part: i });
                    hostile_send(me, &peer, MessagePart::Confirm { transfer_id, part: i, seqno: u32::MAX - i });
                }
            }
            // an answer in small parts: an honest one, one larger than allowed, one longer than announced
            7..=9 => {
                let a = ans(if kind == 7 { rq.ans.min(max / 2) } else { max + 1000 + r.below(3000) as usize });
                rq.answers.push(a.clone());
                let w = wrap(query_id, &a);
                let total = if kind == 9 { max as u64 / 2 } else { w.len() as u64 };
                let part = r.range(100, max as u64 * 2 / 3) as usize;
                let (part, gap) = (part.max(w.len() / 40), *r.pick(&[20u64, 60, 150]));
                send_small_parts(me, peer, back, w, part, total, gap);
            }
            // a query instead of an answer
            _ => {
                let w = tl_proto::serialize(Message::Query { query_id, max_answer_size: 10, timeout: 5, data: &ans(60) });
                send_transfer(me, &peer, &back, &w, w.len() as u64, 1);
            }
        }
        Ok(true)
    }
}

/// Unsolicited transfers from a hostile node
fn hostile_push(s: &Rc<RSt>, n: usize, v: usize, kind: u8, arg: u64) {
    let c = cl();
    if !c.up(n) || !c.up(v) {
        return;
    }
    let peer = c.id(v, 0).short;
    let mut r = SimRng::new(s.seed ^ arg, 0x77);
    let mut id = [0u8; 32];
    r.fill(&mut id);
    let max = s.plan.get("max_answer") as usize;
    let uid = HUID | arg;
    let mk = |len: usize| {
        let h = [0u8; 16];
        tl_proto::serialize(Message::Query { query_id: &id, max_answer_size: 1000, timeout: 5, data: &filler(s.seed, uid, C_RQUERY, &h, len, 0) })
    };
    count("hostile_pushes", 1);
    match kind % 7 {
        k @ 4..=6 => {
            let w = mk(if k == 4 { 200 + r.below(max as u64 / 2) as usize } else { max + 1 + r.below(4000) as usize });
            let total = if k == 6 { max as u64 / 2 } else { w.len() as u64 };
            let part = (r.range(100, max as u64 * 2 / 3) as usize).max(w.len() / 40);
            let gap = *r.pick(&[20u64, 60, 150]);
            send_small_parts(n, peer, id, w, part, total, gap);
        }
        0 => {
            let w = mk(max + 1 + r.below(4000) as usize);
            send_transfer(n, &peer, &id, &w, w.len() as u64, 2);
        }
        1 => {
            let w = mk(max + 1000);
            send_transfer(n, &peer, &id, &w, 100 + r.below(max as u64), 2);
        }
        2 => {
            let w = mk(200 + r.below(max as u64 / 2) as usize);
            let (f, ps) = encode_parts(&w, 0);
            let k = ps.len() - 1;
            for (seqno, d) in ps.into_iter().take(k) {
                hostile_send(n, &peer, MessagePart::MessagePart { transfer_id: &id, fec_type: f, part: 0, total_size: w.len() as u64, seqno, data: &d });
            }
        }
        _ => {
            let mut junk = vec![0u8; 40 + r.below(500) as usize];
            r.fill(&mut junk);
            send_transfer(n, &peer, &id, &junk, junk.len() as u64, 1);
        }
    }
}

// ------------------------------------------------------------------ scenario

pub struct Fam;
impl Family for Fam {
    fn attach(&self, n: usize, node: &Arc<adnl::Node>) {
        let s = st();
        if is_hostile(&s.plan, n) {
            node.add_message_subscriber(Arc::new(Hostile { n, parts: Default::default() })).unwrap();
            return;
        }
        let r = rldp::Node::new(node.clone(), vec![Arc::new(QSub { n, life: life(n) })], options(&s.plan, n)).unwrap();
        s.stacks.borrow_mut().insert(n, r);
    }
    fn built(&self, n: usize) -> bool {
        let p = &st().plan;
        !is_hostile(p, n) && p.get("builder") >> n & 1 == 1
    }
    fn build(&self, n: usize, addr: std::net::SocketAddrV4, ks: adnl::Keystore, opts: adnl::NodeOptions) -> anyhow::Result<Arc<adnl::Node>> {
        let s = st();
        // (its life is not counted yet)
        let life = cl().lives(n).len() as u32;
        let (node, r) = NetworkBuilder::with_adnl(addr, ks, opts).with_rldp_ext(options(&s.plan, n), vec![Arc::new(QSub { n, life })]).build()?;
        s.stacks.borrow_mut().insert(n, r);
        count("built_stacks", 1);
        Ok(node)
    }
    fn gone(&self, n: usize) {
        let s = st();
        let x = s.stacks.borrow_mut().remove(&n);
        drop(x);
    }
}

async fn op(o: &Op) {
    let c = cl();
    let s = st();
    match o {
        Op::RQuery { from, to, len, ans, mode, delay, cancel, kind } => s.query(*from, *to, *len, *ans, *mode, *delay, *cancel, *kind as u32),
        Op::Learn { n, k, to, tk } => {
            c.learn(*n, *k, *to, *tk);
        }
        Op::Forget { n, k, to, tk } => {
            if let (true, Some(node)) = (c.up(*n), c.adnl(*n)) {
                let (me, you) = (c.id(*n, *k).short, c.id(*to, *tk).short);
                let _ = c.on(*n, || node.remove_peer(&me, &you));
                c.nodes.borrow_mut()[*n].known.retain(|x| x.1.short != you);
            }
        }
        Op::Restart { n } => {
            let n = *n;
            let c2 = c.clone();
            spawn_local(async move {
                c2.restart(n).await;
            });
        }
        Op::RPush { n, v, kind, arg } => hostile_push(&s, *n, *v, *kind, *arg),
        Op::RGc { n } => {
            if let Some(r) = s.stacks.borrow().get(n) {
                r.gc();
            }
        }
        _ => {
            c.env_op(o).await;
        }
    }
}

pub async fn main(plan: Plan) {
    let plan = Rc::new(plan);
    let c = super::cluster::install(&plan);
    let s = Rc::new(RSt {
        plan: plan.clone(),
        seed: plan.seed,
        next: Cell::new(1),
        pending: Cell::new(0),
        qs: Default::default(),
        stacks: Default::default(),
        active: Default::default(),
        calm_since: Cell::new(0),
        disturbed: Cell::new(false),
    });
    ST.with(|x| *x.borrow_mut() = Some(s.clone()));
    *c.fam.borrow_mut() = Some(Rc::new(Fam));
    c.start_all();
    for step in &plan.steps {
        if step.at > 0 {
            sleep_until_ms(step.at).await;
            note(|| format!("{:?}", step.op));
        }
        op(&step.op).await;
    }
    if !plan.is("noquiet") {
        sleep(Duration::from_millis(200)).await;
        if !plan.is("reliable") {
            calm();
        }
    }
    s.calm_since.set(now_ms());
    // every call has to end
    let t0 = now_ms();
    let (total, qn) = {
        let qs = s.qs.borrow();
        (qs.values().map(|q| q.data.len() + q.ans).sum::<usize>(), qs.len() as u64)
    };
    let max_q = plan.get("max_q").max(1) as u64;
    let limit = s.bound_ms(total, 0) * (2 + qn / max_q) + 5_000;
    while s.pending.get() > 0 {
        if now_ms() > t0 + limit {
            viol(&["R02"], "query-never-ended", format!("{} RLDP query calls did not return within {limit} ms", s.pending.get()));
            return;
        }
        sleep(Duration::from_millis(50)).await;
    }
    if !plan.is("check_drain") {
        sleep(Duration::from_millis(plan.settle)).await;
        return;
    }
    // nothing may be left once the expiry interval is over
    calm();
    let interval = 2 * plan.get("max_to") as u64;
    let k = &plan.knobs;
    let max_len = s.qs.borrow().values().map(|q| q.data.len().max(q.ans)).max().unwrap_or(0);
    let slack = 4 * (k.lat_max_us + k.reorder_max_us) / 1000 + 20 * k.stall_max_us / 1000 + 3_000;
    // an answer nobody takes is sent until its own timeout
    sleep(Duration::from_millis(2 * interval + s.bound_ms(max_len, 0) + slack)).await;
    for n in 0..c.len() {
        let Some(r) = s.stacks.borrow().get(&n).cloned() else { continue };
        if !c.up(n) {
            continue;
        }
        nontrivial();
        let m = r.metrics();
        if m.transfers_cache_len != 0 {
            viol(&["R04"], "transfers-left-behind", format!("node {n} keeps {} RLDP transfer entries long after all queries ended and every timeout passed", m.transfers_cache_len));
        }
    }
    let w0 = with(|w| w.wire.len());
    sleep(Duration::from_millis(2 * interval + 1000)).await;
    let w1 = with(|w| w.wire.len());
    if w1 > w0 {
        viol(&["R04"], "still-sending", format!("{} datagrams were sent although all RLDP transfers ended long ago", w1 - w0));
    }
    for n in 0..c.len() {
        if let Some(r) = s.stacks.borrow().get(&n) {
            r.gc();
            let m = r.metrics();
            if m.peer_count != 0 && c.up(n) {
                viol(&["R04"], "peer-slots-left-behind", format!("node {n} still counts {} peers with outstanding queries although none is outstanding", m.peer_count));
            }
        }
    }
}

pub fn info(p: &str) -> Option<&'static str> {
    Some(match p {
        "R01" => "an RLDP query or answer was compared with what was sent",
        "R02" => "an RLDP query ended and its result and time were checked",
        "R03" => "an RLDP query was handled and counted",
        "R04" => "a node's RLDP tables were inspected after the expiry interval",
        _ => return None,
    })
}

fn any_size(rng: &mut SimRng, big: f64) -> usize {
    if big > 1.0 {
        // at least three parts, or nearly
        return rng.range(3_900_000, 4_800_000) as usize;
    }
    if rng.chance(big) {
        return match rng.below(4) {
            0 => rng.range(300_000, 1_000_000) as usize,
            1 => rng.range(1_000_000, 1_990_000) as usize,
            2 => rng.range(2_000_010, 2_600_000) as usize,
            _ => *rng.pick(&[1_999_900usize, 1_999_948, 1_999_952, 1_999_956, 2_000_000, 2_000_100, 3_999_950, 4_100_000]),
        };
    }
    match rng.below(9) {
        0..=2 => rng.range(28, 300) as usize,
        3 => rng.range(300, 900) as usize,
        4 => *rng.pick(&[700usize, 708, 712, 716, 720, 724, 728, 740, 764, 768, 772, 1480, 1488, 1536, 2250, 2304]),
        5 | 6 => rng.range(900, 8_000) as usize,
        7 => rng.range(8_000, 30_000) as usize,
        _ => rng.range(30_000, 120_000) as usize,
    }
}

pub fn generate(p: &str, index: u64, seed: u64, rng: &mut SimRng, thorough: bool) -> Plan {
    let mut plan = Plan::new(p, "rldp", index, seed);
    let deep = if thorough { 2 } else { 1 };
    let n = rng.range(2, 4) as usize;
    for i in 0..n {
        let mut s = NodeSpec::random(i, rng);
        s.query_timeout = 2000;
        plan.nodes.push(s);
    }
    super::adnl::mesh(&mut plan, rng, true);
    plan.set("max_answer", *rng.pick(&[10 * 1024 * 1024i64, 10 * 1024 * 1024, 300_000, 50_000]));
    plan.set("max_q", *rng.pick(&[16i64, 16, 4, 2, 1]));
    if rng.chance(0.4) {
        plan.set("builder", (rng.next() & 0xff) as i64);
    }
    plan.set("min_to", 500);
    plan.set("max_to", *rng.pick(&[10_000i64, 10_000, 4_000]));
    let (w, i) = *rng.pick(&[(10i64, 10i64), (10, 10), (20, 10), (5, 10), (3, 5)]);
    plan.set("wave", w);
    plan.set("wave_int", i);
    if rng.chance(0.5) {
        plan.set("comp", rng.below(1 << n) as i64);
    }
    let mut big = 0.02;
    let ops;
    let t1;
    match p {
        "R01" => {
            plan.knobs = Knobs::swarm(rng);
            ops = rng.range(2, 20 * deep) as usize;
            t1 = *rng.pick(&[100u64, 1000, 5000]);
            if rng.chance(0.3) {
                plan.set("hostile", 1 << rng.below(n as u64));
            }
        }
        "R02" => {
            let k = &mut plan.knobs;
            *k = Knobs::random_sched(rng);
            (k.lat_min_us, k.lat_max_us) = *rng.pick(&[(50, 100), (200, 3_000), (1_000, 40_000)]);
            k.stall_max_us = k.stall_max_us.min(5_000);
            if rng.chance(0.8) {
                k.loss = *rng.pick(&[0.005, 0.02, 0.05, 0.1]);
            }
            if rng.chance(0.4) {
                k.add_dups(rng);
            }
            if rng.chance(0.5) {
                k.reorder = *rng.pick(&[0.02, 0.2, 0.5]);
                k.reorder_max_us = *rng.pick(&[3_000, 30_000]);
            }
            plan.set("reliable", 1);
            plan.set("max_answer", 10 * 1024 * 1024);
            ops = if rng.chance(0.15) { 1 } else { rng.range(1, 12 * deep) as usize };
            if ops == 1 {
                big = 0.5;
                if rng.chance(0.25) {
                    // a message of several parts; a few datagrams linger for seconds
                    big = 1.5;
                    plan.knobs.reorder = *rng.pick(&[0.003, 0.01, 0.02]);
                    plan.knobs.reorder_max_us = *rng.pick(&[3_500_000, 6_000_000]);
                }
            }
            t1 = *rng.pick(&[50u64, 500, 2000]);
        }
        "R03" => {
            plan.knobs = if rng.chance(0.5) { Knobs::lossless(rng) } else { Knobs::swarm(rng) };
            if rng.chance(0.6) {
                plan.knobs.add_dups(rng);
                plan.knobs.reorder = 0.3;
                plan.knobs.reorder_max_us = *rng.pick(&[30_000, 300_000, 1_500_000]);
            }
            plan.set("max_answer", *rng.pick(&[10 * 1024 * 1024i64, 100_000, 20_000, 5_000]));
            plan.set("max_q", *rng.pick(&[1i64, 2, 4, 16]));
            if rng.chance(0.4) {
                plan.set("hostile", 1 << rng.below(n as u64));
            }
            ops = rng.range(4, 40 * deep) as usize;
            t1 = *rng.pick(&[5u64, 300, 3000]);
            big = 0.005;
            if rng.chance(0.35) {
                // many at once on a good network: exactly max_q run at a time
                plan.knobs = Knobs::default();
                plan.knobs.policy = rng.below(4) as u8;
                plan.set("limit_check", 1);
                plan.set("reliable", 1);
                plan.set("hostile", 0);
                plan.set("max_answer", 10 * 1024 * 1024);
            }
        }
        _ => {
            plan.knobs = Knobs::swarm(rng);
            plan.set("check_drain", 1);
            plan.set("max_to", *rng.pick(&[10_000i64, 4_000, 2_000]));
            ops = rng.range(2, 20 * deep) as usize;
            t1 = *rng.pick(&[5u64, 500, 5000]);
            if rng.chance(0.4) {
                plan.set("hostile", 1 << rng.below(n as u64));
            }
        }
    }
    if plan.is("hostile") {
        plan.set("max_answer", *rng.pick(&[5_000i64, 20_000, 50_000]));
    }
    let reliable = plan.is("reliable");
    let hostile = plan.get("hostile");
    let max = plan.get("max_answer") as usize;
    let limit = plan.is("limit_check");
    let pair = (rng.below(n as u64) as usize, rng.below(n as u64 - 1) as usize);
    let one_pair = limit || rng.chance(0.3);
    for _ in 0..ops {
        let (f, t) = if one_pair { pair } else { (rng.below(n as u64) as usize, rng.below(n as u64 - 1) as usize) };
        let from = f;
        let to = if t >= f { t + 1 } else { t };
        if hostile >> from & 1 == 1 {
            let kind = rng.below(7) as u8;
            plan.push(rng.range(1, t1), Op::RPush { n: from, v: to, kind, arg: rng.next() % 100_000 });
            continue;
        }
        let mut len = any_size(rng, big).max(28);
        let mut ans = if big > 1.0 && rng.chance(0.5) { rng.range(28, 3000) as usize } else { any_size(rng, big).max(20) };
        if big > 1.0 && rng.chance(0.5) {
            std::mem::swap(&mut len, &mut ans);
        }
        if p == "R03" && !limit && rng.chance(0.3) && max < 1_000_000 {
            if rng.chance(0.5) {
                len = max + rng.range(1, 5000) as usize;
            } else {
                ans = max + rng.range(1, 5000) as usize;
            }
        }
        if limit {
            len = len.min(5_000);
            ans = ans.min(5_000);
        }
        let mode = if reliable {
            *rng.pick(&[0u8, 0, 1])
        } else {
            *rng.pick(&[0u8, 0, 0, 0, 1, 1, 2, 3, 4])
        };
        let mode = if limit { 1 } else { mode };
        let delay = match mode {
            1 if limit => rng.range(20, 150),
            1 if reliable => rng.below(100),
            1 => *rng.pick(&[5u64, 100, 700, 3000]),
            _ => 0,
        };
        let span = *rng.pick(&[30u64, 300, 3000]);
        let cancel = if !reliable && rng.chance(0.2) { 1 + rng.below(span) } else { 0 };
        let kind = rng.below(5) as u8;
        plan.push(rng.range(1, t1), Op::RQuery { from, to, len, ans, mode, delay, cancel, kind });
    }
    match p {
        "R02" => {
            // short outages
            let span = if ops == 1 { 4000 } else { t1 + 200 };
            for _ in 0..rng.below(3) {
                let at = rng.range(1, span);
                let (a, b) = (rng.below(n as u64), rng.below(n as u64));
                let d = rng.range(20, 250);
                plan.push(at, Op::Partition { mask: 1 << a | 1 << b });
                plan.push(at + d, Op::Heal);
            }
        }
        "R01" | "R04" => {
            if rng.chance(0.4) {
                let at = rng.range(1, t1 + 500);
                plan.push(at, Op::Partition { mask: 1 << rng.below(n as u64) });
                plan.push(at + *rng.pick(&[50u64, 500, 3000]), Op::Heal);
            }
            if rng.chance(0.4) {
                let x = rng.below(n as u64) as usize;
                let at = rng.range(1, t1 + 500);
                plan.push(at, Op::Crash { n: x });
                plan.push(at + rng.range(10, 3000), Op::Restart { n: x });
            }
            if rng.chance(0.2) {
                let x = rng.below(n as u64) as usize;
                plan.push(rng.range(1, t1 + 500), Op::Pause { n: x, ms: *rng.pick(&[50u64, 700, 3000]) });
            }
            if p == "R04" && rng.chance(0.3) {
                let (a, b) = (rng.below(n as u64) as usize, rng.below(n as u64) as usize);
                if a != b {
                    plan.push(rng.range(1, t1 + 100), Op::Forget { n: a, k: 0, to: b, tk: 0 });
                }
            }
        }
        _ => {
            if !limit && rng.chance(0.3) {
                let x = rng.below(n as u64) as usize;
                let at = rng.range(1, t1 + 500);
                plan.push(at, Op::Crash { n: x });
                plan.push(at + rng.range(10, 3000), Op::Restart { n: x });
            }
        }
    }
    if limit {
        for _ in 0..rng.below(5) {
            plan.push(rng.range(1, t1 + 200), Op::RGc { n: pair.0 });
        }
    }
    if rng.chance(0.2) {
        plan.push(rng.range(1, t1 + 100), Op::RGc { n: rng.below(n as u64) as usize });
    }
    plan.settle = if p == "R03" { 3000 } else { 500 };
    plan
}
