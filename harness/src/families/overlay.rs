//! Overlay scenarios: properties O01..O08
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::Arc;

use everscale_network::adnl::{self, NodeIdShort};
use everscale_network::overlay::{BroadcastTarget, IdShort, IncomingBroadcastInfo, Overlay, OverlayOptions};
use everscale_network::proto::overlay as po;
use everscale_network::proto::rldp::RaptorQFecType;
use everscale_network::proto::rpc;
use everscale_network::{overlay, rldp, MessageSubscriber, QueryConsumingResult, QuerySubscriber, SubscriberContext};
use sha2::Digest;
use simcore::rt::spawn_local;
use simcore::time::{sleep, timeout, Duration};
use simcore::*;
use tl_proto::{TlRead, TlWrite};

use super::adnl::life;
use super::cluster::*;
use super::dht::overlay_node_ok;
use crate::codec;
use crate::plan::*;
use crate::rec::{count, nontrivial, note, viol};

const C_OQ: u32 = 0x5EED_0031;
const C_OA: u32 = 0x5EED_0032;
/// one-way messages of the user
const C_OM: u32 = 0x5EED_0033;
const T_MESSAGE: u32 = 0x7525_2420;
const T_BCAST_ID: u32 = 0x51fd_789a;
const T_FEC_ID: u32 = 0xfb31_55a6;
const T_FEC_PART: u32 = 0xa469_62d0;
const T_TOSIGN: u32 = 0xfa37_4e7c;
const MTU: usize = 768;
/// broadcasts made by hostile hosts
const HUID: u64 = 1 << 40;

type Hash = [u8; 32];

fn sha(d: &[u8]) -> Hash {
    sha2::Sha256::digest(d).into()
}

pub fn ov_id(seed: u64, ov: usize) -> IdShort {
    let mut h = [0u8; 32];
    SimRng::new(rng::mix(seed, 0x0E11A7), ov as u64).fill(&mut h);
    IdShort::new(h)
}

// ------------------------------------------------------------------ independent codec

fn to_sign(hash: &Hash, date: u32) -> Vec<u8> {
    let mut v = T_TOSIGN.to_le_bytes().to_vec();
    v.extend_from_slice(hash);
    v.extend_from_slice(&date.to_le_bytes());
    v
}

fn plain_to_sign(data: &[u8], date: u32, src: Option<&Hash>, flags: u32) -> Vec<u8> {
    let mut h = T_BCAST_ID.to_le_bytes().to_vec();
    h.extend_from_slice(src.unwrap_or(&[0; 32]));
    h.extend_from_slice(&sha(data));
    h.extend_from_slice(&flags.to_le_bytes());
    to_sign(&sha(&h), date)
}

#[derive(Clone, Debug)]
struct FecPart {
    data_hash: Hash,
    data_size: u32,
    flags: u32,
    data: Vec<u8>,
    seqno: u32,
    fec: RaptorQFecType,
    date: u32,
}

fn part_to_sign(p: &FecPart, src: Option<&Hash>) -> Vec<u8> {
    let mut h = T_FEC_ID.to_le_bytes().to_vec();
    h.extend_from_slice(src.unwrap_or(&[0; 32]));
    h.extend_from_slice(&tl_proto::hash(p.fec));
    h.extend_from_slice(&p.data_hash);
    h.extend_from_slice(&p.data_size.to_le_bytes());
    h.extend_from_slice(&p.flags.to_le_bytes());
    let b = sha(&h);
    let mut h = T_FEC_PART.to_le_bytes().to_vec();
    h.extend_from_slice(&b);
    h.extend_from_slice(&sha(&p.data));
    h.extend_from_slice(&p.seqno.to_le_bytes());
    to_sign(&sha(&h), p.date)
}

fn sign(key: &adnl::Key, msg: &[u8]) -> Vec<u8> {
    key.secret_key().sign_raw(msg, key.full_id().public_key()).to_vec()
}

fn wrap(ov: &IdShort, b: &po::Broadcast<'_>) -> Vec<u8> {
    let mut v = T_MESSAGE.to_le_bytes().to_vec();
    v.extend_from_slice(ov.as_slice());
    b.write_to(&mut v);
    v
}

fn plain_msg(ov: &IdShort, src: &adnl::Key, data: &[u8], flags: u32, date: u32, signature: &[u8]) -> Vec<u8> {
    wrap(
        ov,
        &po::Broadcast::Broadcast(po::OverlayBroadcast {
            src: src.full_id().as_tl(),
            certificate: po::Certificate::EmptyCertificate,
            flags,
            data,
            date,
            signature,
        }),
    )
}

fn part_msg(ov: &IdShort, src: &adnl::Key, p: &FecPart, signature: &[u8]) -> Vec<u8> {
    wrap(
        ov,
        &po::Broadcast::BroadcastFec(po::OverlayBroadcastFec {
            src: src.full_id().as_tl(),
            certificate: po::Certificate::EmptyCertificate,
            data_hash: &p.data_hash,
            data_size: p.data_size,
            flags: p.flags,
            data: &p.data,
            seqno: p.seqno,
            fec: p.fec,
            date: p.date,
            signature,
        }),
    )
}

fn fec_parts(data: &[u8], extra: u32, date: u32) -> Vec<FecPart> {
    let e = everscale_raptorq::Encoder::with_defaults(data, MTU as u16);
    let mut out = Vec::new();
    for b in e.get_block_encoders() {
        for p in b.source_packets() {
            let (id, d) = p.split();
            out.push((id.encoding_symbol_id(), d));
        }
    }
    let n = out.len() as u32;
    if extra > 0 {
        for p in e.get_block_encoders()[0].repair_packets(n, extra) {
            let (id, d) = p.split();
            out.push((id.encoding_symbol_id(), d));
        }
    }
    let fec = RaptorQFecType { total_len: data.len() as u32, packet_len: MTU as u32, packet_count: n };
    let data_hash = sha(data);
    out.into_iter()
        .map(|(seqno, d)| FecPart { data_hash, data_size: data.len() as u32, flags: 1, data: d, seqno, fec, date })
        .collect()
}

/// A signed record of an identity for an overlay
pub fn record(seed: u64, ov: &IdShort, version: u32) -> po::NodeOwned {
    let key = codec::make_key(seed);
    let signature = key.sign(po::NodeToSign { id: key.id().as_slice(), overlay: ov.as_slice(), version });
    po::NodeOwned { id: key.full_id().as_tl().as_equivalent_owned(), overlay: *ov.as_slice(), version, signature: signature.to_vec().into() }
}

pub fn record_id(r: &po::Node<'_>) -> Option<NodeIdShort> {
    adnl::NodeIdFull::try_from(r.id).ok().map(|f| f.compute_short_id())
}

// ------------------------------------------------------------------ state

struct B {
    n: usize,
    life: u32,
    ov: usize,
    src: NodeIdShort,
    also: Vec<NodeIdShort>,
    /// other nodes whose users sent the same data at about the same time, and when
    twins: Vec<(usize, u32, u64)>,
    len: usize,
    fec: bool,
    t: u64,
    /// last second (sender's clock) in which a packet of it may have been dated
    date: u32,
    /// neighbours it was handed to, if chosen explicitly
    must: Vec<(usize, u32)>,
    forbidden: Option<&'static str>,
    /// by (node, life): times of delivery
    got: BTreeMap<(usize, u32), Vec<u64>>,
}

#[derive(Default)]
struct Raw {
    ov: Option<usize>,
    uid: Option<u64>,
    forged: bool,
    /// who got it first from whom
    first: BTreeMap<(usize, u32), usize>,
    /// by forwarder: receiver -> copies
    sent: BTreeMap<(usize, u32), BTreeMap<usize, u32>>,
}

struct Stack {
    adnl: Arc<adnl::Node>,
    node: Arc<overlay::Node>,
    rldp: Option<Arc<rldp::Node>>,
    ovs: BTreeMap<usize, Arc<Overlay>>,
}

pub struct OSt {
    plan: Rc<Plan>,
    seed: u64,
    stacks: RefCell<BTreeMap<usize, Rc<Stack>>>,
    bs: RefCell<BTreeMap<u64, B>>,
    payloads: RefCell<BTreeMap<Hash, u64>>,
    raws: RefCell<BTreeMap<Hash, Raw>>,
    /// everything hostile hosts have seen: (overlay, message)
    seen: RefCell<Vec<(usize, Vec<u8>)>>,
    /// neighbours configured by the user: (node, overlay) -> peers
    edges: RefCell<BTreeMap<(usize, usize), BTreeSet<usize>>>,
    ever: RefCell<BTreeMap<(usize, usize), BTreeSet<usize>>>,
    /// (node, overlay, peer) -> time of removal
    removed: RefCell<BTreeMap<(usize, usize, usize), u64>>,
    /// waiting consumers: (node, overlay) -> those never cancelled
    steady: RefCell<BTreeMap<(usize, usize), usize>>,
    reacted: RefCell<BTreeMap<(usize, Hash), u32>>,
    pending: Cell<usize>,
    next: Cell<u64>,
    qs: RefCell<BTreeMap<u64, (usize, usize, usize, Vec<u8>, u32)>>,
    /// one-way messages: from, overlay, to, data, times handed over
    ms: RefCell<BTreeMap<u64, (usize, usize, usize, Vec<u8>, u32)>>,
    hnext: Cell<u64>,
    /// valid records handed to (node, overlay): id -> newest version; true if certainly taken in
    offered: RefCell<BTreeMap<(usize, usize), BTreeMap<NodeIdShort, (u32, bool)>>>,
    /// answers of hostile host v to node n about an overlay: valid ids listed
    answered: RefCell<BTreeMap<(usize, usize, usize), Vec<Vec<NodeIdShort>>>>,
}

thread_local! {
    static ST: RefCell<Option<Rc<OSt>>> = const { RefCell::new(None) };
}
pub fn st() -> Rc<OSt> {
    ST.with(|s| s.borrow().clone().expect("no overlay state"))
}
pub fn clear() {
    let s = ST.with(|s| s.borrow_mut().take());
    if let Some(s) = s {
        let x = std::mem::take(&mut *s.stacks.borrow_mut());
        drop(x);
    }
}

/// kind: 0 random, 1 compressible, 2 zero, 3 looks like a compressed envelope's end
fn payload(seed: u64, uid: u64, len: usize, kind: u8) -> Vec<u8> {
    let mut v = uid.to_le_bytes().to_vec();
    v.resize(len, 0);
    if len > 8 {
        let mut r = SimRng::new(rng::mix(seed, uid), 0xB0);
        match kind {
            1 => {
                for (i, b) in v[8..].iter_mut().enumerate() {
                    *b = ((i / 37) as u8) ^ (uid as u8);
                }
            }
            2 => {}
            _ => r.fill(&mut v[8..]),
        }
        if kind == 3 {
            v[len - 1] = 0x80;
        }
    }
    v
}

fn hostile(p: &Plan, n: usize) -> bool {
    p.get("hostile") >> n & 1 == 1
}

impl OSt {
    fn novs(&self) -> usize {
        self.plan.get("ovs").max(1) as usize
    }
    /// Whether the node serves queries of the overlay
    fn has_sub(&self, n: usize, ov: usize) -> bool {
        self.plan.get(&format!("nosub{ov}")) >> n & 1 == 0
    }
    fn member(&self, n: usize, ov: usize) -> bool {
        self.plan.get(&format!("mem{ov}")) >> n & 1 == 1
    }
    fn private(&self, ov: usize) -> bool {
        self.plan.is(&format!("priv{ov}"))
    }
    /// key index used in an overlay
    fn k(&self, ov: usize) -> usize {
        self.private(ov) as usize
    }
    fn oid(&self, ov: usize) -> IdShort {
        ov_id(self.seed, ov)
    }
    fn which(&self, id: &[u8]) -> Option<usize> {
        (0..self.novs()).find(|o| self.oid(*o).as_slice() == id)
    }
    fn ident(&self, n: usize, ov: usize) -> Ident {
        cl().id(n, self.k(ov))
    }
    fn keyseed(&self, n: usize, ov: usize) -> u64 {
        let v = &self.plan.nodes[n].keys;
        v[self.k(ov) % v.len()]
    }
    fn get(&self, n: usize, ov: usize) -> Option<(Rc<Stack>, Arc<Overlay>)> {
        if !cl().up(n) {
            return None;
        }
        let s = self.stacks.borrow().get(&n).cloned()?;
        let o = s.ovs.get(&ov).cloned()?;
        Some((s, o))
    }
    fn timeout_ms(&self) -> u64 {
        self.plan.get("btimeout") as u64 * 1000
    }
    fn slack_ms(&self) -> u64 {
        let k = &self.plan.knobs;
        (4 * (k.lat_max_us + k.reorder_max_us) + 6 * k.stall_max_us + 2 * k.timer_late_max_us) / 1000 + 50
    }
    fn options(&self, n: usize) -> OverlayOptions {
        let p = &self.plan;
        OverlayOptions {
            max_neighbours: p.get("maxn") as u32,
            max_broadcast_log: p.get("log") as u32,
            broadcast_gc_interval_ms: p.get("gc_ms") as u64,
            overlay_peers_timeout_ms: p.get("peers_ms") as u64,
            max_ordinary_broadcast_len: p.get("maxord") as usize,
            broadcast_target_count: p.get("bt") as u32,
            secondary_broadcast_target_count: p.get("st") as u32,
            secondary_fec_broadcast_target_count: p.get("sft") as u32,
            fec_broadcast_wave_len: p.get("wave") as usize,
            fec_broadcast_wave_interval_ms: p.get("wave_ms") as u64,
            broadcast_timeout_sec: p.get("btimeout") as u64,
            force_compression: p.get("comp") >> n & 1 == 1,
        }
    }

    /// Whether `n` knows where to send to `to`
    fn linked(&self, n: usize, ov: usize, to: usize) -> bool {
        let k = self.k(ov);
        let id = self.ident(to, ov).short;
        !self.private(ov) || cl().nodes.borrow()[n].known.iter().any(|(a, b, _)| *a == k && b.short == id)
    }

    /// Honest nodes a broadcast of `n` has to reach
    fn reach(&self, n: usize, ov: usize, first: Option<&BTreeSet<usize>>) -> Vec<usize> {
        let c = cl();
        let e = self.edges.borrow();
        let mut out = BTreeSet::new();
        let mut todo: Vec<(usize, usize)> = match first {
            Some(f) => f.iter().map(|x| (n, *x)).collect(),
            None => e.get(&(n, ov)).map(|s| s.iter().map(|x| (n, *x)).collect()).unwrap_or_default(),
        };
        while let Some((y, x)) = todo.pop() {
            if x == n || !self.linked(y, ov, x) || !self.linked(x, ov, y) || hostile(&self.plan, x) || !c.up(x) || !self.member(x, ov) || !out.insert(x) {
                continue;
            }
            if let Some(s) = e.get(&(x, ov)) {
                todo.extend(s.iter().map(|y| (x, *y)));
            }
        }
        out.into_iter().collect()
    }

    fn add_edge(&self, n: usize, ov: usize, to: usize) -> bool {
        let Some((s, o)) = self.get(n, ov) else { return false };
        let c = cl();
        let rec = record(self.keyseed(to, ov), &self.oid(ov), wall_secs(c.sid(to)));
        let addr = c.addr(to);
        let r = c.on(n, || o.add_public_peer(&s.adnl, addr, rec.as_equivalent_ref()));
        let id = self.ident(to, ov).short;
        match r {
            Ok(Some(x)) if x == id => {}
            x => {
                viol(&["O07"], "valid-peer-refused", format!("node {n} did not accept the valid overlay record of node {to}: {x:?}"));
                return false;
            }
        }
        if !o.is_known_peer(&id) || !o.is_active_public_peer(&id) {
            viol(&["O06", "O07"], "added-peer-not-active", format!("node {n} does not list node {to} as an active overlay peer right after adding it"));
        }
        self.removed.borrow_mut().remove(&(n, ov, to));
        self.edges.borrow_mut().entry((n, ov)).or_default().insert(to);
        self.ever.borrow_mut().entry((n, ov)).or_default().insert(to);
        true
    }

    fn bcast(&self, n: usize, ov: usize, len: usize, kind: u8, uid: u64, key: u8, expl: bool) {
        let Some((s, o)) = self.get(n, ov) else { return };
        let c = cl();
        let p = &self.plan;
        let data = payload(self.seed, uid, len, kind);
        let h = sha(&data);
        if self.payloads.borrow().contains_key(&h) {
            return;
        }
        let src_key = if key == 1 { Some(Arc::new(codec::make_key(7700 + n as u64))) } else { None };
        let src = src_key.as_ref().map_or(self.ident(n, ov).short, |k| *k.id());
        let fec = len > p.get("maxord") as usize;
        let first: Option<BTreeSet<usize>> = if expl { self.edges.borrow().get(&(n, ov)).map(|s| s.iter().copied().take(2).collect()) } else { None };
        let target = match &first {
            Some(f) => BroadcastTarget::Explicit(Arc::new(f.iter().map(|x| self.ident(*x, ov).short).collect())),
            None => BroadcastTarget::RandomNeighbours,
        };
        let must: Vec<(usize, u32)> = if p.is("reliable") && !p.is("noflood") {
            self.reach(n, ov, first.as_ref()).into_iter().map(|x| (x, life(x))).collect()
        } else {
            vec![]
        };
        let mcount = must.len();
        let sid = c.sid(n);
        let send_s = (len / MTU * 3 / 2 / p.get("wave").max(1) as usize) as u64 * (p.get("wave_ms") as u64 + 2) / 1000 + 1;
        self.payloads.borrow_mut().insert(h, uid);
        self.bs.borrow_mut().insert(
            uid,
            B { n, life: life(n), ov, src, also: vec![], twins: vec![], len, fec, t: now_ms(), date: wall_secs(sid) + send_s as u32, must, forbidden: None, got: Default::default() },
        );
        count(if fec { "fec_broadcasts" } else { "plain_broadcasts" }, 1);
        let again = if uid % 3 == 1 { Some(data.clone()) } else { None };
        let info = c.on(n, || o.broadcast(&s.adnl, data, src_key.as_ref(), target));
        if let Some(data) = again {
            // the same broadcast once more
            count("repeated_broadcasts", 1);
            let r = c.on(n, || o.broadcast(&s.adnl, data, src_key.as_ref(), BroadcastTarget::RandomNeighbours));
            if r.recipient_count != 0 || r.packets != 0 {
                viol(&["O02"], "sent-again", format!("node {n} sent broadcast {uid} of {len} bytes again ({} packets to {} neighbours) when asked a second time", r.packets, r.recipient_count));
            }
        }
        trace(31, uid, info.recipient_count as u64);
        note(|| format!("broadcast {uid} of node {n} in overlay {ov}: {len} bytes to {} neighbours, due at {mcount} nodes", info.recipient_count));
        let deg = self.edges.borrow().get(&(n, ov)).map_or(0, |s| s.len());
        let want = match &first {
            Some(f) => f.len(),
            None => deg.min(p.get("bt") as usize),
        };
        if info.packets == 0 || (p.is("static") && info.recipient_count != want) {
            viol(&["O01"], "not-sent", format!("broadcast {uid} of node {n} was sent to {} neighbours in {} packets; it has {deg} neighbours and {want} are due", info.recipient_count, info.packets));
        }
    }

    /// The user of another member sends the same data at about the same time
    fn twin(&self, m: usize, ov: usize, len: usize, kind: u8, uid: u64) {
        let Some((s, o)) = self.get(m, ov) else { return };
        let data = payload(self.seed, uid, len, kind);
        {
            let bs = self.bs.borrow();
            let Some(b) = bs.get(&uid) else { return };
            if !b.fec || b.ov != ov || b.n == m || !self.member(m, ov) || hostile(&self.plan, m) {
                return;
            }
        }
        let info = cl().on(m, || o.broadcast(&s.adnl, data, None, BroadcastTarget::RandomNeighbours));
        note(|| format!("node {m} sent the data of broadcast {uid} as well: {} packets to {} neighbours", info.packets, info.recipient_count));
        if info.packets == 0 {
            // it had received it already
            count("twins_refused", 1);
            return;
        }
        count("twins", 1);
        let src = self.ident(m, ov).short;
        let mut bs = self.bs.borrow_mut();
        let b = bs.get_mut(&uid).unwrap();
        let date = wall_secs(cl().sid(m)) + (b.date - b.date.min(wall_secs(cl().sid(b.n))));
        b.date = b.date.max(date + 2);
        b.also.push(src);
        let lf = life(m);
        b.twins.push((m, lf, now_ms()));
        b.must.retain(|(x, _)| *x != m);
    }

    fn delivered(&self, n: usize, lf: u32, ov: usize, i: &IncomingBroadcastInfo) {
        nontrivial();
        count("deliveries", 1);
        let Some(uid) = self.payloads.borrow().get(&sha(&i.data)).copied() else {
            viol(&["O03"], "unknown-payload", format!("node {n} was handed a broadcast of {} bytes in overlay {ov} that nobody made (attributed to {:?})", i.data.len(), cl().whose(&i.from)));
            return;
        };
        trace(32, uid, n as u64);
        let mut bs = self.bs.borrow_mut();
        let b = bs.get_mut(&uid).unwrap();
        note(|| format!("node {n} got broadcast {uid} in overlay {ov} from {} packets", i.packets));
        if i.data.len() != b.len {
            viol(&["O03"], "length", format!("broadcast {uid} arrived with {} bytes, {} were sent", i.data.len(), b.len));
        }
        if b.ov != ov {
            viol(&["O03", "O06"], "wrong-overlay", format!("broadcast {uid} made in overlay {} was handed over in overlay {ov} at node {n}", b.ov));
        }
        if i.from != b.src && !b.also.contains(&i.from) {
            viol(&["O03"], "wrong-source", format!("broadcast {uid} of node {} was attributed to {} (node {:?}) at node {n}", b.n, i.from, cl().whose(&i.from)));
        }
        if let Some(why) = b.forbidden {
            viol(&["O03"], "invalid-delivered", format!("node {n} delivered broadcast {uid} although {why}"));
        }
        let forgotten = self.plan.is("aged") && now_ms() + 100 > b.t + self.timeout_ms();
        let twin = b.twins.iter().any(|(x, l, _)| (*x, *l) == (n, lf));
        if (twin || (n, lf) == (b.n, b.life)) && uid < HUID && !forgotten {
            viol(&["O02", "O08"], "own-broadcast", format!("node {n} was handed its own broadcast {uid}"));
        }
        let c = cl();
        let wall = wall_secs(c.sid(n)) as u64;
        let t = self.plan.get("btimeout") as u64;
        let hand = 1 + self.slack_ms() / 1000;
        if b.forbidden.is_none() && wall > b.date as u64 + t + 1 + hand && self.plan.is("prompt") {
            viol(&["O03"], "expired-delivered", format!("node {n} delivered broadcast {uid} {} s after its date, broadcasts expire after {t} s", wall - b.date as u64));
        }
        let now = now_ms();
        let g = b.got.entry((n, lf)).or_default();
        if let Some(first) = g.first() {
            if now - first + 100 < self.timeout_ms() || !self.plan.is("prompt") {
                viol(&["O02", "O08"], "delivered-twice", format!("node {n} was handed broadcast {uid} ({} bytes) twice, {} ms apart; broadcasts are remembered for {t} s", b.len, now - first));
            } else {
                count("late_redelivery", 1);
            }
        }
        g.push(now);
    }

    /// A custom message arrived at a node; called before the overlay sees it
    fn on_wire(self: &Rc<Self>, n: usize, ctx: &SubscriberContext<'_>, data: &[u8]) {
        let p = &self.plan;
        let c = cl();
        if data.len() < 36 {
            return;
        }
        let Some((f, _)) = c.whose(ctx.peer_id) else { return };
        let ov = self.which(&data[4..36]);
        let h = sha(data);
        let mut off = 36;
        let parsed = po::Broadcast::read_from(data, &mut off).ok();
        let mut raws = self.raws.borrow_mut();
        let r = raws.entry(h).or_insert_with(|| Raw {
            ov,
            uid: match &parsed {
                Some(po::Broadcast::Broadcast(b)) => {
                    let d = decompress(b.data);
                    let ps = self.payloads.borrow();
                    ps.get(&sha(b.data)).copied().or_else(|| d.and_then(|d| ps.get(&sha(&d)).copied()))
                }
                Some(po::Broadcast::BroadcastFec(b)) => self.payloads.borrow().get(b.data_hash).copied(),
                _ => None,
            },
            ..Default::default()
        });
        let (lf, ln) = (life(f), life(n));
        note(|| format!("wire: {f} -> {n}: overlay {ov:?}, broadcast {:?}, {}", r.uid, hex::encode(&h[..4])));
        if !hostile(p, f) {
            count("overlay_messages", 1);
            if r.forged {
                viol(&["O04"], "forged-forwarded", format!("node {f} passed a forged broadcast packet on to node {n}"));
            }
            let mem = ov.is_some_and(|o| self.member(f, o));
            if !mem {
                viol(&["O06"], "foreign-overlay", format!("node {f} sent node {n} a message of overlay {ov:?} it is not a member of"));
            }
            if let Some(o) = ov {
                if !self.ever.borrow().get(&(f, o)).is_some_and(|s| s.contains(&n)) {
                    viol(&["O06"], "not-a-peer", format!("node {f} sent a message of overlay {o} to node {n}, which is not one of its peers there"));
                }
                let mut twin = false;
                let own = r.uid.and_then(|u| {
                    self.bs.borrow().get(&u).map(|b| {
                        let t = b.twins.iter().find(|(x, l, _)| (*x, *l) == (f, lf));
                        twin = t.is_some();
                        (twin || (b.n == f && b.life == lf), t.map_or(b.t, |t| t.2))
                    })
                });
                // packets which were sent before a restart may still be on their way
                let mut former = r.uid.is_some_and(|u| self.bs.borrow().get(&u).is_some_and(|b| (b.n == f && b.life != lf) || b.twins.iter().any(|(x, l, _)| *x == f && *l != lf)));
                former |= r.first.keys().any(|(x, l)| *x == f && *l != lf);
                let rm = self.removed.borrow().get(&(f, o, n)).copied();
                if let Some(t) = rm {
                    let before = matches!(own, Some((true, bt)) if bt <= t);
                    if !before && now_ms() > t + self.slack_ms() {
                        viol(&["O06"], "sent-to-removed", format!("node {f} sent broadcast {:?} of overlay {o} to node {n}, which it had removed {} ms before", r.uid, now_ms() - t));
                    }
                }
                let is_own = matches!(own, Some((true, _)));
                let first = r.first.get(&(f, lf)).copied();
                if !is_own {
                    if own.is_some() && first.is_none() && !former && p.is("prompt") {
                        viol(&["O02"], "forwarded-unseen", format!("node {f} sent node {n} a packet of broadcast {:?} it had not received", r.uid));
                    }
                    if first == Some(n) && !former && !p.is("aged") {
                        viol(&["O02"], "sent-back", format!("node {f} sent a packet of broadcast {:?} back to node {n}", r.uid));
                    }
                }
                let s = r.sent.entry((f, lf)).or_default();
                *s.entry(n).or_insert(0) += 1;
                let copies = s[&n];
                let fec = matches!(parsed, Some(po::Broadcast::BroadcastFec(_)));
                let limit = match (is_own, fec) {
                    _ if former => usize::MAX as i64,
                    _ if twin => p.get("bt").max(p.get("sft")).max(2),
                    (true, _) => p.get("bt").max(2),
                    (_, true) => p.get("sft"),
                    (_, false) => p.get("st"),
                } as usize;
                if s.len() > limit && !p.is("aged") {
                    viol(&["O02"], "too-many-targets", format!("node {f} sent one packet of broadcast {:?} to {} neighbours, the limit is {limit}", r.uid, s.len()));
                }
                if copies > 1 && p.knobs.dup == 0.0 && !p.is("aged") {
                    viol(&["O02"], "forwarded-twice", format!("node {f} sent the same packet of broadcast {:?} to node {n} {copies} times", r.uid));
                }
            }
        }
        r.first.entry((n, ln)).or_insert(f);
        drop(raws);
        if hostile(p, n) {
            if let Some(o) = ov {
                if self.seen.borrow().len() < 400 {
                    self.seen.borrow_mut().push((o, data.to_vec()));
                }
                if let Some(b) = parsed {
                    self.react(n, f, o, data, b);
                }
            }
        }
    }

    // ------------------------------------------------------------------ hostile hosts

    fn hsend(&self, v: usize, to: usize, ov: usize, msg: &[u8], forged: bool) {
        let c = cl();
        let Some(node) = c.adnl(v) else { return };
        if !c.up(v) || v == to {
            return;
        }
        if forged {
            self.raws.borrow_mut().entry(sha(msg)).or_insert_with(|| Raw { ov: Some(ov), forged: true, ..Default::default() });
        }
        count_fault(Fault::Hostile);
        let (me, you) = (self.ident(v, ov).short, self.ident(to, ov).short);
        let _ = c.on(v, || node.send_custom_message(&me, &you, msg));
    }

    fn targets(&self, v: usize, ov: usize) -> Vec<usize> {
        (0..cl().len()).filter(|x| *x != v && !hostile(&self.plan, *x) && self.member(*x, ov)).collect()
    }

    fn hsend_all(&self, v: usize, ov: usize, msg: &[u8], forged: bool) {
        for to in self.targets(v, ov) {
            self.hsend(v, to, ov, msg, forged);
        }
    }

    fn hkey(&self, v: usize, ov: usize) -> adnl::Key {
        codec::make_key(self.keyseed(v, ov))
    }

    fn hmake(&self, v: usize, ov: usize, data: &[u8], date: u32, forbidden: Option<&'static str>) -> u64 {
        let uid = HUID + self.hnext.get();
        self.hnext.set(self.hnext.get() + 1);
        self.payloads.borrow_mut().insert(sha(data), uid);
        self.bs.borrow_mut().insert(
            uid,
            B {
                n: v,
                life: life(v),
                ov,
                src: self.ident(v, ov).short,
                also: vec![],
                twins: vec![],
                len: data.len(),
                fec: false,
                t: now_ms(),
                date,
                must: vec![],
                forbidden,
                got: Default::default(),
            },
        );
        uid
    }

    /// What a hostile host does with a packet it was sent
    fn react(&self, v: usize, from: usize, ov: usize, raw: &[u8], b: po::Broadcast<'_>) {
        let key = match &b {
            po::Broadcast::Broadcast(b) => sha(b.data),
            po::Broadcast::BroadcastFec(b) => *b.data_hash,
            _ => return,
        };
        {
            let mut r = self.reacted.borrow_mut();
            let x = r.entry((v, key)).or_insert(0);
            *x += 1;
            if *x > self.plan.get("hmax") as u32 {
                return;
            }
        }
        let mut r = SimRng::new(rng::mix(self.seed, u64::from_le_bytes(sha(raw)[..8].try_into().unwrap())), v as u64);
        let own = self.hkey(v, ov);
        let oid = self.oid(ov);
        let kind = r.below(12);
        count(&format!("hostile_reaction_{kind}"), 1);
        let _ = from;
        if kind == 0 {
            return;
        }
        if kind == 1 {
            // passes it on as it is
            self.hsend_all(v, ov, raw, false);
            return;
        }
        if kind == 2 {
            let cut = 40 + r.below(raw.len() as u64 - 44) as usize;
            self.hsend_all(v, ov, &raw[..cut], true);
            return;
        }
        match b {
            po::Broadcast::Broadcast(b) => {
                let mut d = b.data.to_vec();
                let mut date = b.date;
                let mut src = b.src;
                let mut sig = b.signature.to_vec();
                let mut flags = b.flags;
                match kind {
                    3 | 4 if !d.is_empty() => {
                        let i = r.below(d.len() as u64) as usize;
                        d[i] ^= 1 << r.below(8);
                    }
                    5 => src = own.full_id().as_tl(),
                    6 => date = date.wrapping_add(1 + r.below(10) as u32),
                    7 => {
                        let i = r.below(64) as usize;
                        sig[i] ^= 1 << r.below(8);
                    }
                    8 => flags &= !1,
                    9 => sig.truncate(r.below(64) as usize),
                    10 => d.push(7),
                    _ => {
                        d.clear();
                        d.extend_from_slice(b"forged");
                    }
                }
                let m = wrap(&oid, &po::Broadcast::Broadcast(po::OverlayBroadcast { src, certificate: po::Certificate::EmptyCertificate, flags, data: &d, date, signature: &sig }));
                // another encoding of the same content is not a forgery
                let same = (src, date, &sig[..], flags) == (b.src, b.date, b.signature, b.flags) && decompress(&d).is_some() && decompress(&d) == decompress(b.data);
                if m != raw {
                    self.hsend_all(v, ov, &m, !same);
                }
            }
            po::Broadcast::BroadcastFec(b) => {
                let mut p = FecPart { data_hash: *b.data_hash, data_size: b.data_size, flags: b.flags, data: b.data.to_vec(), seqno: b.seqno, fec: b.fec, date: b.date };
                let mut src = b.src;
                let mut sig = b.signature.to_vec();
                let mut forged = true;
                match kind {
                    3 => {
                        let i = r.below(p.data.len() as u64) as usize;
                        p.data[i] ^= 1 << r.below(8);
                    }
                    // own signature over garbage for the same data
                    4 | 5 => {
                        r.fill(&mut p.data);
                        src = own.full_id().as_tl();
                        sig = sign(&own, &part_to_sign(&p, None));
                        forged = false;
                    }
                    6 => {
                        p.date = p.date.wrapping_add(1 + r.below(10) as u32);
                    }
                    7 => p.seqno = p.seqno.wrapping_add(1 + r.below(8) as u32),
                    8 => p.data_size = p.data_size.wrapping_add(1),
                    9 => {
                        p.fec.total_len = p.fec.total_len.wrapping_add(8);
                        p.fec.packet_count = p.fec.packet_count.wrapping_add(1);
                    }
                    10 => src = own.full_id().as_tl(),
                    _ => {
                        let i = r.below(64) as usize;
                        sig[i] ^= 1 << r.below(8);
                    }
                }
                let m = wrap(
                    &oid,
                    &po::Broadcast::BroadcastFec(po::OverlayBroadcastFec {
                        src,
                        certificate: po::Certificate::EmptyCertificate,
                        data_hash: &p.data_hash,
                        data_size: p.data_size,
                        flags: p.flags,
                        data: &p.data,
                        seqno: p.seqno,
                        fec: p.fec,
                        date: p.date,
                        signature: &sig,
                    }),
                );
                self.hsend_all(v, ov, &m, forged);
            }
            _ => {}
        }
    }

    /// Unprovoked packets. `arg`: for kinds 0..=2 the broadcast to come they are aimed at
    fn hostile_op(&self, v: usize, ov: usize, kind: u8, arg: u64) {
        let c = cl();
        if !c.up(v) || !hostile(&self.plan, v) {
            return;
        }
        let p = self.plan.clone();
        let mut r = SimRng::new(rng::mix(self.seed, arg), 0x405 + kind as u64);
        let own = self.hkey(v, ov);
        let oid = self.oid(ov);
        let now = wall_secs(c.sid(v));
        let t = p.get("btimeout") as u32;
        count(&format!("hostile_op_{kind}"), 1);
        let target = p.steps.iter().find_map(|s| match &s.op {
            Op::OBcast { n, ov: o, len, kind, uid, key, .. } if *uid == arg && *o == ov => Some((*n, *len, *kind, *key)),
            _ => None,
        });
        let fresh = |r: &mut SimRng, len: usize| {
            let mut d = vec![0u8; len];
            r.fill(&mut d);
            d
        };
        match kind {
            0..=2 => {
                let Some((n, len, pk, key)) = target else { return };
                let data = payload(self.seed, arg, len, pk);
                let honest = if key == 1 { codec::make_key(7700 + n as u64) } else { codec::make_key(self.keyseed(n, ov)) };
                let junk = fresh(&mut r, 64);
                if len <= p.get("maxord") as usize {
                    match kind {
                        0 => self.hsend_all(v, ov, &plain_msg(&oid, &honest, &data, 1, now, &junk), true),
                        _ => {
                            let s = sign(&own, &plain_to_sign(b"other", now, None, 1));
                            self.hsend_all(v, ov, &plain_msg(&oid, &honest, &data, 1, now, &s), true)
                        }
                    }
                    return;
                }
                let parts = fec_parts(&data, 2, now);
                for (i, mut q) in parts.into_iter().enumerate().take(1 + r.below(4) as usize) {
                    match kind {
                        0 => self.hsend_all(v, ov, &part_msg(&oid, &honest, &q, &junk), true),
                        1 => {
                            q.data = fresh(&mut r, MTU);
                            if i == 0 && r.chance(0.3) {
                                q.fec.total_len = 8;
                                q.fec.packet_count = 1;
                                q.data_size = 8;
                            }
                            let s = sign(&own, &part_to_sign(&q, None));
                            self.hsend_all(v, ov, &part_msg(&oid, &own, &q, &s), false)
                        }
                        _ => {
                            q.seqno = q.seqno.wrapping_add(r.below(2000) as u32);
                            let s = sign(&own, &part_to_sign(&q, None));
                            self.hsend_all(v, ov, &part_msg(&oid, &honest, &q, &s), true)
                        }
                    }
                }
            }
            3 => {
                let len = 8 + r.below(700) as usize;
                let d = fresh(&mut r, len);
                let s = sign(&own, &plain_to_sign(&d, now, None, 1));
                self.hmake(v, ov, &d, now, None);
                self.hsend_all(v, ov, &plain_msg(&oid, &own, &d, 1, now, &s), false);
            }
            4 | 5 => {
                let len = 800 + r.below(6000) as usize;
                let d = fresh(&mut r, len);
                self.hmake(v, ov, &d, now, None);
                let parts = fec_parts(&d, 2, now);
                let k = if kind == 5 { 1 + r.below(parts.len() as u64 - 3) as usize } else { parts.len() };
                if kind == 5 {
                    count("unfinished_fec", 1);
                }
                for q in parts.iter().take(k) {
                    let s = sign(&own, &part_to_sign(q, None));
                    self.hsend_all(v, ov, &part_msg(&oid, &own, q, &s), false);
                }
            }
            6 => {
                let d = fresh(&mut r, 2000);
                let mut q = fec_parts(&d, 0, now).remove(0);
                match r.below(8) {
                    0 => q.fec.total_len = 0,
                    1 => q.fec.packet_len = 0,
                    2 => q.fec.packet_len = 1,
                    3 => q.fec.total_len = u32::MAX,
                    4 => q.fec.packet_count = u32::MAX,
                    5 => q.data.truncate(r.below(700) as usize),
                    6 => q.seqno = u32::MAX - r.below(3) as u32,
                    _ => q.fec.packet_len = 1 << r.below(32),
                }
                q.data_hash = sha(&q.data);
                let s = sign(&own, &part_to_sign(&q, None));
                self.hsend_all(v, ov, &part_msg(&oid, &own, &q, &s), false);
                // and once more with another number
                q.seqno = q.seqno.wrapping_add(1);
                let s = sign(&own, &part_to_sign(&q, None));
                self.hsend_all(v, ov, &part_msg(&oid, &own, &q, &s), false);
            }
            7 => {
                let d = fresh(&mut r, 40);
                let old = r.below(4);
                let date = match old {
                    0 => now.saturating_sub(t + 3 + r.below(100) as u32),
                    1 => r.below(5) as u32,
                    2 => u32::MAX - r.below(t as u64 + 2) as u32,
                    _ => now + r.below(t as u64) as u32,
                };
                self.hmake(v, ov, &d, date, if old < 2 { Some("it had expired before it was sent") } else { None });
                let s = sign(&own, &plain_to_sign(&d, date, None, 1));
                self.hsend_all(v, ov, &plain_msg(&oid, &own, &d, 1, date, &s), false);
                // and as a coded one
                let d = fresh(&mut r, 900);
                self.hmake(v, ov, &d, date, if old < 2 { Some("it had expired before it was sent") } else { None });
                for q in fec_parts(&d, 1, date) {
                    let s = sign(&own, &part_to_sign(&q, None));
                    self.hsend_all(v, ov, &part_msg(&oid, &own, &q, &s), false);
                }
            }
            8 => {
                let mut m = T_MESSAGE.to_le_bytes().to_vec();
                m.extend_from_slice(oid.as_slice());
                let ctors = [0xd55c_14ecu32, 0x09d7_6914, 0x3353_4e24, 0xf188_1342, 0x9586_3624, 0xb15a_2b6b, 0xe799_603f, 0];
                m.extend_from_slice(&r.pick(&ctors).to_le_bytes());
                let l = r.below(200) as usize;
                m.extend_from_slice(&fresh(&mut r, l));
                self.hsend_all(v, ov, &m, true);
            }
            9 => {
                // all of it, but of other data than announced
                let d = fresh(&mut r, 3000);
                self.hmake(v, ov, &d, now, Some("its content does not match the announced hash"));
                let other = sha(b"other");
                for mut q in fec_parts(&d, 2, now) {
                    q.data_hash = other;
                    let s = sign(&own, &part_to_sign(&q, None));
                    self.hsend_all(v, ov, &part_msg(&oid, &own, &q, &s), false);
                }
            }
            10 => {
                // announced with another size
                let d = fresh(&mut r, 3000);
                self.hmake(v, ov, &d, now, Some("its size does not match the announced one"));
                for mut q in fec_parts(&d, 2, now) {
                    q.data_size = 2999;
                    let s = sign(&own, &part_to_sign(&q, None));
                    self.hsend_all(v, ov, &part_msg(&oid, &own, &q, &s), false);
                }
            }
            11 => {
                // an overlay nobody knows
                let other = ov_id(self.seed, 77);
                let d = fresh(&mut r, 50);
                self.hmake(v, 77, &d, now, Some("it was made in another overlay"));
                let s = sign(&own, &plain_to_sign(&d, now, None, 1));
                for to in self.targets(v, ov) {
                    self.hsend(v, to, ov, &plain_msg(&other, &own, &d, 1, now, &s), true);
                }
            }
            12 => {
                // signed by somebody else than it names
                let victims = self.targets(v, ov);
                let Some(x) = victims.first() else { return };
                let named = codec::make_key(self.keyseed(*x, ov));
                let big = r.chance(0.5);
                let d = fresh(&mut r, if big { 2500 } else { 300 });
                self.hmake(v, ov, &d, now, Some("the source it names did not sign it"));
                if big {
                    for q in fec_parts(&d, 2, now) {
                        let s = sign(&own, &part_to_sign(&q, None));
                        self.hsend_all(v, ov, &part_msg(&oid, &named, &q, &s), true);
                    }
                } else {
                    let s = sign(&own, &plain_to_sign(&d, now, None, 1));
                    self.hsend_all(v, ov, &plain_msg(&oid, &named, &d, 1, now, &s), true);
                }
            }
            _ => {
                // a signature without any source restriction bit
                let d = fresh(&mut r, 60);
                self.hmake(v, ov, &d, now, None);
                let s = sign(&own, &plain_to_sign(&d, now, Some(self.ident(v, ov).short.as_slice()), 0));
                self.hsend_all(v, ov, &plain_msg(&oid, &own, &d, 0, now, &s), false);
            }
        }
    }

    /// A peer list with valid and invalid records; also the valid ones in it
    fn peer_list(&self, r: &mut SimRng, v: usize, ov: usize, to: usize) -> (po::NodesOwned, BTreeMap<NodeIdShort, u32>) {
        let oid = self.oid(ov);
        let now = wall_secs(0);
        let mut nodes = smallvec::SmallVec::new();
        let mut good = BTreeMap::new();
        for _ in 0..r.below(7) {
            let ghost = 9000 + r.below(6);
            let version = now - r.below(50) as u32;
            let mut rec = record(ghost, &oid, version);
            match r.below(9) {
                0 => {
                    rec.version = *r.pick(&[version, 0, 1, u32::MAX]);
                    let mut s = rec.signature.to_vec();
                    let i = r.below(64) as usize;
                    s[i] ^= 1 << r.below(8);
                    rec.signature = s.into();
                }
                1 if r.chance(0.5) => {
                    // an overlay whose id differs in one bit
                    let mut other: [u8; 32] = oid.into();
                    other[r.below(32) as usize] ^= 1 << r.below(8);
                    rec = record(ghost, &other.into(), version);
                }
                1 => rec = record(ghost, &ov_id(self.seed, 50 + r.below(2) as usize), version),
                2 => rec = record(self.keyseed(to, ov), &oid, version),
                3 => rec.version += 1,
                4 => rec.signature = vec![1u8; r.below(70) as usize].into(),
                5 => {
                    // somebody else's signature
                    rec.id = codec::make_key(9000 + (ghost - 9000 + 1) % 6).full_id().as_tl().as_equivalent_owned();
                }
                _ => {
                    let e = good.entry(ident(ghost).short).or_insert(version);
                    *e = (*e).max(version);
                }
            }
            nodes.push(rec);
        }
        let _ = v;
        (po::NodesOwned { nodes }, good)
    }

    fn check_list(&self, n: usize, ov: usize, asker: Option<usize>, nodes: &[po::Node<'_>], what: &str) {
        let c = cl();
        let oid = self.oid(ov);
        let me = self.ident(n, ov).short;
        let now = wall_secs(c.sid(n));
        nontrivial();
        count("peer_lists_checked", 1);
        let mut own = false;
        for r in nodes {
            let Some(id) = record_id(r) else {
                viol(&["O07"], "bad-record-offered", format!("node {n} offered a record without a usable key {what}"));
                continue;
            };
            if !overlay_node_ok(oid.as_slice(), r) {
                viol(&["O07"], "bad-record-offered", format!("node {n} offered a record of {:?} that is not valid in overlay {ov} {what}", c.whose(&id)));
            }
            if id == me {
                own = true;
                if r.version > now || r.version + 10 < now {
                    viol(&["O07"], "own-record-outdated", format!("node {n} offered its own record with version {} at {now}", r.version));
                }
                continue;
            }
            match c.whose(&id) {
                Some((x, _)) => {
                    let known = self.ever.borrow().get(&(n, ov)).is_some_and(|s| s.contains(&x));
                    let removed = self.removed.borrow().get(&(n, ov, x)).copied();
                    if !known {
                        viol(&["O07", "O06"], "unknown-peer-offered", format!("node {n} offered node {x} in overlay {ov}, which is not its peer there"));
                    }
                    if removed.is_some_and(|t| now_ms() > t + self.slack_ms()) {
                        viol(&["O06"], "removed-peer-offered", format!("node {n} offered node {x} in overlay {ov} although it was removed"));
                    }
                }
                None => viol(&["O07"], "unknown-peer-offered", format!("node {n} offered a peer in overlay {ov} it was never given by its user")),
            }
        }
        let _ = asker;
        if !own {
            viol(&["O07"], "own-record-missing", format!("node {n} did not offer its own record {what}"));
        }
    }

    async fn probe(self: Rc<Self>, v: usize, ov: usize, to: usize, arg: u64) {
        let c = cl();
        let Some(node) = c.adnl(v) else { return };
        if !c.up(v) || !hostile(&self.plan, v) || v == to {
            return;
        }
        let mut r = SimRng::new(rng::mix(self.seed, arg), 0x9001);
        let (list, good) = self.peer_list(&mut r, v, ov, to);
        {
            let mut o = self.offered.borrow_mut();
            let m = o.entry((to, ov)).or_default();
            for (id, ver) in &good {
                let e = m.entry(*id).or_insert((*ver, false));
                if *ver > e.0 {
                    *e = (*ver, false);
                }
            }
        }
        let mut q = tl_proto::serialize(rpc::OverlayQuery { overlay: self.oid(ov).as_slice() });
        rpc::OverlayGetRandomPeersOwned { peers: list }.write_to(&mut q);
        let (me, you) = (self.ident(v, ov).short, self.ident(to, ov).short);
        count("probes", 1);
        let lf = life(to);
        let a = c.on(v, || spawn_local(async move { node.query_raw(&me, &you, q.into(), Some(2000)).await })).await;
        let Ok(Ok(Some(a))) = a else { return };
        if !self.member(to, ov) || hostile(&self.plan, to) {
            if !hostile(&self.plan, to) {
                viol(&["O06"], "answered-for-foreign-overlay", format!("node {to} answered a peer query of overlay {ov}, which it is not a member of"));
            }
            return;
        }
        let Ok(nodes) = tl_proto::deserialize_as_boxed::<po::Nodes>(&a) else {
            viol(&["O07"], "bad-answer", format!("node {to} answered a peer query with something else"));
            return;
        };
        self.check_list(to, ov, Some(v), &nodes.nodes, "in an answer");
        if life(to) != lf {
            return;
        }
        let mut o = self.offered.borrow_mut();
        let m = o.entry((to, ov)).or_default();
        for (id, ver) in &good {
            if let Some(e) = m.get_mut(id) {
                if e.0 == *ver {
                    e.1 = true;
                }
            }
        }
    }

    fn take(&self, n: usize, ov: usize) {
        let Some((_, o)) = self.get(n, ov) else { return };
        let got = o.take_new_peers();
        nontrivial();
        let oid = self.oid(ov);
        let me = self.ident(n, ov).short;
        let mut ids: BTreeMap<NodeIdShort, u32> = BTreeMap::new();
        for r in got.values() {
            let r = r.as_equivalent_ref();
            let Some(id) = record_id(&r) else {
                viol(&["O07"], "bad-record-taken", format!("node {n} took in a record without a usable key"));
                continue;
            };
            if id == me {
                viol(&["O07"], "lists-itself", format!("node {n} took itself in as a peer of overlay {ov}"));
            } else if !overlay_node_ok(oid.as_slice(), &r) {
                viol(&["O07"], "bad-record-taken", format!("node {n} took in a record of {id} that is not valid in overlay {ov}"));
            }
            ids.insert(id, r.version);
        }
        let off = std::mem::take(&mut *self.offered.borrow_mut().entry((n, ov)).or_default());
        for (id, (ver, sure)) in &off {
            if !sure {
                continue;
            }
            match ids.get(id) {
                None => viol(&["O07"], "good-record-lost", format!("node {n} did not take in the valid record of {id} it was given in overlay {ov}")),
                Some(v) if v < ver => viol(&["O07"], "older-record-kept", format!("node {n} kept version {v} of {id} although it was given version {ver}")),
                _ => {}
            }
        }
        count("peers_taken", ids.len() as u64);
    }

    fn add_bad(&self, n: usize, ov: usize, kind: u8, arg: u64) {
        let Some((s, o)) = self.get(n, ov) else { return };
        if self.private(ov) {
            return;
        }
        let c = cl();
        let oid = self.oid(ov);
        let now = wall_secs(c.sid(n));
        let ghost = 9100 + arg % 20;
        let addr = std::net::SocketAddrV4::new(std::net::Ipv4Addr::new(10, 0, 150, (arg % 20) as u8 + 1), 4000);
        let mut rec = record(ghost, &oid, now);
        nontrivial();
        match kind % 6 {
            0 => {
                rec.version = [now, 0, 1, u32::MAX][(arg / 7 % 4) as usize];
                let mut x = rec.signature.to_vec();
                x[(arg % 64) as usize] ^= 1;
                rec.signature = x.into();
            }
            1 if arg % 2 == 1 => {
                let mut other: [u8; 32] = oid.into();
                other[(arg / 2 % 32) as usize] ^= 1 << (arg % 8);
                rec = record(ghost, &other.into(), now);
            }
            1 => rec = record(ghost, &ov_id(self.seed, 50), now),
            2 => rec = record(self.keyseed(n, ov), &oid, now),
            3 => rec.signature = vec![].into(),
            4 => rec.version = rec.version.wrapping_sub(1),
            _ => {
                // one batch: bad, good, bad
                let good = record(9200 + arg % 20, &oid, now);
                let mut bad1 = record(ghost, &oid, now);
                bad1.signature = vec![3u8; 64].into();
                let bad2 = record(self.keyseed(n, ov), &oid, now);
                let gid = ident(9200 + arg % 20).short;
                let r = c.on(n, || o.add_public_peers(&s.adnl, vec![(addr, bad1.as_equivalent_ref()), (addr, good.as_equivalent_ref()), (addr, bad2.as_equivalent_ref())]));
                match r {
                    Ok(v) if v == vec![gid] => {}
                    x => viol(&["O07"], "batch", format!("node {n} added {x:?} from a batch with one good record")),
                }
                // not a host: take it out again
                o.remove_public_peer(&gid);
                return;
            }
        }
        let id = record_id(&rec.as_equivalent_ref()).unwrap();
        let before = o.is_known_peer(&id);
        let r = c.on(n, || o.add_public_peer(&s.adnl, addr, rec.as_equivalent_ref()));
        if let Ok(Some(x)) = r {
            viol(&["O07"], "bad-record-added", format!("node {n} added {x} from an invalid record (kind {})", kind % 6));
        }
        if o.is_known_peer(&id) && !before {
            viol(&["O07"], "bad-record-added", format!("node {n} knows {id} after being given an invalid record (kind {})", kind % 6));
        }
    }

    async fn exchange(self: Rc<Self>, n: usize, ov: usize, to: usize) {
        let c = cl();
        let Some((s, o)) = self.get(n, ov) else { return };
        let you = self.ident(to, ov).short;
        let a0 = self.answered.borrow().get(&(to, n, ov)).map_or(0, |v| v.len());
        let g = Pending::new(&self);
        let this = self.clone();
        c.spawn_on(n, async move {
            let _g = g;
            // the user may say which peers it has already
            let mode = (a0 + n + to) % 5;
            let have: std::collections::HashSet<NodeIdShort> = match mode {
                1 => (0..6u64).step_by(2).map(|g| ident(9000 + g).short).chain((0..cl().len()).step_by(2).map(|x| this.ident(x, ov).short)).collect(),
                _ => Default::default(),
            };
            let r = match mode {
                0 => o.exchange_random_peers_ext(&s.adnl, &you, Some(2000), &()).await,
                1 => o.exchange_random_peers_ext(&s.adnl, &you, Some(2000), &have).await,
                _ => o.exchange_random_peers(&s.adnl, &you, Some(2000)).await,
            };
            let Ok(Some(list)) = r else { return };
            if let Some(id) = list.iter().find(|id| have.contains(*id) || (mode > 1 && o.is_known_peer(id))) {
                viol(&["O07"], "known-peer-listed", format!("an exchange of node {n} in overlay {ov} names peer {id} although it is known already"));
            }
            nontrivial();
            count("exchanges", 1);
            let c = cl();
            let me = this.ident(n, ov).short;
            if !this.member(to, ov) && !hostile(&this.plan, to) {
                viol(&["O06"], "answered-for-foreign-overlay", format!("node {to} answered a peer exchange of overlay {ov}, which it is not a member of"));
            }
            if list.contains(&me) {
                viol(&["O07"], "lists-itself", format!("node {n} got itself as a peer from an exchange in overlay {ov}"));
            }
            if hostile(&this.plan, to) {
                let ans = this.answered.borrow();
                let all = ans.get(&(to, n, ov));
                let lists = all.map(|v| &v[a0..]).unwrap_or(&[]);
                for id in &list {
                    if !lists.iter().any(|l| l.contains(id)) {
                        viol(&["O07"], "bad-record-accepted", format!("node {n} accepted peer {id} of overlay {ov} from an exchange although no valid record of it was given"));
                    }
                }
                if lists.len() == 1 {
                    for id in &lists[0] {
                        if !list.contains(id) && !have.contains(id) && (mode == 0 || !o.is_known_peer(id)) && *id != me {
                            viol(&["O07"], "good-record-hidden", format!("node {n} did not accept the valid record of {id} among others in an exchange of overlay {ov}"));
                        }
                    }
                }
            } else {
                for id in &list {
                    let x = c.whose(id);
                    let ok = x.is_some_and(|(x, _)| x == to || this.ever.borrow().get(&(to, ov)).is_some_and(|s| s.contains(&x)));
                    if !ok {
                        viol(&["O07"], "bad-record-accepted", format!("node {n} learnt peer {id} ({x:?}) of overlay {ov} from node {to}, which has no such peer"));
                    }
                }
            }
        });
    }

    fn query(self: &Rc<Self>, n: usize, ov: usize, to: usize, len: usize, use_rldp: bool) {
        let Some((s, o)) = self.get(n, ov) else { return };
        let c = cl();
        let uid = self.next.get();
        self.next.set(uid + 1);
        let mut d = vec![0u8; len];
        SimRng::new(rng::mix(self.seed, uid), 0x0051).fill(&mut d);
        let q = Q { uid, ov: ov as u32, data: d.clone() };
        self.qs.borrow_mut().insert(uid, (n, ov, to, d, 0));
        let you = self.ident(to, ov).short;
        let g = Pending::new(self);
        let this = self.clone();
        count("overlay_queries", 1);
        c.spawn_on(n, async move {
            let _g = g;
            let r = if use_rldp {
                let Some(rl) = s.rldp.clone() else { return };
                match o.rldp_query(&rl, &you, q, None).await {
                    Ok((a, _)) => a,
                    Err(_) => None,
                }
            } else {
                o.adnl_query(&s.adnl, &you, q, Some(3000)).await.unwrap_or(None)
            };
            nontrivial();
            let ok_target = this.member(to, ov) && !hostile(&this.plan, to) && this.has_sub(to, ov);
            match r {
                Some(a) => {
                    count("overlay_answers", 1);
                    let want = tl_proto::serialize(A { uid, ov: ov as u32, n: to as u32 });
                    if !ok_target {
                        viol(&["O06"], "answered-for-foreign-overlay", format!("a query in overlay {ov} was answered by node {to}, which is not a member or serves no queries there"));
                    } else if a != want {
                        viol(&["O06"], "wrong-answer", format!("query {uid} in overlay {ov} to node {to} returned something its subscriber did not answer"));
                    }
                }
                None => {
                    if ok_target && this.plan.is("reliable") {
                        viol(&["O06"], "member-unreachable", format!("query {uid} ({}) in overlay {ov} to its member node {to} got no answer on a good network", if use_rldp { "RLDP" } else { "ADNL" }));
                    }
                }
            }
        });
    }

    /// A one-way message, taken by a subscriber the user registered before the overlay node
    fn message(self: &Rc<Self>, n: usize, ov: usize, to: usize, len: usize) {
        let Some((s, o)) = self.get(n, ov) else { return };
        let uid = self.next.get();
        self.next.set(uid + 1);
        let mut d = vec![0u8; 12 + len];
        SimRng::new(rng::mix(self.seed, uid), 0x0052).fill(&mut d);
        d[..4].copy_from_slice(&C_OM.to_le_bytes());
        d[4..12].copy_from_slice(&uid.to_le_bytes());
        let you = self.ident(to, ov).short;
        self.ms.borrow_mut().insert(uid, (n, ov, to, d.clone(), 0));
        count("one_way_messages", 1);
        if let Err(e) = cl().on(n, || o.send_message(&s.adnl, &you, &d)) {
            if self.plan.is("reliable") {
                viol(&["O06"], "message-not-sent", format!("node {n} could not send a message in overlay {ov} to node {to}: {e}"));
            }
            self.ms.borrow_mut().remove(&uid);
        }
    }

    fn on_message(&self, n: usize, ctx: &SubscriberContext<'_>, ov: Option<usize>, data: &[u8]) {
        let uid = data.get(4..12).map_or(0, |x| u64::from_le_bytes(x.try_into().unwrap()));
        let mut ms = self.ms.borrow_mut();
        let Some((from, o, to, d, times)) = ms.get_mut(&uid) else {
            viol(&["O06"], "unknown-message", format!("node {n} was handed a one-way overlay message nobody sent"));
            return;
        };
        nontrivial();
        *times += 1;
        if ov != Some(*o) {
            viol(&["O06"], "message-in-wrong-overlay", format!("a message of overlay {o} was handed over at node {n} as one of overlay {ov:?}"));
        }
        if *to != n || &self.ident(*from, *o).short != ctx.peer_id || &self.ident(*to, *o).short != ctx.local_id {
            viol(&["O06"], "message-of-wrong-parties", format!("a message of node {from} to node {to} in overlay {o} was handed over at node {n} as from {:?} to {:?}", cl().whose(ctx.peer_id), cl().whose(ctx.local_id)));
        }
        if d != data {
            viol(&["O06"], "message-changed", format!("message {uid} of {} bytes in overlay {o} arrived changed at node {n} with {} bytes", d.len(), data.len()));
        }
        if *times > 1 && self.plan.knobs.dup == 0.0 {
            viol(&["O06"], "message-twice", format!("message {uid} in overlay {o} was handed over {times} times at node {n}"));
        }
    }

    fn waiters(self: &Rc<Self>, n: usize, ov: usize, count_: usize, ms: u64, gap: u64, total: u64) {
        let Some((_, o)) = self.get(n, ov) else { return };
        let c = cl();
        let lf = life(n);
        if ms == 0 && total == 0 {
            *self.steady.borrow_mut().entry((n, ov)).or_insert(0) += count_;
        }
        for _ in 0..count_ {
            let o = o.clone();
            let this = self.clone();
            c.spawn_on(n, async move {
                let mut k = 0;
                loop {
                    let r = if ms > 0 {
                        match timeout(Duration::from_micros(ms), o.wait_for_broadcast()).await {
                            Ok(i) => Some(i),
                            Err(_) => {
                                count_fault(Fault::Cancel);
                                None
                            }
                        }
                    } else {
                        Some(o.wait_for_broadcast().await)
                    };
                    if let Some(i) = r {
                        this.delivered(n, lf, ov, &i);
                    }
                    k += 1;
                    if total > 0 && k >= total {
                        return;
                    }
                    if gap > 0 {
                        sleep(Duration::from_micros(gap)).await;
                    }
                }
            });
        }
    }
}

/// The compression envelope, decoded independently of the code under test: data and its
/// big-endian length as two zstd frames, then a tag
fn decompress(d: &[u8]) -> Option<Vec<u8>> {
    if d.last() != Some(&0x80) {
        return None;
    }
    let mut v = zstd::stream::decode_all(&d[..d.len() - 1]).ok()?;
    let n = v.len().checked_sub(4)?;
    if u32::from_be_bytes(v[n..].try_into().unwrap()) as usize != n {
        return None;
    }
    v.truncate(n);
    Some(v)
}

#[derive(Clone, Debug, TlRead, TlWrite)]
#[tl(boxed, id = 0x5eed0031)]
struct Q {
    uid: u64,
    ov: u32,
    data: Vec<u8>,
}
#[derive(Clone, Debug, TlRead, TlWrite)]
#[tl(boxed, id = 0x5eed0032)]
struct A {
    uid: u64,
    ov: u32,
    n: u32,
}

struct Pending(Rc<OSt>);
impl Pending {
    fn new(s: &Rc<OSt>) -> Self {
        s.pending.set(s.pending.get() + 1);
        Self(s.clone())
    }
}
impl Drop for Pending {
    fn drop(&mut self) {
        self.0.pending.set(self.0.pending.get() - 1);
    }
}

// ------------------------------------------------------------------ subscribers

/// Sees every custom message before the overlay does
struct Tap(usize);
#[async_trait::async_trait]
impl MessageSubscriber for Tap {
    async fn try_consume_custom<'a>(&self, ctx: SubscriberContext<'a>, constructor: u32, data: &'a [u8]) -> anyhow::Result<bool> {
        let s = st();
        if constructor == T_MESSAGE && data.get(36..40) == Some(&C_OM.to_le_bytes()[..]) {
            s.on_message(self.0, &ctx, s.which(&data[4..36]), &data[36..]);
            return Ok(true);
        }
        if constructor == T_MESSAGE {
            s.on_wire(self.0, &ctx, data);
            return Ok(hostile(&s.plan, self.0));
        }
        Ok(false)
    }
}

struct OSub {
    n: usize,
    ov: usize,
}
#[async_trait::async_trait]
impl QuerySubscriber for OSub {
    async fn try_consume_query<'a>(&self, ctx: SubscriberContext<'a>, constructor: u32, query: Cow<'a, [u8]>) -> anyhow::Result<QueryConsumingResult<'a>> {
        let s = st();
        let (n, ov) = (self.n, self.ov);
        nontrivial();
        let q = match tl_proto::deserialize::<Q>(&query) {
            Ok(q) if constructor == C_OQ => q,
            _ => {
                viol(&["O06"], "unknown-query", format!("the subscriber of overlay {ov} at node {n} was handed a query nobody made"));
                return Ok(QueryConsumingResult::Rejected(query));
            }
        };
        count("overlay_queries_handled", 1);
        trace(33, q.uid, n as u64);
        let mut qs = s.qs.borrow_mut();
        match qs.get_mut(&q.uid) {
            Some((from, o, to, d, _)) => {
                if *o != ov || q.ov != ov as u32 {
                    viol(&["O06"], "query-in-wrong-overlay", format!("a query of overlay {o} was handed to the subscriber of overlay {ov} at node {n}"));
                }
                if *to != n || &s.ident(*from, *o).short != ctx.peer_id {
                    viol(&["O06"], "query-of-wrong-parties", format!("a query of node {from} to node {to} in overlay {o} was handed over at node {n} as from {:?}", cl().whose(ctx.peer_id)));
                }
                if *d != q.data {
                    viol(&["O06"], "query-changed", format!("query {} in overlay {ov} arrived changed at node {n}", q.uid));
                }
            }
            None => viol(&["O06"], "unknown-query", format!("the subscriber of overlay {ov} at node {n} was handed a query nobody made")),
        }
        Ok(QueryConsumingResult::Consumed(Some(tl_proto::serialize(A { uid: q.uid, ov: ov as u32, n: n as u32 }))))
    }
}

/// Answers peer exchanges of honest nodes with doubtful lists
struct HostileQ(usize);
#[async_trait::async_trait]
impl QuerySubscriber for HostileQ {
    async fn try_consume_query<'a>(&self, ctx: SubscriberContext<'a>, constructor: u32, query: Cow<'a, [u8]>) -> anyhow::Result<QueryConsumingResult<'a>> {
        let s = st();
        if constructor != rpc::OverlayQuery::TL_ID || query.len() < 40 {
            return Ok(QueryConsumingResult::Rejected(query));
        }
        let Some(ov) = s.which(&query[4..36]) else { return Ok(QueryConsumingResult::Rejected(query)) };
        let Some((n, _)) = cl().whose(ctx.peer_id) else { return Ok(QueryConsumingResult::Rejected(query)) };
        let mut off = 36;
        let Ok(q) = rpc::OverlayGetRandomPeers::read_from(&query, &mut off) else { return Ok(QueryConsumingResult::Rejected(query)) };
        s.check_list(n, ov, Some(self.0), &q.peers.nodes, "in an exchange");
        let k = s.hnext.get();
        s.hnext.set(k + 1);
        let mut r = SimRng::new(rng::mix(s.seed, k), 0xA45);
        let (list, good) = s.peer_list(&mut r, self.0, ov, n);
        s.answered.borrow_mut().entry((self.0, n, ov)).or_default().push(good.keys().copied().collect());
        Ok(QueryConsumingResult::Consumed(Some(tl_proto::serialize_as_boxed(list))))
    }
}

// ------------------------------------------------------------------ scenario

pub struct Fam;
impl Family for Fam {
    fn attach(&self, n: usize, node: &Arc<adnl::Node>) {
        let s = st();
        node.add_message_subscriber(Arc::new(Tap(n))).unwrap();
        if hostile(&s.plan, n) {
            node.add_query_subscriber(Arc::new(HostileQ(n))).unwrap();
            return;
        }
        let o = overlay::Node::new(node.clone(), 0).unwrap();
        let r = if s.plan.is("rldp") {
            Some(
                rldp::Node::new(node.clone(), vec![o.query_subscriber()], rldp::NodeOptions { force_compression: s.plan.get("comp") >> n & 1 == 1, ..Default::default() }).unwrap(),
            )
        } else {
            None
        };
        let mut ovs = BTreeMap::new();
        for ov in 0..s.novs() {
            if !s.member(n, ov) {
                continue;
            }
            let id = s.oid(ov);
            if s.has_sub(n, ov) && !o.add_overlay_subscriber(id, Arc::new(OSub { n, ov })) {
                viol(&["O06"], "subscriber-refused", format!("node {n} did not take the first subscriber of overlay {ov}"));
            }
            let (x, new) = if s.private(ov) {
                let key = node.key_by_tag(s.k(ov)).unwrap().clone();
                let peers: Vec<_> = (0..s.plan.nodes.len()).filter(|m| *m != n && s.member(*m, ov)).collect();
                let ids: Vec<_> = peers.iter().map(|m| s.ident(*m, ov).short).collect();
                s.edges.borrow_mut().insert((n, ov), peers.iter().copied().collect());
                s.ever.borrow_mut().insert((n, ov), peers.iter().copied().collect());
                o.add_private_overlay(&id, key, &ids, s.options(n))
            } else {
                o.add_public_overlay(&id, s.options(n))
            };
            if !new || x.id() != &id {
                viol(&["O06"], "overlay-not-created", format!("node {n} could not create overlay {ov}"));
            }
            // doing it once more changes nothing
            if (n + ov) % 2 == 0 {
                let (y, new) = match s.private(ov) {
                    true => o.add_private_overlay(&id, node.key_by_tag(1 - s.k(ov)).unwrap().clone(), &[], s.options(n)),
                    false => o.add_public_overlay(&id, Default::default()),
                };
                let again = s.has_sub(n, ov) && o.add_overlay_subscriber(id, Arc::new(OSub { n, ov: 77 }));
                if new || again || !Arc::ptr_eq(&x, &y) || !o.get_overlay(&id).is_ok_and(|y| Arc::ptr_eq(&x, &y)) {
                    viol(&["O06"], "overlay-replaced", format!("node {n} made overlay {ov} or its subscriber anew when asked a second time"));
                }
            }
            ovs.insert(ov, x);
        }
        s.stacks.borrow_mut().insert(n, Rc::new(Stack { adnl: node.clone(), node: o, rldp: r, ovs }));
    }
    fn started(&self, n: usize, _: &Arc<adnl::Node>) {
        let s = st();
        if hostile(&s.plan, n) {
            return;
        }
        for ov in 0..s.novs() {
            if !s.member(n, ov) {
                continue;
            }
            s.steady.borrow_mut().remove(&(n, ov));
            if !s.plan.is("nowait") && s.plan.get("noconsumer") >> n & 1 == 0 {
                s.waiters(n, ov, 1, 0, 0, 0);
            }
            if s.private(ov) {
                continue;
            }
            let es: Vec<usize> = s.edges.borrow().get(&(n, ov)).map(|s| s.iter().copied().collect()).unwrap_or_default();
            for to in es {
                s.add_edge(n, ov, to);
            }
        }
    }
    fn gone(&self, n: usize) {
        let s = st();
        let x = s.stacks.borrow_mut().remove(&n);
        // what was offered is lost with the process
        s.offered.borrow_mut().retain(|k, _| k.0 != n);
        s.removed.borrow_mut().retain(|k, _| k.0 != n);
        drop(x);
    }
}

async fn op(o: &Op) {
    let c = cl();
    let s = st();
    match o {
        Op::OBcast { n, ov, len, kind, uid, key, expl } => s.bcast(*n, *ov, *len, *kind, *uid, *key, *expl),
        Op::OWait { n, ov, count, ms, gap, total } => s.waiters(*n, *ov, *count, *ms, *gap, *total),
        Op::OTwin { n, ov, len, kind, uid } => s.twin(*n, *ov, *len, *kind, *uid),
        Op::OMsg { n, ov, to, len } => s.message(*n, *ov, *to, *len),
        Op::OQuery { n, ov, to, len, rldp } => s.query(*n, *ov, *to, *len, *rldp),
        Op::OExchange { n, ov, to } => s.clone().exchange(*n, *ov, *to).await,
        Op::OAdd { n, ov, to } => {
            if s.get(*n, *ov).is_some() && !s.private(*ov) {
                s.add_edge(*n, *ov, *to);
            }
        }
        Op::ORemove { n, ov, to } => {
            if let Some((_, x)) = s.get(*n, *ov) {
                if !s.edges.borrow().get(&(*n, *ov)).is_some_and(|e| e.contains(to)) {
                    return;
                }
                let id = s.ident(*to, *ov).short;
                c.on(*n, || x.remove_public_peer(&id));
                count("peers_removed", 1);
                if x.is_active_public_peer(&id) {
                    viol(&["O06"], "removed-peer-active", format!("node {n} still lists node {to} as active in overlay {ov} after removing it"));
                }
                s.edges.borrow_mut().entry((*n, *ov)).or_default().remove(to);
                s.removed.borrow_mut().insert((*n, *ov, *to), now_ms());
                for _ in 0..3 {
                    let set = adnl::PeersSet::with_capacity(20);
                    x.write_cached_peers(20, &set);
                    if set.contains(&id) {
                        viol(&["O06"], "removed-peer-active", format!("node {n} still picks node {to} in overlay {ov} after removing it"));
                    }
                }
            }
        }
        Op::OAddBad { n, ov, kind, arg } => s.add_bad(*n, *ov, *kind, *arg),
        Op::OTake { n, ov } => s.take(*n, *ov),
        Op::OHostile { v, ov, kind, arg } => s.hostile_op(*v, *ov, *kind, *arg),
        Op::OProbe { v, ov, to, arg } => {
            let g = Pending::new(&s);
            let (v, ov, to, arg) = (*v, *ov, *to, *arg);
            let s2 = s.clone();
            spawn_local(async move {
                let _g = g;
                s2.probe(v, ov, to, arg).await;
            });
        }
        Op::OReplay { v, ov, arg } => {
            // everything it has seen of one broadcast
            let all: Vec<Vec<u8>> = s.seen.borrow().iter().filter(|x| x.0 == *ov).map(|x| x.1.clone()).collect();
            let uids: BTreeSet<u64> = all.iter().filter_map(|m| s.raws.borrow().get(&sha(m)).and_then(|r| r.uid)).collect();
            if uids.is_empty() {
                return;
            }
            let uid = uids.iter().copied().nth((*arg % uids.len() as u64) as usize).unwrap();
            count("replayed_broadcasts", 1);
            for m in all {
                if s.raws.borrow().get(&sha(&m)).and_then(|r| r.uid) == Some(uid) {
                    s.hsend_all(*v, *ov, &m, false);
                }
            }
        }
        Op::Learn { n, k, to, tk } => {
            c.learn(*n, *k, *to, *tk);
        }
        Op::Restart { n } => {
            let n = *n;
            let c2 = c.clone();
            spawn_local(async move {
                c2.restart(n).await;
            });
        }
        _ => {
            c.env_op(o).await;
        }
    }
}

pub async fn main(plan: Plan) {
    let plan = Rc::new(plan);
    let c = super::cluster::install(&plan);
    let s = Rc::new(OSt {
        plan: plan.clone(),
        seed: plan.seed,
        stacks: Default::default(),
        bs: Default::default(),
        payloads: Default::default(),
        raws: Default::default(),
        seen: Default::default(),
        edges: Default::default(),
        ever: Default::default(),
        removed: Default::default(),
        steady: Default::default(),
        reacted: Default::default(),
        pending: Cell::new(0),
        next: Cell::new(1),
        qs: Default::default(),
        ms: Default::default(),
        hnext: Cell::new(1),
        offered: Default::default(),
        answered: Default::default(),
    });
    ST.with(|x| *x.borrow_mut() = Some(s.clone()));
    *c.fam.borrow_mut() = Some(Rc::new(Fam));
    c.start_all();
    for step in &plan.steps {
        if step.at > 0 {
            sleep_until_ms(step.at).await;
            note(|| format!("{:?}", step.op));
        }
        op(&step.op).await;
    }
    sleep(Duration::from_millis(50)).await;
    if !plan.is("reliable") {
        calm();
    }
    let t0 = now_ms();
    while s.pending.get() > 0 && now_ms() < t0 + 30_000 {
        sleep(Duration::from_millis(50)).await;
    }
    sleep(Duration::from_millis(plan.settle)).await;
    for n in 0..c.len() {
        for ov in 0..s.novs() {
            let Some((_, o)) = s.get(n, ov) else { continue };
            // (a stopped process may still be standing)
            let stopped = c.nodes.borrow()[n].paused_ns > 0;
            if s.steady.borrow().get(&(n, ov)).copied().unwrap_or(0) > 0 && !hostile(&plan, n) && !stopped {
                let m = o.metrics();
                if m.received_broadcasts_data_len != 0 {
                    viol(&["O05"], "stuck-broadcasts", format!("{} received broadcasts of overlay {ov} are not handed over at node {n} although callers are waiting", m.received_broadcasts_data_len));
                }
            }
        }
    }
    // every received broadcast can be fetched
    if plan.is("nowait") {
        for n in 0..c.len() {
            for ov in 0..s.novs() {
                s.waiters(n, ov, 1, 0, 0, 0);
            }
        }
        sleep(Duration::from_millis(500)).await;
    }
    for (uid, (from, ov, to, d, times)) in s.ms.borrow().iter() {
        if *times == 0 && plan.is("reliable") {
            viol(&["O06"], "message-lost", format!("message {uid} of {} bytes in overlay {ov} from node {from} never reached node {to} on a good network", d.len()));
        }
    }
    let props: &[&str] = if plan.get("hostile") != 0 {
        &["O04"]
    } else if plan.is("nowait") {
        &["O05"]
    } else {
        &["O01"]
    };
    for (uid, b) in s.bs.borrow().iter() {
        for (x, lf) in &b.must {
            if !c.up(*x) || life(*x) != *lf {
                continue;
            }
            nontrivial();
            if !b.got.contains_key(&(*x, *lf)) {
                viol(
                    props,
                    "not-delivered",
                    format!("broadcast {uid} ({} bytes{}) of node {} in overlay {} never reached node {x}; {} of {} nodes got it", b.len, if b.fec { ", coded" } else { "" }, b.n, b.ov, b.got.len(), b.must.len()),
                );
                break;
            }
        }
    }
    if plan.is("burn_check") {
        let s0 = with(|w| w.steps);
        sleep(Duration::from_millis(1500)).await;
        let s1 = with(|w| w.steps);
        count("idle_steps", s1 - s0);
        if s1 - s0 > 2_000 + 1500 * plan.nodes.len() as u64 * plan.get("idle_factor").max(1) as u64 {
            viol(&["O05"], "busy-waiting", format!("{} tasks were polled in 1.5 s in which nothing happened", s1 - s0));
        }
    }
    if plan.is("drain_check") {
        drain_check(&s).await;
    }
}

async fn drain_check(s: &Rc<OSt>) {
    let c = cl();
    let p = s.plan.clone();
    calm();
    let t = s.timeout_ms();
    // a coded broadcast is dropped one lifetime after its last part, checked every tenth of it, and kept for another lifetime
    let wait = 2 * t + t / 10 + 2 * p.get("gc_ms") as u64 + s.slack_ms() + 2_000;
    let log = p.get("log") as u64;
    let left = wait.saturating_sub(0);
    sleep(Duration::from_millis(left)).await;
    for n in 0..c.len() {
        for ov in 0..s.novs() {
            let Some((_, o)) = s.get(n, ov) else { continue };
            let m = o.metrics();
            nontrivial();
            if m.owned_broadcasts_len as u64 > log {
                viol(
                    &["O08"],
                    "records-left-behind",
                    format!("node {n} keeps {} broadcast records of overlay {ov} {wait} ms after the last one, the log is limited to {log}", m.owned_broadcasts_len),
                );
            }
            if m.finished_broadcasts_len as u64 > log {
                viol(&["O08"], "log-too-long", format!("node {n} keeps {} finished broadcasts of overlay {ov}, the log is limited to {log}", m.finished_broadcasts_len));
            }
            if m.received_broadcasts_data_len != 0 && p.get("noconsumer") >> n & 1 == 0 {
                viol(&["O05"], "stuck-broadcasts", format!("{} received broadcasts of overlay {ov} were never handed over at node {n}", m.received_broadcasts_data_len));
            }
        }
    }
}

// ------------------------------------------------------------------ generator

pub fn info(p: &str) -> Option<&'static str> {
    Some(match p {
        "O01" => "a broadcast was due at other members and its delivery was checked",
        "O02" => "a broadcast was delivered or forwarded and counted",
        "O03" => "a delivered broadcast was compared with what was made",
        "O04" => "a broadcast was due at other members although hostile packets were sent",
        "O05" => "a broadcast was handed to a waiting caller",
        "O06" => "an overlay message, query or peer list was checked against the membership",
        "O07" => "a list of overlay peers was checked",
        "O08" => "the broadcast tables of a node were inspected after the lifetime",
        _ => return None,
    })
}

/// Undirected edges of a connected graph over `m`
fn topology(rng: &mut SimRng, m: &[usize], near: bool) -> Vec<(usize, usize)> {
    let n = m.len();
    let mut e = BTreeSet::new();
    match if near { 2 + rng.below(2) } else { rng.below(5) } {
        // line
        0 => (1..n).for_each(|i| {
            e.insert((i - 1, i));
        }),
        // ring
        1 => (0..n).for_each(|i| {
            let j = (i + 1) % n;
            if i != j {
                e.insert((i.min(j), i.max(j)));
            }
        }),
        // star
        2 => (1..n).for_each(|i| {
            e.insert((0, i));
        }),
        // all
        3 => (0..n).for_each(|i| {
            (i + 1..n).for_each(|j| {
                e.insert((i, j));
            })
        }),
        // random tree with some cycles
        _ => {
            for i in 1..n {
                e.insert((rng.below(i as u64) as usize, i));
            }
            for _ in 0..rng.below(n as u64) {
                let (a, b) = (rng.below(n as u64) as usize, rng.below(n as u64) as usize);
                if a != b {
                    e.insert((a.min(b), a.max(b)));
                }
            }
        }
    }
    e.into_iter().map(|(a, b)| (m[a], m[b])).collect()
}

fn any_len(rng: &mut SimRng, maxord: usize, big: f64) -> usize {
    if rng.chance(big) {
        return rng.range(20_000, 150_000) as usize;
    }
    let m = maxord as u64;
    (match rng.below(8) {
        0 => rng.range(8, 40),
        1 => rng.range(8, m.max(9) + 1),
        2 => m,
        3 => m + 1,
        4 => *rng.pick(&[767, 768, 769, 1535, 1536, 1537, 2304, 3840, 7680]),
        5 | 6 => rng.range(m + 1, m + 8_000),
        _ => rng.range(2_000, 20_000),
    } as usize)
        .max(8)
}

pub fn generate(p: &str, index: u64, seed: u64, rng: &mut SimRng, thorough: bool) -> Plan {
    let mut plan = Plan::new(p, "overlay", index, seed);
    let deep: u64 = if thorough { 2 } else { 1 };
    let n = match p {
        "O05" => rng.range(2, 3),
        "O01" | "O02" | "O04" => rng.range(2, 6 + deep),
        _ => rng.range(2, 5),
    } as usize;
    let multi = match p {
        "O06" => rng.range(2, 3) as usize,
        "O05" => 1,
        _ => *rng.pick(&[1, 1, 1, 2]),
    };
    for i in 0..n {
        let mut s = NodeSpec::random(i, rng);
        s.keys = vec![100 * (i as u64 + 1), 100 * (i as u64 + 1) + 1];
        s.query_timeout = 2000;
        plan.nodes.push(s);
    }
    plan.set("ovs", multi as i64);
    plan.set("maxn", 200);
    plan.set("log", *rng.pick(&[1000i64, 1000, 5]));
    plan.set("gc_ms", *rng.pick(&[1000i64, 1000, 100, 300]));
    plan.set("peers_ms", *rng.pick(&[60_000i64, 500, 2_000]));
    let maxord = *rng.pick(&[768usize, 768, 768, 1000, 200, 40]);
    plan.set("maxord", maxord as i64);
    let (w, wi) = *rng.pick(&[(20i64, 10i64), (20, 10), (5, 10), (1, 2), (50, 30)]);
    plan.set("wave", w);
    plan.set("wave_ms", wi);
    plan.set("btimeout", 60);
    plan.set("hmax", 6);
    if rng.chance(0.5) {
        plan.set("comp", rng.below(1 << n) as i64);
    }
    plan.set("static", 1);
    plan.set("prompt", 1);

    // who is hostile
    let mut hostile = 0u64;
    match p {
        "O03" | "O04" | "O07" => {
            hostile |= 1 << rng.below(n as u64);
            if n > 3 && rng.chance(0.3) {
                hostile |= 1 << rng.below(n as u64);
            }
        }
        "O08" if rng.chance(0.8) => hostile |= 1 << rng.below(n as u64),
        _ => {}
    }
    plan.set("hostile", hostile as i64);

    // some loss: coded broadcasts with many symbols get through over one or two hops
    let lossy = p == "O01" && rng.chance(0.3);

    // members and edges
    let mut edges: Vec<Vec<(usize, usize)>> = vec![];
    let mut mem: Vec<u64> = vec![];
    let mut degree = 0usize;
    for o in 0..multi {
        let private = rng.chance(0.25) && p != "O07";
        let mut m = (1u64 << n) - 1;
        if p == "O06" || (multi > 1 && rng.chance(0.5)) {
            m = rng.below(1 << n);
            while (m.count_ones() as usize) < 2 {
                m |= 1 << rng.below(n as u64);
            }
        }
        plan.set(&format!("mem{o}"), m as i64);
        plan.set(&format!("priv{o}"), private as i64);
        if p == "O06" && rng.chance(0.4) {
            // members that serve no queries in this overlay
            plan.set(&format!("nosub{o}"), rng.below(1 << n) as i64);
        }
        mem.push(m);
        let list: Vec<usize> = (0..n).filter(|i| m >> i & 1 == 1).collect();
        // hostile hosts are known to everybody; what the honest ones share must connect them on its own
        let honest: Vec<usize> = list.iter().copied().filter(|i| hostile >> i & 1 == 0).collect();
        let mut e = if private { topology_all(&list) } else { topology(rng, &honest, lossy) };
        if !private {
            for v in list.iter().filter(|i| hostile >> *i & 1 == 1) {
                for h in &honest {
                    if rng.chance(0.8) {
                        e.push((*h, *v));
                    }
                }
            }
        }
        for i in &list {
            degree = degree.max(e.iter().filter(|(a, b)| a == i || b == i).count());
        }
        edges.push(e);
    }
    let cut = match p {
        "O02" | "O06" | "O08" => rng.chance(0.6),
        _ => false,
    };
    let d = degree.max(1) as i64;
    if cut {
        plan.set("noflood", 1);
        for k in ["bt", "st", "sft"] {
            plan.set(k, rng.range(1, 5) as i64);
        }
        plan.set("maxn", *rng.pick(&[200i64, 200, 1, 2, 3]));
        if plan.get("maxn") < d {
            plan.set("static", 0);
        }
    } else {
        // everyone passes on to all it knows
        plan.set("bt", d + *rng.pick(&[0i64, 0, 3]));
        for k in ["st", "sft"] {
            plan.set(k, (d - 1).max(1) + *rng.pick(&[0i64, 0, 1, 5]));
        }
    }

    // faults
    let k = &mut plan.knobs;
    match p {
        "O02" => {
            *k = Knobs::swarm(rng);
            k.corrupt = 0.0;
            k.truncate = 0.0;
            if rng.chance(0.7) {
                k.add_dups(rng);
            }
        }
        "O03" | "O08" => {
            *k = Knobs::swarm(rng);
        }
        "O07" => {
            *k = if rng.chance(0.6) { Knobs::lossless(rng) } else { Knobs::swarm(rng) };
        }
        "O05" => {
            *k = Knobs::lossless(rng);
            k.stall_max_us = k.stall_max_us.min(5_000);
        }
        _ => {
            *k = Knobs::lossless(rng);
            if rng.chance(0.4) {
                k.add_dups(rng);
            }
        }
    }
    let mut t0 = 1500 + 6 * (k.lat_max_us + k.reorder_max_us + k.stall_max_us) / 1000;
    if matches!(p, "O01" | "O04" | "O05" | "O06") {
        plan.set("reliable", 1);
        // bursts that are reordered further than the window of the packets history lose packets by design
        for s in plan.nodes.iter_mut() {
            s.history = false;
        }
    }
    if rng.chance(0.3) && !matches!(p, "O03" | "O08") {
        for s in plan.nodes.iter_mut() {
            s.skew_ms = *rng.pick(&[0i64, 0, -2_000, 3_000, 500, -700]);
        }
        plan.set("prompt", 0);
    }

    // everybody meets everybody
    for a in 0..n {
        for b in 0..n {
            if a != b {
                for k in 0..2 {
                    plan.push(0, Op::Learn { n: a, k, to: b, tk: k });
                }
            }
        }
    }
    for o in 0..multi {
        let private = plan.is(&format!("priv{o}"));
        for (a, b) in edges[o].clone() {
            for (a, b) in [(a, b), (b, a)] {
                if hostile >> a & 1 == 1 {
                    continue;
                }
                if !private {
                    plan.push(0, Op::OAdd { n: a, ov: o, to: b });
                }
                for t in [1, 2 + t0 / 3] {
                    plan.push(t, Op::OExchange { n: a, ov: o, to: b });
                }
            }
        }
    }
    if p == "O01" && rng.chance(0.15) {
        let x = rng.below(n as u64) as usize;
        plan.push(t0 / 2, Op::Crash { n: x });
        plan.push(t0 / 2 + rng.range(10, 1500), Op::Restart { n: x });
        let t = t0;
        t0 += 9_000;
        for (o, es) in edges.iter().enumerate() {
            for (a, b) in es {
                if *a == x || *b == x {
                    for i in 0..4 {
                        plan.push(t + 2_000 * i, Op::OExchange { n: *a, ov: o, to: *b });
                        plan.push(t + 2_000 * i, Op::OExchange { n: *b, ov: o, to: *a });
                    }
                }
            }
        }
    }
    if lossy {
        for a in 0..n {
            for b in a + 1..n {
                plan.push(t0 - 1, Op::LinkLoss { a, b, pct: 1 });
            }
        }
    }
    let honest_of = |o: usize| -> Vec<usize> { (0..n).filter(|i| mem[o] >> i & 1 == 1 && hostile >> i & 1 == 0).collect() };
    let hosts: Vec<usize> = (0..n).filter(|i| hostile >> i & 1 == 1).collect();
    let span = *rng.pick(&[2u64, 50, 500, 3000]);
    let ops = match p {
        "O05" => rng.range(1, 40 * deep),
        _ => rng.range(1, 10 * deep),
    };
    let mut uid = 0u64;
    let mut bcasts: Vec<(u64, u64, usize)> = vec![];
    for _ in 0..ops {
        let o = rng.below(multi as u64) as usize;
        let h = honest_of(o);
        if h.is_empty() {
            continue;
        }
        uid += 1;
        let at = t0 + rng.below(span);
        let mut len = match p {
            "O05" if rng.chance(0.8) => rng.range(8, 60) as usize,
            "O04" => any_len(rng, maxord, 0.01),
            _ => any_len(rng, maxord, 0.03),
        };
        if lossy {
            len = len.max(rng.range(20_000, 60_000) as usize);
        }
        let kind = if lossy { 0 } else { rng.below(4) as u8 };
        let key = rng.chance(0.2) as u8;
        let expl = rng.chance(0.1);
        let from = *rng.pick(&h);
        plan.push(at, Op::OBcast { n: from, ov: o, len, kind, uid, key, expl });
        bcasts.push((at, uid, o));
        if matches!(p, "O01" | "O02" | "O03") && !lossy && len > maxord && rng.chance(0.25) {
            let m = *rng.pick(&h);
            let d = *rng.pick(&[1u64, 5, 30, 100, 400]);
            if m != from {
                plan.push(at + rng.below(d), Op::OTwin { n: m, ov: o, len, kind, uid });
            }
        }
    }
    plan.settle = 1500 + 8 * (plan.knobs.lat_max_us + plan.knobs.reorder_max_us + plan.knobs.stall_max_us) / 1000 + 400 * wi as u64 / w as u64;
    let end = t0 + span;
    match p {
        "O02" => {
            if rng.chance(0.4) {
                let x = rng.below(n as u64) as usize;
                let at = t0 + rng.below(span + 100);
                plan.push(at, Op::Crash { n: x });
                plan.push(at + rng.range(10, 3000), Op::Restart { n: x });
            }
            if rng.chance(0.3) {
                let x = rng.below(n as u64) as usize;
                plan.push(t0 + rng.below(span + 100), Op::Pause { n: x, ms: *rng.pick(&[50u64, 700, 3000]) });
                plan.set("prompt", 0);
            }
        }
        "O03" => {
            let t = *rng.pick(&[3u64, 5, 10, 60]);
            plan.set("btimeout", t as i64);
            for _ in 0..rng.range(1, 12 * deep) {
                let o = rng.below(multi as u64) as usize;
                let kind = *rng.pick(&[2u8, 3, 4, 6, 7, 7, 8, 9, 10, 11, 12, 12, 13]);
                let arg = if kind == 2 { rng.range(1, uid.max(1) + 1) } else { rng.next() % 1_000_000 };
                plan.push(t0 + rng.below(span + 500), Op::OHostile { v: *rng.pick(&hosts), ov: o, kind, arg });
            }
            if rng.chance(0.7) {
                plan.set("aged", 1);
                for _ in 0..rng.range(1, 6) {
                    let at = match rng.below(3) {
                        0 => end + rng.below(1000 * t),
                        // once everything has expired and is forgotten
                        1 => end + 2_200 * t + 3_000 + rng.below(3_000),
                        _ => end + 1000 * t + rng.below(2_500),
                    };
                    plan.push(at, Op::OReplay { v: *rng.pick(&hosts), ov: rng.below(multi as u64) as usize, arg: rng.next() % 1000 });
                }
            }
        }
        "O04" => {
            for _ in 0..if bcasts.is_empty() { 0 } else { rng.range(1, 10 * deep) } {
                let (at, u, o) = *rng.pick(&bcasts);
                let v = *rng.pick(&hosts);
                let kind = *rng.pick(&[0u8, 1, 1, 2, 2, 4, 5, 6, 7, 8, 9, 10, 12]);
                let early = *rng.pick(&[0u64, 1, 20, 300, 1400]);
                let t = if rng.chance(0.8) { at.saturating_sub(early) } else { at + rng.below(60) };
                plan.push(t.max(2), Op::OHostile { v, ov: o, kind, arg: if kind <= 2 { u } else { rng.next() % 1_000_000 } });
            }
        }
        "O05" => {
            plan.set("nowait", 1);
            plan.set("burn_check", 1);
            for x in 0..n {
                for _ in 0..rng.below(4) {
                    let count = rng.range(1, 8) as usize;
                    let at = if rng.chance(0.5) { 1 } else { t0 + rng.below(span + 200) };
                    match rng.below(4) {
                        // waits and gives up, again and again
                        0 | 1 => {
                            let ms = *rng.pick(&[20u64, 300, 2_000, 30_000, 400_000]);
                            let gap = *rng.pick(&[1u64, 50, 1_000, 100_000]);
                            let total = 1 + (t0 + span + 3_000) * 1000 / (ms + gap);
                            plan.push(at, Op::OWait { n: x, ov: 0, count, ms, gap, total: total.min(400 / count as u64) });
                        }
                        // a few, then gone
                        2 => plan.push(at, Op::OWait { n: x, ov: 0, count, ms: 0, gap: *rng.pick(&[0u64, 100, 5_000]), total: rng.range(1, 3) }),
                        _ => plan.push(at, Op::OWait { n: x, ov: 0, count, ms: 0, gap: 0, total: 0 }),
                    }
                }
            }
        }
        "O06" => {
            if rng.chance(0.4) {
                plan.set("rldp", 1);
            }
            for _ in 0..rng.range(2, 12 * deep) {
                let o = rng.below(multi as u64) as usize;
                let h = honest_of(o);
                let from = *rng.pick(&h);
                let to = rng.below(n as u64) as usize;
                let at = t0 + rng.below(span + 500);
                if to == from {
                    continue;
                }
                match rng.below(6) {
                    0 | 1 => plan.push(at, Op::OQuery { n: from, ov: o, to, len: rng.range(1, 3000) as usize, rldp: plan.is("rldp") && rng.chance(0.4) }),
                    2 => plan.push(at, Op::OExchange { n: from, ov: o, to }),
                    3 => plan.push(at, Op::OMsg { n: from, ov: o, to, len: *rng.pick(&[0usize, 10, 300, 900, 1_000, 1_100, 3_000, 9_000]) + rng.below(60) as usize }),
                    _ => {
                        let es: Vec<_> = edges[o].iter().copied().collect();
                        if plan.is(&format!("priv{o}")) || es.is_empty() {
                            continue;
                        }
                        // removals break the paths a broadcast relies on: nothing is due then
                        plan.set("noflood", 1);
                        let (a, b) = *rng.pick(&es);
                        let (a, b) = if rng.chance(0.5) { (a, b) } else { (b, a) };
                        plan.push(at, Op::ORemove { n: a, ov: o, to: b });
                        if rng.chance(0.4) {
                            plan.push(at + *rng.pick(&[1u64, 300, 2500]), Op::OAdd { n: a, ov: o, to: b });
                        }
                        for _ in 0..rng.below(3) {
                            uid += 1;
                            let len = any_len(rng, maxord, 0.0);
                            let h = honest_of(o);
                            let nb = if rng.chance(0.6) { a } else { *rng.pick(&h) };
                            plan.push(
                                at + *rng.pick(&[1u64, 100, 1500, 4000]),
                                Op::OBcast { n: nb, ov: o, len, kind: 0, uid, key: 0, expl: false },
                            );
                        }
                    }
                }
            }
            plan.set("gc_ms", *rng.pick(&[100i64, 300, 1000]));
            plan.settle += *rng.pick(&[0u64, 5_000]);
        }
        "O07" => {
            for _ in 0..rng.range(3, 25 * deep) {
                let o = rng.below(multi as u64) as usize;
                let h = honest_of(o);
                let Some(x) = h.get(rng.below(h.len().max(1) as u64) as usize).copied() else { continue };
                let at = t0 + rng.below(span + 2000);
                match rng.below(6) {
                    0 | 1 => plan.push(at, Op::OProbe { v: *rng.pick(&hosts), ov: o, to: x, arg: rng.next() % 1_000_000 }),
                    2 => plan.push(at, Op::OTake { n: x, ov: o }),
                    3 => {
                        let to = rng.below(n as u64) as usize;
                        if to != x {
                            plan.push(at, Op::OExchange { n: x, ov: o, to });
                        }
                    }
                    4 => plan.push(at, Op::OExchange { n: x, ov: o, to: *rng.pick(&hosts) }),
                    _ => plan.push(at, Op::OAddBad { n: x, ov: o, kind: rng.below(6) as u8, arg: rng.next() % 1000 }),
                }
            }
            let last = t0 + span + 6_000;
            for o in 0..multi {
                for x in honest_of(o) {
                    plan.push(last, Op::OTake { n: x, ov: o });
                }
            }
        }
        "O08" => {
            let t = *rng.pick(&[2u64, 3, 6, 10]);
            plan.set("btimeout", t as i64);
            plan.set("log", *rng.pick(&[0i64, 1, 3, 10, 1000]));
            plan.set("gc_ms", *rng.pick(&[50i64, 200, 1000]));
            plan.set("drain_check", 1);
            plan.set("aged", 1);
            if rng.chance(0.3) {
                // users who never ask for broadcasts
                plan.set("noconsumer", rng.below(1 << n) as i64);
            }
            if !hosts.is_empty() {
                for _ in 0..rng.range(1, 14 * deep) {
                    let o = rng.below(multi as u64) as usize;
                    let kind = *rng.pick(&[3u8, 4, 5, 5, 5, 6, 9, 10, 12, 7]);
                    plan.push(t0 + rng.below(span + 500 * t), Op::OHostile { v: *rng.pick(&hosts), ov: o, kind, arg: rng.next() % 1_000_000 });
                }
                for _ in 0..rng.below(6) {
                    let at = t0 + rng.below(span + 1100 * t);
                    plan.push(at, Op::OReplay { v: *rng.pick(&hosts), ov: rng.below(multi as u64) as usize, arg: rng.next() % 1000 });
                }
            }
        }
        _ => {}
    }
    plan
}

fn topology_all(m: &[usize]) -> Vec<(usize, usize)> {
    let mut e = vec![];
    for (i, a) in m.iter().enumerate() {
        for b in &m[i + 1..] {
            e.push((*a, *b));
        }
    }
    e
}
