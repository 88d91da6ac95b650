//! DHT scenarios: properties D01..D06
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::net::{Ipv4Addr, SocketAddrV4};
use std::rc::Rc;
use std::sync::Arc;

use everscale_network::adnl::{self, NodeIdShort};
use everscale_network::crypto::{ed25519, tl};
use everscale_network::proto::{self, dht as pd, rpc};
use everscale_network::{dht, overlay, NetworkBuilder, QueryConsumingResult, QuerySubscriber, SubscriberContext};
use futures_util::StreamExt;
use simcore::rt::spawn_local;
use simcore::time::{sleep, timeout, Duration};
use simcore::*;
use tl_proto::{BoxedConstructor, BoxedWrapper, TlRead, TlWrite};

use super::adnl::life;
use super::cluster::*;
use crate::codec;
use crate::plan::*;
use crate::rec::{count, nontrivial, note, viol};

#[derive(Clone, Debug, TlRead, TlWrite)]
#[tl(boxed, id = 0x5eed0021)]
struct Val {
    uid: u64,
    data: Vec<u8>,
}

const GHOSTS: usize = 3;
const GHOST0: usize = 100;

/// What is known about a signed value or overlay list held by one life of a node
#[derive(Clone, Default)]
struct Obs {
    /// newest value seen there
    ttl: u32,
    hash: u64,
    seen: bool,
    /// a store of this expiry was confirmed
    floor: u32,
    /// overlay lists: newest version seen per node
    versions: BTreeMap<[u8; 32], u32>,
    /// overlay lists: versions in confirmed stores
    floors: BTreeMap<[u8; 32], u32>,
    floors_ttl: u32,
}

type ObsKey = (usize, u32, [u8; 32]);

pub struct DSt {
    plan: Rc<Plan>,
    seed: u64,
    base: u32,
    host: usize,
    next: Cell<u64>,
    hq: Cell<u64>,
    pub pending: Cell<usize>,
    max_ttl: Cell<u32>,
    stacks: RefCell<BTreeMap<usize, Arc<dht::Node>>>,
    /// values honest owners signed: key id -> uid -> (expiry, data)
    vals: RefCell<BTreeMap<[u8; 32], BTreeMap<u64, (u32, Vec<u8>)>>>,
    /// keys in use: (owner ident seed, name, idx)
    keys: RefCell<BTreeMap<[u8; 32], KeyName>>,
    /// addresses published by an identity in signed values or records
    addrs: RefCell<BTreeMap<[u8; 32], BTreeSet<SocketAddrV4>>>,
    obs: RefCell<BTreeMap<ObsKey, Obs>>,
    /// counts clock jumps and restarts of a node
    epoch: RefCell<Vec<u32>>,
    sent: RefCell<Vec<Vec<u8>>>,
    /// records of ghosts given to a node for sure: (node, life, ghost) -> newest version
    given: RefCell<BTreeMap<(usize, u32, usize), u32>>,
    given_real: RefCell<BTreeMap<(usize, u32, usize), u32>>,
    /// newest version seen in the ADNL address, in the buckets
    gaddr: RefCell<BTreeMap<(usize, u32, usize), u32>>,
    gbucket: RefCell<BTreeMap<(usize, u32, usize), u32>>,
    /// records of nodes by node and life
    boot: RefCell<BTreeMap<usize, Vec<usize>>>,
    disturbed: RefCell<BTreeSet<usize>>,
    /// crowd records given: (node, life, peer id) -> newest version
    crowd: RefCell<BTreeMap<(usize, u32, [u8; 32]), u32>>,
    /// own records seen: (node, life) -> (version, expiry)
    own: RefCell<BTreeMap<(usize, u32), (u32, u32)>>,
}

#[derive(Clone, Debug)]
struct KeyName {
    owner: u64,
    name: String,
    idx: u32,
    kind: KeyKind,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum KeyKind {
    App,
    Addr,
    Overlay(u64),
    /// a list of an overlay's nodes under a key no lookup asks for
    OverlayAt(u64),
}

thread_local! {
    static ST: RefCell<Option<Rc<DSt>>> = const { RefCell::new(None) };
}
pub fn st() -> Rc<DSt> {
    ST.with(|s| s.borrow().clone().expect("no dht state"))
}
pub fn clear() {
    let s = ST.with(|s| s.borrow_mut().take());
    if let Some(s) = s {
        let x = std::mem::take(&mut *s.stacks.borrow_mut());
        drop(x);
    }
}

fn ghost_seed(g: usize) -> u64 {
    90_000 + g as u64
}

pub fn overlay_full(ov: u64) -> overlay::IdFull {
    overlay::IdFull::for_workchain_overlay(ov as i32, &[7; 32])
}

/// Checks a signature without the code under test
pub fn sig_ok(key: &tl::PublicKey<'_>, msg: impl TlWrite, sig: &[u8]) -> bool {
    let (Some(k), Ok(s)) = (ed25519::PublicKey::from_tl(*key), <[u8; 64]>::try_from(sig)) else { return false };
    k.verify(msg, &s)
}

pub fn record_ok(r: &pd::Node<'_>) -> bool {
    let mut m = *r;
    m.signature = &[];
    sig_ok(&r.id, m.as_boxed(), r.signature)
}

pub fn overlay_node_ok(ov: &[u8; 32], n: &proto::overlay::Node<'_>) -> bool {
    if n.overlay != ov {
        return false;
    }
    let id = tl_proto::hash(n.id);
    sig_ok(&n.id, proto::overlay::NodeToSign { id: &id, overlay: n.overlay, version: n.version }, n.signature)
}

pub fn sign_overlay_node(seed: u64, ov: &[u8; 32], version: u32) -> proto::overlay::NodeOwned {
    let k = codec::make_key(seed);
    let s = k.sign(proto::overlay::NodeToSign { id: k.id().as_slice(), overlay: ov, version });
    proto::overlay::NodeOwned { id: k.full_id().as_tl().as_equivalent_owned(), overlay: *ov, version, signature: s.to_vec().into() }
}

fn addr_list(addr: SocketAddrV4, version: u32, reinit: u32, expire: u32) -> proto::adnl::AddressList {
    proto::adnl::AddressList { address: Some(proto::adnl::Address::from(&addr)), version, reinit_date: reinit, expire_at: expire }
}

fn make_record(seed: u64, sign_with: u64, list: proto::adnl::AddressList, version: u32) -> pd::NodeOwned {
    let k = codec::make_key(seed);
    let mut r = pd::NodeOwned { id: k.full_id().as_tl().as_equivalent_owned(), addr_list: list, version, signature: Default::default() };
    r.signature = codec::make_key(sign_with).sign(r.as_boxed()).to_vec().into();
    r
}

fn make_value(seed: u64, name: &str, idx: u32, value: &[u8], ttl: u32) -> pd::ValueOwned {
    let k = codec::make_key(seed);
    let mut v = pd::Value {
        key: pd::KeyDescription {
            key: pd::Key { id: k.id().as_slice(), name: name.as_bytes(), idx },
            id: k.full_id().as_tl(),
            update_rule: pd::UpdateRule::Signature,
            signature: &[],
        },
        value,
        ttl,
        signature: &[],
    };
    let ks = k.sign(v.key.as_boxed());
    v.key.signature = &ks;
    let vs = k.sign(v.as_boxed());
    v.signature = &vs;
    v.as_equivalent_owned()
}

fn overlay_value(ov: u64, nodes: &[proto::overlay::NodeOwned], ttl: u32) -> pd::ValueOwned {
    let full = overlay_full(ov);
    let short = full.compute_short_id();
    let mut data = proto::overlay::Nodes::TL_ID.to_le_bytes().to_vec();
    data.extend_from_slice(&(nodes.len() as u32).to_le_bytes());
    for n in nodes {
        n.write_to(&mut data);
    }
    pd::Value {
        key: pd::KeyDescription {
            key: pd::Key { id: short.as_slice(), name: b"nodes", idx: 0 },
            id: tl::PublicKey::Overlay { name: full.as_slice() },
            update_rule: pd::UpdateRule::OverlayNodes,
            signature: &[],
        },
        value: &data,
        ttl,
        signature: &[],
    }
    .as_equivalent_owned()
}

/// Why a stored or returned value is not authorised, judged without the code under test
fn value_bad(v: &pd::Value<'_>, key_id: &[u8; 32]) -> Option<&'static str> {
    if &tl_proto::hash_as_boxed(v.key.key) != key_id {
        return Some("it is for another key");
    }
    if v.key.key.id != &tl_proto::hash(v.key.id) {
        return Some("its key does not belong to the listed owner");
    }
    match v.key.update_rule {
        pd::UpdateRule::Signature => {
            let mut k = v.key;
            k.signature = &[];
            if !sig_ok(&v.key.id, k.as_boxed(), v.key.signature) {
                return Some("its key description is not signed by the owner");
            }
            let mut m = *v;
            m.signature = &[];
            if !sig_ok(&v.key.id, m.as_boxed(), v.signature) {
                return Some("the value is not signed by the owner");
            }
            None
        }
        pd::UpdateRule::OverlayNodes => {
            let tl::PublicKey::Overlay { .. } = v.key.id else { return Some("an overlay list under a key that is no overlay") };
            if v.key.key.name != b"nodes" || v.key.key.idx != 0 {
                return Some("an overlay list under a wrong name");
            }
            let Ok(proto::overlay::Nodes { nodes }) = tl_proto::deserialize_as_boxed::<proto::overlay::Nodes>(v.value) else {
                return Some("a damaged overlay list");
            };
            if nodes.iter().any(|n| !overlay_node_ok(v.key.key.id, n)) {
                return Some("it lists a node without a valid record");
            }
            None
        }
        _ => Some("nobody authorised it"),
    }
}

impl DSt {
    fn n_real(&self) -> usize {
        self.host
    }
    fn uid(&self) -> u64 {
        let u = self.next.get();
        self.next.set(u + 1);
        u
    }
    fn dht(&self, n: usize) -> Option<Arc<dht::Node>> {
        if !cl().up(n) {
            return None;
        }
        self.stacks.borrow().get(&n).cloned()
    }
    fn wall(&self, n: usize) -> u32 {
        wall_secs(cl().sid(n))
    }
    fn key_id(&self, k: &KeyName) -> [u8; 32] {
        match k.kind {
            KeyKind::Overlay(ov) => {
                let s = overlay_full(ov).compute_short_id();
                tl_proto::hash_as_boxed(pd::Key { id: s.as_slice(), name: b"nodes", idx: 0 })
            }
            KeyKind::OverlayAt(ov) => {
                let s = overlay_full(ov).compute_short_id();
                tl_proto::hash_as_boxed(pd::Key { id: s.as_slice(), name: k.name.as_bytes(), idx: k.idx })
            }
            _ => tl_proto::hash_as_boxed(pd::Key { id: ident(k.owner).short.as_slice(), name: k.name.as_bytes(), idx: k.idx }),
        }
    }
    fn key_limits(&self) -> (usize, u32) {
        let d = dht::NodeOptions::default();
        match (self.plan.get("key_name") as usize, self.plan.get("key_idx") as u32) {
            (0, _) | (_, 0) => (d.max_key_name_len, d.max_key_index),
            x => x,
        }
    }
    fn use_key(&self, k: KeyName) -> [u8; 32] {
        let id = self.key_id(&k);
        self.keys.borrow_mut().entry(id).or_insert(k);
        id
    }
    /// owner: node index or GHOST0 + ghost
    fn owner_seed(&self, who: usize) -> u64 {
        if who >= GHOST0 {
            ghost_seed((who - GHOST0) % GHOSTS)
        } else {
            self.plan.nodes[who % self.n_real()].keys[0]
        }
    }
    fn app_key(&self, who: usize, id: u64) -> KeyName {
        KeyName { owner: self.owner_seed(who), name: format!("app{}", id % 3), idx: (id / 3 % 4) as u32, kind: KeyKind::App }
    }
    fn addr_key(&self, who: usize) -> KeyName {
        KeyName { owner: self.owner_seed(who), name: "address".into(), idx: 0, kind: KeyKind::Addr }
    }
    fn ov_key(&self, ov: u64) -> KeyName {
        KeyName { owner: 0, name: "nodes".into(), idx: 0, kind: KeyKind::Overlay(ov) }
    }
    fn note_val(&self, key: [u8; 32], v: &Val, ttl: u32) {
        self.vals.borrow_mut().entry(key).or_default().insert(v.uid, (ttl, v.data.clone()));
    }
    fn new_val(&self, len: usize) -> Val {
        let uid = self.uid();
        let mut data = vec![0u8; len];
        SimRng::new(self.seed ^ uid, 0xd1).fill(&mut data);
        Val { uid, data }
    }

    // ---------------------------------------------------------------- records of nodes

    fn ghost_addr(&self, g: usize, version: u32) -> SocketAddrV4 {
        SocketAddrV4::new(Ipv4Addr::new(10, 0, 249, g as u8 + 1), (10_000 + version + 2000 - self.base) as u16)
    }
    fn ghost_version(&self, g: usize, a: SocketAddrV4) -> Option<u32> {
        if *a.ip() != Ipv4Addr::new(10, 0, 249, g as u8 + 1) || a.port() < 10_000 {
            return None;
        }
        Some(a.port() as u32 - 10_000 + self.base - 2000)
    }
    fn ghost_record(&self, g: usize, version: u32) -> pd::NodeOwned {
        let s = ghost_seed(g);
        make_record(s, s, addr_list(self.ghost_addr(g, version), version, self.base - 3000, 0), version)
    }
    /// The record a node of the cluster publishes in its present (or an earlier) life
    fn real_record(&self, m: usize, back: usize) -> pd::NodeOwned {
        let l = cl().lives(m);
        let l = &l[l.len() - 1 - back.min(l.len() - 1)];
        let s = self.plan.nodes[m].keys[0];
        self.addrs.borrow_mut().entry(*ident(s).short.as_slice()).or_default().insert(l.addr);
        make_record(s, s, addr_list(l.addr, l.start_time, l.start_time, 0), l.start_time)
    }
    /// A record nobody may use; kinds 1..=7
    fn bad_record(&self, who: usize, kind: u8, ver: u64, victim: usize) -> pd::NodeOwned {
        let s = self.owner_or_host(who);
        let host = self.plan.nodes[self.host].keys[0];
        let evil = SocketAddrV4::new(Ipv4Addr::new(10, 0, 248, 1 + (ver % 200) as u8), 666);
        let v = self.base + 1000 + (ver % 1000) as u32;
        let w = self.wall(victim);
        match kind {
            1 => {
                let mut r = make_record(s, s, addr_list(evil, v, self.base, 0), v);
                let mut b = r.signature.to_vec();
                match ver % 7 {
                    0 => b.clear(),
                    1 => b.truncate((ver / 7 % 64) as usize),
                    2 => b.push(0),
                    _ => b[(ver % 64) as usize] ^= 1 << (ver % 8),
                }
                r.signature = b.into();
                r
            }
            2 => make_record(s, host ^ 1, addr_list(evil, v, self.base, 0), v),
            3 => make_record(s, s, addr_list(evil, v, self.base, w - 5 - (ver % 100) as u32), v),
            4 => {
                let d = w + self.plan.nodes[victim].clock_tolerance + 30 + (ver % 1000) as u32;
                make_record(s, s, addr_list(evil, v, d, 0), v)
            }
            5 => {
                let mut l = addr_list(evil, v, self.base, 0);
                l.address = None;
                make_record(s, s, l, v)
            }
            6 => {
                let mut r = make_record(s, s, addr_list(evil, v, self.base, w - 5), v);
                r.version += 1;
                r.addr_list.expire_at = 0;
                r
            }
            _ => {
                let mut r = make_record(s, s, addr_list(evil, v, self.base, 0), v);
                let e2 = SocketAddrV4::new(Ipv4Addr::new(10, 0, 248, 250), 667);
                r.addr_list.address = Some(proto::adnl::Address::from(&e2));
                r
            }
        }
    }
    fn owner_or_host(&self, who: usize) -> u64 {
        if who >= GHOST0 {
            ghost_seed((who - GHOST0) % GHOSTS)
        } else {
            self.plan.nodes[who].keys[0]
        }
    }
    fn who_short(&self, who: usize) -> NodeIdShort {
        ident(self.owner_or_host(who)).short
    }

    /// Addresses and records of ghosts only move forward and are theirs
    fn check_ghosts(&self) {
        let c = cl();
        for n in 0..self.n_real() {
            let (true, Some(a)) = (c.up(n), c.adnl(n)) else { continue };
            let me = c.id(n, 0).short;
            let lf = life(n);
            for g in 0..GHOSTS {
                let Some(addr) = a.get_peer_address(&me, &ident(ghost_seed(g)).short) else { continue };
                let Some(v) = self.ghost_version(g, addr) else {
                    viol(&["D06"], "foreign-address", format!("node {n} uses address {addr} for a peer that never published it"));
                    continue;
                };
                let mut m = self.gaddr.borrow_mut();
                let e = m.entry((n, lf, g)).or_insert(v);
                if v < *e {
                    viol(&["D06"], "address-rolled-back", format!("node {n} went back from the address of record version +{} to version +{} of the same peer", *e + 2000 - self.base, v + 2000 - self.base));
                }
                *e = v;
            }
            // addresses of the other nodes
            for m in 0..self.plan.nodes.len() {
                if m == n {
                    continue;
                }
                let id = c.id(m, 0).short;
                let Some(addr) = a.get_peer_address(&me, &id) else { continue };
                if addr.ip().octets()[2] == 248 {
                    viol(&["D06"], "foreign-address", format!("node {n} uses address {addr} for node {m} which never published it"));
                }
            }
        }
    }

    fn check_record(&self, n: usize, lf: u32, snap: &BTreeMap<(usize, u32, usize), u32>, given: &BTreeMap<(usize, u32, usize), u32>, r: &pd::Node<'_>, how: &str) {
        if !record_ok(r) {
            viol(&["D06", "D02"], "unsigned-record-offered", format!("node {n} offered a node record without a valid signature ({how})"));
            return;
        }
        let id = tl_proto::hash(r.id);
        for g in 0..GHOSTS {
            if *ident(ghost_seed(g)).short.as_slice() != id {
                continue;
            }
            let k = (n, lf, g);
            let floor = given.get(&k).copied().unwrap_or(0);
            if r.version < floor {
                viol(&["D06"], "stale-record-offered", format!("node {n} offered record version +{} of a peer although it was given version +{} earlier ({how})", r.version + 2000 - self.base, floor + 2000 - self.base));
            }
            if let Some(o) = snap.get(&k) {
                if r.version < *o {
                    viol(&["D06"], "record-rolled-back", format!("node {n} offered an older record of a peer than before ({how})"));
                }
            }
            let mut m = self.gbucket.borrow_mut();
            let e = m.entry(k).or_insert(r.version);
            *e = (*e).max(r.version);
        }
    }

    // ---------------------------------------------------------------- queries of the harness host

    async fn raw(&self, n: usize, q: Vec<u8>, ms: u64) -> Option<Vec<u8>> {
        let c = cl();
        let h = self.host;
        let (me, you) = (c.id(h, 0).short, c.id(n, 0).short);
        let node = c.adnl(h)?;
        if !c.up(h) {
            return None;
        }
        let j = c.on(h, || spawn_local(async move { node.query_raw(&me, &you, q.into(), Some(ms)).await }));
        j.await.ok()?.ok()?
    }

    /// Asks node `n` for the value of a key and checks what it serves
    async fn probe(&self, n: usize, key: [u8; 32]) -> Option<Option<pd::ValueOwned>> {
        let c = cl();
        if !c.up(n) {
            return None;
        }
        let lf = life(n);
        let ep = self.epoch.borrow()[n];
        let w0 = self.wall(n);
        let snap = self.obs.borrow().get(&(n, lf, key)).cloned().unwrap_or_default();
        let (gsnap, given) = (self.gbucket.borrow().clone(), self.given.borrow().clone());
        count("dht_probes", 1);
        let r = self.raw(n, tl_proto::serialize(rpc::DhtFindValue { key: &key, k: 6 }), 1500).await?;
        if !c.up(n) || life(n) != lf {
            return None;
        }
        let w1 = self.wall(n);
        let same_clock = self.epoch.borrow()[n] == ep;
        nontrivial();
        let v = match tl_proto::deserialize::<pd::ValueResult>(&r) {
            Ok(pd::ValueResult::ValueFound(BoxedWrapper(v))) => v,
            Ok(pd::ValueResult::ValueNotFound(pd::NodesOwned { nodes })) => {
                if nodes.len() > 6 {
                    viol(&["D06"], "too-many-nodes", format!("node {n} returned {} nodes when asked for at most 6", nodes.len()));
                }
                for x in &nodes {
                    self.check_record(n, lf, &gsnap, &given, &x.as_equivalent_ref(), "value not found");
                }
                if same_clock && snap.floor > w1 {
                    viol(&["D03", "D01"], "value-lost", format!("node {n} confirmed a store of a value valid for another {} s but serves none", snap.floor - w1));
                }
                if same_clock && snap.floors_ttl > w1 {
                    viol(&["D04"], "list-lost", format!("node {n} confirmed a store of an overlay list valid for another {} s but serves none", snap.floors_ttl - w1));
                }
                return Some(None);
            }
            Err(e) => {
                viol(&["D02"], "bad-answer", format!("node {n} answered findValue with something undecodable: {e}"));
                return None;
            }
        };
        trace(31, u64::from_le_bytes(key[..8].try_into().unwrap()), n as u64);
        let (len, idx) = self.key_limits();
        if v.key.key.name.len() > len || v.key.key.idx > idx {
            viol(&["D02"], "serves-oversized-key", format!("node {n} served a value under a name of {} bytes and index {}, beyond its limits of {len} and {idx}", v.key.key.name.len(), v.key.key.idx));
        }
        if let Some(why) = value_bad(&v, &key) {
            viol(&["D02"], "serves-forged", format!("node {n} served a value: {why}"));
            return Some(Some(v.as_equivalent_owned()));
        }
        if same_clock && v.ttl <= w0 {
            viol(&["D03"], "expired-served", format!("node {n} served a value that expired {} s ago", w0 - v.ttl));
        }
        match v.key.update_rule {
            pd::UpdateRule::Signature => {
                let h = fnv(v.value);
                if same_clock && snap.seen && snap.ttl > w1 {
                    if v.ttl < snap.ttl {
                        viol(&["D03"], "went-back", format!("node {n} replaced a value by one that expires {} s earlier", snap.ttl - v.ttl));
                    } else if v.ttl == snap.ttl && h != snap.hash {
                        viol(&["D03"], "replaced-at-same-expiry", format!("node {n} replaced a value by another of the same expiry"));
                    }
                }
                if same_clock && snap.floor > v.ttl && snap.floor > w1 {
                    viol(&["D03"], "newer-value-not-kept", format!("node {n} confirmed a store but serves a value that expires {} s earlier", snap.floor - v.ttl));
                }
                let mut o = self.obs.borrow_mut();
                let e = o.entry((n, lf, key)).or_default();
                if same_clock && (!e.seen || v.ttl > e.ttl) {
                    (e.seen, e.ttl, e.hash) = (true, v.ttl, h);
                }
            }
            _ => {
                let Ok(proto::overlay::Nodes { nodes }) = tl_proto::deserialize_as_boxed::<proto::overlay::Nodes>(v.value) else { return None };
                let mut got = BTreeMap::new();
                for x in &nodes {
                    if got.insert(tl_proto::hash(x.id), x.version).is_some() {
                        viol(&["D04"], "node-listed-twice", format!("node {n} serves an overlay list with a node listed twice"));
                    }
                }
                count("overlay_lists_checked", 1);
                if same_clock && snap.seen && snap.ttl > w1 {
                    for (id, ver) in &snap.versions {
                        match got.get(id) {
                            None => viol(&["D04"], "node-dropped", format!("node {n} dropped a node from an overlay list that had not expired")),
                            Some(x) if x < ver => viol(&["D04"], "node-rolled-back", format!("node {n} replaced an overlay node's record of version {ver} by version {x}")),
                            _ => {}
                        }
                    }
                    if v.ttl < snap.ttl {
                        viol(&["D04"], "expiry-went-back", format!("node {n} shortened the lifetime of an overlay list by {} s", snap.ttl - v.ttl));
                    }
                }
                if same_clock && snap.floors_ttl > w1 {
                    for (id, ver) in &snap.floors {
                        match got.get(id) {
                            None => viol(&["D04"], "stored-node-missing", format!("node {n} confirmed the store of an overlay node's record but does not list it")),
                            Some(x) if x < ver => viol(&["D04"], "stored-node-stale", format!("node {n} confirmed an overlay node's record of version {ver} but lists version {x}")),
                            _ => {}
                        }
                    }
                }
                let mut o = self.obs.borrow_mut();
                let e = o.entry((n, lf, key)).or_default();
                if same_clock && (!e.seen || v.ttl >= e.ttl) {
                    if e.ttl <= w1 {
                        // what was seen earlier has expired since
                        e.versions.clear();
                    }
                    (e.seen, e.ttl) = (true, v.ttl);
                    for (id, ver) in got {
                        let x = e.versions.entry(id).or_insert(ver);
                        *x = (*x).max(ver);
                    }
                }
            }
        }
        Some(Some(v.as_equivalent_owned()))
    }

    /// Sends a store to `n`; on confirmation the value has to be there from now on
    async fn raw_store(&self, n: usize, v: &pd::ValueOwned, valid: bool) -> bool {
        let c = cl();
        if !c.up(n) {
            return false;
        }
        let q = tl_proto::serialize(rpc::DhtStore { value: v.as_equivalent_ref() });
        self.sent.borrow_mut().push(q.clone());
        self.max_ttl.set(self.max_ttl.get().max(v.ttl));
        count("dht_raw_stores", 1);
        let lf = life(n);
        let ep = self.epoch.borrow()[n];
        let r = self.raw(n, q, 1500).await;
        if r.as_deref().is_some_and(|r| tl_proto::deserialize::<pd::Stored>(r).is_ok()) && c.up(n) && life(n) == lf && self.epoch.borrow()[n] == ep {
            self.confirmed(n, lf, v, valid);
            return true;
        }
        false
    }

    fn confirmed(&self, n: usize, lf: u32, v: &pd::ValueOwned, valid: bool) {
        let r = v.as_equivalent_ref();
        let key = tl_proto::hash_as_boxed(r.key.key);
        let w = self.wall(n);
        if !valid || r.ttl <= w {
            return;
        }
        let mut o = self.obs.borrow_mut();
        let e = o.entry((n, lf, key)).or_default();
        match r.key.update_rule {
            pd::UpdateRule::Signature => e.floor = e.floor.max(r.ttl),
            pd::UpdateRule::OverlayNodes => {
                let Ok(proto::overlay::Nodes { nodes }) = tl_proto::deserialize_as_boxed::<proto::overlay::Nodes>(r.value) else { return };
                if e.floors_ttl <= w {
                    e.floors.clear();
                }
                e.floors_ttl = e.floors_ttl.max(r.ttl);
                for x in nodes.iter().filter(|x| overlay_node_ok(r.key.key.id, x)) {
                    let y = e.floors.entry(tl_proto::hash(x.id)).or_insert(x.version);
                    *y = (*y).max(x.version);
                }
            }
            _ => {}
        }
    }

    /// After a clock jump only what is surely still held stays expected
    fn jumped(&self, n: usize, before: u32) {
        self.epoch.borrow_mut()[n] += 1;
        let w = self.wall(n).max(before);
        self.obs.borrow_mut().retain(|(m, _, _), e| {
            if *m != n {
                return true;
            }
            if e.ttl <= w + 1 {
                e.seen = false;
                e.versions.clear();
            }
            if e.floor <= w + 1 {
                e.floor = 0;
            }
            if e.floors_ttl <= w + 1 {
                e.floors_ttl = 0;
                e.floors.clear();
            }
            true
        });
    }

    async fn probe_nodes(&self, n: usize, key: [u8; 32], k: u32) -> Option<usize> {
        let c = cl();
        let lf = life(n);
        let (gsnap, given) = (self.gbucket.borrow().clone(), self.given.borrow().clone());
        let r = self.raw(n, tl_proto::serialize(rpc::DhtFindNode { key: &key, k }), 1500).await?;
        if !c.up(n) || life(n) != lf {
            return None;
        }
        let pd::NodesOwned { nodes } = tl_proto::deserialize_as_boxed(&r).ok()?;
        nontrivial();
        for x in &nodes {
            self.check_record(n, lf, &gsnap, &given, &x.as_equivalent_ref(), "find node");
        }
        if nodes.len() > k.max(1) as usize {
            viol(&["D06"], "too-many-nodes", format!("node {n} returned {} nodes when asked for at most {k}", nodes.len()));
        }
        Some(nodes.len())
    }

    async fn host_op(self: &Rc<Self>, n: usize, kind: u8, arg: u64) {
        let c = cl();
        if !c.up(n) {
            return;
        }
        let mut r = SimRng::new(self.seed ^ arg, 0xd0 + kind as u64);
        let g = r.below(GHOSTS as u64) as usize;
        let w = self.wall(n);
        let ttl = w + *r.pick(&[1u32, 2, 3, 5, 8, 20, 60, 61, 62, 300]);
        match kind {
            // probe of something that is in use
            0 => {
                let ks: Vec<[u8; 32]> = self.keys.borrow().keys().copied().collect();
                if !ks.is_empty() {
                    let k = *r.pick(&ks);
                    self.probe(n, k).await;
                }
            }
            // valid signed value
            1 => {
                let who = GHOST0 + g;
                let k = self.app_key(who, r.below(2));
                let id = self.use_key(k.clone());
                let v = self.new_val(r.below(300) as usize);
                self.note_val(id, &v, ttl);
                let v = make_value(k.owner, &k.name, k.idx, &tl_proto::serialize(&v), ttl);
                self.raw_store(n, &v, true).await;
            }
            // signed values nobody may accept
            2 => {
                let who = if r.chance(0.5) { GHOST0 + g } else { r.below(self.n_real() as u64) as usize };
                let v = self.forged_value(who, &mut r, ttl);
                count("forged_stores", 1);
                count_fault(Fault::Hostile);
                self.raw_store(n, &v, false).await;
            }
            // an overlay list
            3 | 4 => {
                let ov = r.below(2);
                self.use_key(self.ov_key(ov));
                let mut nodes = self.overlay_list(ov, &mut r, kind == 4);
                r.shuffle(&mut nodes);
                if kind == 4 {
                    count_fault(Fault::Hostile);
                }
                let v = overlay_value(ov, &nodes, ttl);
                let short = overlay_full(ov).compute_short_id();
                let any = nodes.iter().any(|x| overlay_node_ok(short.as_slice(), &x.as_equivalent_ref()));
                self.raw_store(n, &v, any).await;
            }
            // an earlier store again
            5 => {
                let q = {
                    let s = self.sent.borrow();
                    if s.is_empty() {
                        return;
                    }
                    s[r.below(s.len() as u64) as usize].clone()
                };
                count_fault(Fault::Replay);
                self.raw(n, q, 1000).await;
            }
            6 => {
                let mut k = [0u8; 32];
                r.fill(&mut k);
                let k = if r.chance(0.5) { k } else { *self.who_short(GHOST0 + g).as_slice() };
                self.probe_nodes(n, k, *r.pick(&[1u32, 2, 6, 20])).await;
            }
            // a query that starts with somebody's record
            7 => {
                let ver = self.base - 1000 + r.below(1500) as u32;
                let bad = r.chance(0.5);
                let rec = if bad {
                    count_fault(Fault::Hostile);
                    self.bad_record(GHOST0 + g, 1 + r.below(7) as u8, arg, n)
                } else {
                    self.ghost_record(g, ver)
                };
                let mut q = tl_proto::serialize(rpc::DhtQuery { node: rec.as_equivalent_ref() });
                q.extend_from_slice(&tl_proto::serialize(rpc::DhtPing { random_id: arg }));
                let lf = life(n);
                let a = self.raw(n, q, 1500).await;
                if a.is_some() && !bad && c.up(n) && life(n) == lf {
                    self.given_for_sure(n, lf, g, ver);
                }
            }
            // a key nobody uses
            8 => {
                let mut k = [0u8; 32];
                r.fill(&mut k);
                self.probe(n, k).await;
            }
            // a value of a given ghost held by few nodes
            11 => {
                let k = self.app_key(GHOST0 + arg as usize % GHOSTS, arg / GHOSTS as u64 % 2);
                let id = self.use_key(k.clone());
                let v = self.new_val(r.below(300) as usize);
                let ttl = w + 100 + r.below(300) as u32;
                self.note_val(id, &v, ttl);
                let v = make_value(k.owner, &k.name, k.idx, &tl_proto::serialize(&v), ttl);
                self.raw_store(n, &v, true).await;
            }
            // addresses of a given ghost, some of them out of date
            12 => {
                let g = arg as usize % GHOSTS;
                let k = self.addr_key(GHOST0 + g);
                self.use_key(k.clone());
                let ver = self.base - 1000 + r.below(1500) as u32;
                let mut l = addr_list(self.ghost_addr(g, ver), ver, self.base - 3000, 0);
                if arg / GHOSTS as u64 % 3 == 0 {
                    l.expire_at = w - 100;
                } else {
                    self.addrs.borrow_mut().entry(*ident(k.owner).short.as_slice()).or_default().insert(self.ghost_addr(g, ver));
                }
                let ttl = w + 100 + r.below(300) as u32;
                let v = make_value(k.owner, &k.name, k.idx, &tl_proto::serialize_as_boxed(l), ttl);
                self.raw_store(n, &v, true).await;
            }
            // a later value of another node, placed here only
            13 => {
                let who = (arg % self.n_real() as u64) as usize;
                let k = self.app_key(who, arg / self.n_real() as u64 % 4);
                let id = self.use_key(k.clone());
                let v = self.new_val(r.below(300) as usize);
                let ttl = w + 300 + r.below(300) as u32;
                self.note_val(id, &v, ttl);
                let v = make_value(k.owner, &k.name, k.idx, &tl_proto::serialize(&v), ttl);
                self.raw_store(n, &v, true).await;
            }
            // ghosts that are members of an overlay
            14 => {
                let ov = r.below(2);
                self.use_key(self.ov_key(ov));
                let short = overlay_full(ov).compute_short_id();
                let nodes: Vec<_> = (0..r.range(1, 4)).map(|_| sign_overlay_node(ghost_seed(r.below(GHOSTS as u64) as usize), short.as_slice(), self.base - 100 + r.below(8) as u32)).collect();
                let v = overlay_value(ov, &nodes, w + 100 + r.below(300) as u32);
                self.raw_store(n, &v, true).await;
            }
            // a query that starts with many records, one inside the other
            10 => {
                let ver = self.base - 1000 + r.below(1500) as u32;
                let rec = self.ghost_record(g, ver);
                let one = tl_proto::serialize(rpc::DhtQuery { node: rec.as_equivalent_ref() });
                let times = *r.pick(&[2usize, 3, 10, 100, 2000, 6000]);
                let mut q = Vec::with_capacity(one.len() * times + 12);
                for _ in 0..times {
                    q.extend_from_slice(&one);
                }
                q.extend_from_slice(&tl_proto::serialize(rpc::DhtPing { random_id: arg }));
                count("nested_queries", 1);
                count_fault(Fault::Hostile);
                self.raw(n, q, 1500).await;
            }
            // the address of a ghost, signed by it
            _ => {
                let k = self.addr_key(GHOST0 + g);
                self.use_key(k.clone());
                let ver = self.base - 1000 + r.below(1500) as u32;
                let a = self.ghost_addr(g, ver);
                self.addrs.borrow_mut().entry(*ident(k.owner).short.as_slice()).or_default().insert(a);
                let mut l = addr_list(a, ver, self.base - 3000, 0);
                if r.chance(0.2) {
                    // expired: never an answer
                    l.expire_at = w - 10;
                    l.address = Some(proto::adnl::Address::from(&SocketAddrV4::new(Ipv4Addr::new(10, 0, 248, 77), 777)));
                }
                let v = make_value(k.owner, &k.name, k.idx, &tl_proto::serialize_as_boxed(l), ttl);
                self.raw_store(n, &v, true).await;
            }
        }
    }

    fn given_for_sure(&self, n: usize, lf: u32, g: usize, ver: u32) {
        let mut m = self.given.borrow_mut();
        let e = m.entry((n, lf, g)).or_insert(ver);
        *e = (*e).max(ver);
        let a = cl().adnl(n).and_then(|a| a.get_peer_address(&cl().id(n, 0).short, &ident(ghost_seed(g)).short));
        let v = a.and_then(|a| self.ghost_version(g, a));
        if v.map_or(true, |v| v < *e) {
            viol(&["D06"], "newer-record-not-used", format!("node {n} was given record version +{} of a peer, but uses {a:?}", *e + 2000 - self.base));
        }
    }

    fn overlay_list(&self, ov: u64, r: &mut SimRng, bad: bool) -> Vec<proto::overlay::NodeOwned> {
        let short = overlay_full(ov).compute_short_id();
        let other = overlay_full(ov + 7).compute_short_id();
        let mut v = Vec::new();
        let n = r.range(1, 4);
        for _ in 0..n {
            let seed = 95_000 + r.below(5);
            let ver = self.base - 100 + r.below(8) as u32;
            v.push(sign_overlay_node(seed, short.as_slice(), ver));
        }
        if bad {
            for _ in 0..r.range(1, 3) {
                // (the address of a ghost may be known, so that it would be returned)
                let seed = if r.chance(0.5) { ghost_seed(r.below(GHOSTS as u64) as usize) } else { 95_000 + r.below(8) };
                let ver = if r.chance(0.15) { *r.pick(&[0u32, 1, u32::MAX - 20]) } else { self.base - 100 + r.below(20) as u32 };
                let mut x = sign_overlay_node(seed, short.as_slice(), ver);
                match r.below(5) {
                    0 => x.version += 1 + r.below(5) as u32,
                    4 => {
                        let l = *r.pick(&[0usize, 0, 1, 32, 63]);
                        x.signature = x.signature[..l].to_vec().into();
                        if r.chance(0.3) {
                            x.version = 0;
                        }
                    }
                    1 => x = sign_overlay_node(seed, other.as_slice(), ver),
                    2 => {
                        x = sign_overlay_node(seed, other.as_slice(), ver);
                        x.overlay = *short.as_slice();
                    }
                    _ => {
                        let y = sign_overlay_node(seed + 20, short.as_slice(), ver);
                        x.signature = y.signature;
                    }
                }
                v.push(x);
            }
            if r.chance(0.3) {
                v.drain(..n as usize);
            }
        }
        v
    }

    /// A value for a key of `who` that its owner never authorised
    fn forged_value(&self, who: usize, r: &mut SimRng, ttl: u32) -> pd::ValueOwned {
        let k = self.app_key(who, r.below(2));
        let id = self.use_key(k.clone());
        let evil = self.plan.nodes[self.host].keys[0];
        let fake = Val { uid: 0xBAD0_0000_0000_0000 | r.next() >> 16, data: vec![1, 2, 3] };
        let fake = tl_proto::serialize(&fake);
        let good = self.vals.borrow().get(&id).and_then(|m| m.iter().next().map(|(u, (t, d))| (*u, *t, d.clone())));
        let owner = codec::make_key(k.owner);
        match r.below(12) {
            // no or a short signature
            11 => {
                let mut v = make_value(k.owner, &k.name, k.idx, &fake, ttl);
                let len = *r.pick(&[0usize, 0, 1, 32, 63]);
                if r.chance(0.7) {
                    v.signature = v.signature[..len].to_vec().into();
                }
                if r.chance(0.5) || v.signature.len() == 64 {
                    v.key.signature = v.key.signature[..len].to_vec().into();
                    if v.signature.len() == 64 {
                        let x = v.clone();
                        let mut x = x.as_equivalent_ref();
                        x.signature = &[];
                        v.signature = owner.sign(x.as_boxed()).to_vec().into();
                    }
                }
                v
            }
            // the description of the key is not signed by the owner, the value is
            8 => {
                let good = make_value(k.owner, &k.name, k.idx, &fake, ttl);
                let other = make_value(k.owner, &k.name, k.idx + 1, &fake, ttl);
                let mut v = good.as_equivalent_ref();
                let ks = match r.below(4) {
                    0 => Vec::new(),
                    1 => other.key.signature.to_vec(),
                    2 => codec::make_key(evil).sign(v.key.as_boxed()).to_vec(),
                    _ => {
                        let mut x = v.key.signature.to_vec();
                        let b = r.below(x.len() as u64 * 8) as usize;
                        x[b / 8] ^= 1 << (b % 8);
                        x
                    }
                };
                v.key.signature = &ks;
                v.signature = &[];
                let vs = owner.sign(v.as_boxed());
                v.signature = &vs;
                v.as_equivalent_owned()
            }
            // a list of overlay nodes under another name or index
            9 => {
                let ov = r.below(2);
                let mut nodes = self.overlay_list(ov, r, false);
                r.shuffle(&mut nodes);
                let mut v = overlay_value(ov, &nodes, ttl);
                let (name, idx) = *r.pick(&[("nodes", 1u32), ("nodes", 3), ("node", 0), ("Nodes", 0), ("", 0), ("nodes\0", 0), ("address", 0)]);
                v.key.key.name = name.as_bytes().to_vec().into();
                v.key.key.idx = idx;
                self.use_key(KeyName { owner: 0, name: name.into(), idx, kind: KeyKind::OverlayAt(ov) });
                v
            }
            // valid but for a key beyond the limits of the node
            10 => {
                let (len, idx) = self.key_limits();
                let (name, idx) = match r.below(3) {
                    0 => (k.name.clone(), idx + 1 + r.below(3) as u32),
                    1 => ("n".repeat(len + 1 + r.below(3) as usize), k.idx),
                    _ => ("n".repeat(len + 200), if r.chance(0.5) { u32::MAX } else { idx }),
                };
                let v = self.new_val(20);
                let k = KeyName { name, idx, ..k };
                let id = self.use_key(k.clone());
                self.note_val(id, &v, ttl);
                make_value(k.owner, &k.name, k.idx, &tl_proto::serialize(&v), ttl)
            }
            // everything signed by its author, but for a key of the owner
            7 => {
                let k2 = codec::make_key(evil);
                let mut v = pd::Value {
                    key: pd::KeyDescription {
                        key: pd::Key { id: owner.id().as_slice(), name: k.name.as_bytes(), idx: k.idx },
                        id: k2.full_id().as_tl(),
                        update_rule: pd::UpdateRule::Signature,
                        signature: &[],
                    },
                    value: &fake,
                    ttl,
                    signature: &[],
                };
                let ks = k2.sign(v.key.as_boxed());
                v.key.signature = &ks;
                let vs = k2.sign(v.as_boxed());
                v.signature = &vs;
                v.as_equivalent_owned()
            }
            // signed by somebody else, listed under the owner's id
            0 => {
                let mut v = make_value(evil, &k.name, k.idx, &fake, ttl);
                v.key.key.id = *owner.id().as_slice();
                v
            }
            1 => {
                let e = make_value(evil, &k.name, k.idx, &fake, ttl);
                let mut v = e.clone();
                v.key.key.id = *owner.id().as_slice();
                v.key.id = owner.full_id().as_tl().as_equivalent_owned();
                v
            }
            // a real value with a later expiry or other content
            2 | 3 => {
                let Some((uid, t, d)) = good else { return make_value(evil, "app0", 0, &fake, ttl) };
                let mut v = make_value(k.owner, &k.name, k.idx, &tl_proto::serialize(Val { uid, data: d }), t);
                if r.chance(0.5) {
                    v.ttl = t.max(ttl) + 10;
                } else {
                    v.value = fake.into();
                }
                v
            }
            // a real value moved to another key of the owner
            4 => {
                let v = self.new_val(20);
                self.note_val(id, &v, ttl);
                let mut v = make_value(k.owner, &k.name, k.idx, &tl_proto::serialize(&v), ttl);
                v.key.key.idx += 1;
                self.use_key(KeyName { idx: k.idx + 1, ..k });
                v
            }
            // no signature needed, says the rule
            5 => {
                let mut v = make_value(k.owner, &k.name, k.idx, &fake, ttl);
                v.key.update_rule = pd::UpdateRule::Anybody;
                v.signature = Default::default();
                v.key.signature = Default::default();
                v
            }
            _ => {
                let mut v = make_value(k.owner, &k.name, k.idx, &fake, ttl);
                let short = overlay_full(0).compute_short_id();
                let mut data = proto::overlay::Nodes::TL_ID.to_le_bytes().to_vec();
                data.extend_from_slice(&1u32.to_le_bytes());
                sign_overlay_node(95_000, short.as_slice(), self.base).write_to(&mut data);
                v.key.update_rule = pd::UpdateRule::OverlayNodes;
                v.signature = Default::default();
                v.key.signature = Default::default();
                v.value = data.into();
                v
            }
        }
    }

    // ---------------------------------------------------------------- what lookups return

    fn check_found(&self, n: usize, k: &KeyName, desc: &pd::KeyDescriptionOwned, v: &Val) {
        let id = self.key_id(k);
        let d = desc.as_equivalent_ref();
        nontrivial();
        count("dht_values_found", 1);
        if tl_proto::hash_as_boxed(d.key) != id {
            viol(&["D02"], "foreign-value", format!("a lookup of node {n} for key {}/{} returned a value of another key", k.name, k.idx));
            return;
        }
        let ok = self.vals.borrow().get(&id).and_then(|m| m.get(&v.uid).map(|(_, x)| x == &v.data)).unwrap_or(false);
        if !ok {
            viol(&["D02"], "forged-value", format!("a lookup of node {n} for key {}/{} returned value {:x} its owner never signed", k.name, k.idx, v.uid));
        }
    }

    /// Peers of `n` a lookup may ask
    fn usable_peers(&self, n: usize) -> Vec<usize> {
        let Some(d) = self.dht(n) else { return vec![] };
        let ids: Vec<NodeIdShort> = d.iter_known_peers().copied().collect();
        ids.iter().filter(|p| !d.is_bad_peer(p)).filter_map(|p| cl().whose(p).map(|x| x.0)).filter(|m| *m != self.host && self.steady(*m)).collect()
    }

    async fn holders(&self, key: [u8; 32]) -> BTreeSet<usize> {
        self.served(key).await.0.into_keys().collect()
    }
    /// Uid and expiry of the values the nodes serve under a key, and the nodes that say they have none
    async fn served(&self, key: [u8; 32]) -> (BTreeMap<usize, (u64, u32)>, BTreeSet<usize>) {
        let (mut out, mut none) = (BTreeMap::new(), BTreeSet::new());
        for m in 0..self.n_real() {
            match self.probe(m, key).await {
                Some(Some(v)) => {
                    out.insert(m, (tl_proto::deserialize::<Val>(&v.value).map_or(0, |x| x.uid), v.ttl));
                }
                Some(None) => {
                    none.insert(m);
                }
                None => {}
            }
        }
        (out, none)
    }
    /// Nodes that serve an address of a node that is not out of date
    async fn served_addr(&self, key: [u8; 32]) -> BTreeSet<usize> {
        let mut out = BTreeSet::new();
        for m in 0..self.n_real() {
            if let Some(Some(v)) = self.probe(m, key).await {
                if let Ok(l) = tl_proto::deserialize_as_boxed::<proto::adnl::AddressList>(&v.value) {
                    if l.expire_at == 0 || l.expire_at > self.wall(m) + 60 {
                        out.insert(m);
                    }
                }
            }
        }
        out
    }
    /// Right after a restart others may not reach a node for a while (they wait for its new
    /// handshake), so nothing is promised about it
    fn steady(&self, m: usize) -> bool {
        cl().up(m) && life(m) == 0
    }

    async fn find(self: &Rc<Self>, n: usize, id: u64, who: usize, mode: u8) {
        let c = cl();
        let k = self.app_key(who, id);
        let key = self.use_key(k.clone());
        let expect = self.plan.is("expect");
        let before = if expect { self.holders(key).await } else { Default::default() };
        let peers = self.usable_peers(n);
        let closure = self.closure(n);
        let known = self.dht(n).map_or(0, |d| d.metrics().known_peers_len);
        let Some(d) = self.dht(n) else { return };
        let owner = ident(k.owner).short;
        let lives0: Vec<u32> = (0..self.n_real()).map(life).collect();
        count("dht_lookups", 1);
        let name = k.name.clone();
        let idx = k.idx;
        let fut = async move {
            let mut out = Vec::new();
            let e = d.entry(&owner, &name).with_key_index(idx);
            match mode {
                1 => {
                    let mut s = e.values::<Val>().use_full_batch().use_new_peers(true);
                    while let Some(x) = s.next().await {
                        out.push(x);
                    }
                }
                2 => {
                    let ps: Vec<NodeIdShort> = d.iter_known_peers().copied().collect();
                    for p in ps {
                        if let Ok(Some(x)) = e.value_from::<Val>(&p).await {
                            out.push(x);
                        }
                    }
                }
                3 => {
                    let mut s = e.values::<Val>();
                    if let Ok(Some(x)) = timeout(Duration::from_millis(30), s.next()).await {
                        out.push(x);
                    } else {
                        count_fault(Fault::Cancel);
                    }
                }
                4 => {
                    let mut s = e.values::<Val>().use_new_peers(true);
                    while let Some(x) = s.next().await {
                        out.push(x);
                    }
                }
                _ => {
                    let mut s = e.values::<Val>();
                    if let Some(x) = s.next().await {
                        out.push(x);
                    }
                }
            }
            out
        };
        let Some(found) = self.run_on(n, "lookup", fut).await else { return };
        for (desc, v) in &found {
            self.check_found(n, &k, desc, v);
        }
        if !expect || mode == 3 || !c.up(n) {
            return;
        }
        let after = self.holders(key).await;
        let lives1: Vec<u32> = (0..self.n_real()).map(life).collect();
        if lives0 != lives1 || (0..self.n_real()).any(|m| !c.up(m) && peers.contains(&m)) {
            return;
        }
        let hold: BTreeSet<usize> = before.intersection(&after).copied().collect();
        let reach: Vec<usize> = match mode {
            1 => closure.iter().filter(|m| hold.contains(m)).copied().collect(),
            2 => peers.iter().filter(|m| hold.contains(m)).copied().collect(),
            // the first peers asked are the best ones, with few peers all are
            _ if known <= 5 => peers.iter().filter(|m| hold.contains(m)).copied().collect(),
            _ => vec![],
        };
        if !reach.is_empty() {
            count("dht_expected_lookups", 1);
            if found.is_empty() {
                viol(&["D01"], "not-found", format!("a lookup (mode {mode}) of node {n} did not find a value nodes {reach:?} hold and serve"));
            }
        }
    }

    /// Nodes a lookup of this key that follows referrals asks (those that have the value name nobody)
    async fn referred(&self, n: usize, key: [u8; 32]) -> Vec<usize> {
        let Some(d) = self.dht(n) else { return vec![] };
        let mut seen = BTreeSet::new();
        let mut todo = self.usable_peers(n);
        while let Some(m) = todo.pop() {
            if m == n || !seen.insert(m) || self.n_real() > 6 {
                continue;
            }
            if let Some(None) = self.probe(m, key).await {
                todo.extend(self.usable_peers(m).into_iter().filter(|x| !d.is_bad_peer(&cl().id(*x, 0).short)));
            }
        }
        seen.into_iter().collect()
    }

    /// Nodes a lookup that follows referrals comes to know (small networks only)
    fn closure(&self, n: usize) -> BTreeSet<usize> {
        let mut seen = BTreeSet::new();
        if self.n_real() > 6 {
            seen.extend(self.usable_peers(n));
            return seen;
        }
        let Some(d) = self.dht(n) else { return seen };
        let mut todo = self.usable_peers(n);
        while let Some(m) = todo.pop() {
            if m == n || !seen.insert(m) {
                continue;
            }
            todo.extend(self.usable_peers(m).into_iter().filter(|x| !d.is_bad_peer(&cl().id(*x, 0).short)));
        }
        seen
    }

    /// Runs a future of the public interface on a node; every call has to return
    async fn run_on<T: 'static, F: std::future::Future<Output = T> + 'static>(self: &Rc<Self>, n: usize, what: &'static str, f: F) -> Option<T> {
        let c = cl();
        if !c.up(n) {
            return None;
        }
        let lf = life(n);
        let j = c.on(n, || spawn_local(f));
        let limit = 120_000 + 20 * self.plan.nodes[n].query_timeout;
        match timeout(Duration::from_millis(limit), j).await {
            Ok(r) => r.ok(),
            Err(_) => {
                if c.up(n) && life(n) == lf {
                    viol(&["D01"], "call-never-ended", format!("a {what} of node {n} did not return within {} s", limit / 1000));
                }
                None
            }
        }
    }

    async fn store(self: &Rc<Self>, n: usize, id: u64, len: usize, ttl: u64, mode: u8) {
        let c = cl();
        let Some(d) = self.dht(n) else { return };
        let k = self.app_key(n, id);
        let key = self.use_key(k.clone());
        let v = self.new_val(len);
        let abs = self.wall(n) + ttl as u32;
        self.note_val(key, &v, abs);
        let uid = v.uid;
        let newest = || self.vals.borrow().get(&key).is_some_and(|m| m.iter().all(|(u, (t, _))| *u == uid || *t < abs));
        let peers = self.usable_peers(n);
        let lives0: Vec<u32> = (0..self.n_real()).map(life).collect();
        let known: Vec<usize> = d.iter_known_peers().filter_map(|p| c.whose(p).map(|x| x.0)).filter(|m| *m != self.host).collect();
        let all_up = known.iter().all(|m| self.steady(*m));
        let before = if mode == 1 && self.plan.is("expect") { self.served(key).await.0 } else { Default::default() };
        count("dht_stores", 1);
        let sid = c.sid(n);
        let fut = async move {
            let signer = codec::make_key(k.owner);
            let owner = *signer.id();
            let e = d.entry(&owner, &k.name).with_key_index(k.idx);
            let raw = tl_proto::serialize(&v);
            // all the ways to store a value
            let s = match uid % 5 {
                0 => e.with_data(v).with_ttl(abs.saturating_sub(wall_secs(sid))).sign_and_store(&signer),
                1 => e.with_data_raw(&raw).expire_at(abs).sign_and_store(&signer),
                2 => {
                    let x = e.with_data(v).expire_at(abs).sign(&signer);
                    d.store_value(x.as_equivalent_ref())
                }
                _ => e.with_data(v).expire_at(abs).sign_and_store(&signer),
            };
            let s = match s {
                Ok(s) => s,
                Err(e) => {
                    // (the clock shows the same second)
                    if abs > wall_secs(sid) {
                        viol(&["D01", "D03"], "store-refused", format!("node {n} refused to store value {uid} of its user, made properly for a key within the limits and fresh for {} s: {e}", abs - wall_secs(sid)));
                    }
                    return None;
                }
            };
            Some(match mode {
                1 => s.then_check::<Val, _>(move |_, v: Val| Ok(v.uid == uid)).await.unwrap_or(false),
                2 => {
                    s.only_locally();
                    true
                }
                3 => {
                    if timeout(Duration::from_millis(20), s).await.is_err() {
                        count_fault(Fault::Cancel);
                    }
                    true
                }
                _ => {
                    s.await;
                    true
                }
            })
        };
        let Some(r) = self.run_on(n, "store", fut).await else { return };
        note(|| format!("store {uid} by {n} mode {mode} ttl {ttl}: {r:?}"));
        if mode >= 2 || r.is_none() || !self.plan.is("expect") || !c.up(n) {
            return;
        }
        let lives1: Vec<u32> = (0..self.n_real()).map(life).collect();
        if lives0 != lives1 {
            return;
        }
        let (now, none) = self.served(key).await;
        let hold: BTreeSet<usize> = now.keys().copied().collect();
        if self.wall(n) + 1 >= abs || (0..self.n_real()).map(life).collect::<Vec<_>>() != lives1 {
            return;
        }
        if mode == 1 && r == Some(true) {
            let others: Vec<usize> = hold.iter().copied().filter(|m| *m != n).collect();
            if others.is_empty() && all_up && none.len() + hold.len() == self.n_real() {
                viol(&["D01"], "reported-but-not-stored", format!("node {n} reported a value stored but no other node serves it"));
            }
        }
        if mode == 1 {
            let others = self.n_real() - 1;
            let later = before.iter().filter(|(m, x)| **m != n && x.1 >= abs && x.0 != uid).count();
            if r == Some(true) && others > 0 && later == others {
                viol(&["D01"], "reported-but-not-stored", format!("node {n} reported its value stored, but every other node held a later one already"));
            }
            // no peer that serves it may be overlooked
            let with_it: Vec<usize> = now.iter().filter(|(m, x)| x.0 == uid && peers.contains(m)).map(|x| *x.0).collect();
            if r == Some(false) && all_up && known.len() <= 5 && peers.len() == known.len() && !with_it.is_empty() {
                viol(&["D01"], "store-not-confirmed", format!("node {n} reported its value as not stored although its peers {with_it:?} serve it"));
            }
            count("dht_confirmed_stores", 1);
        }
        nontrivial();
        if all_up && known.iter().all(|m| c.up(*m)) && !known.is_empty() {
            for m in &known {
                if none.contains(m) && c.up(*m) {
                    viol(&["D01"], "copy-not-placed", format!("node {n} stored a value but its peer {m}, which was up all the time, does not serve it"));
                }
            }
            if mode == 1 && newest() && r == Some(false) && known.len() <= 5 && peers.len() == known.len() && known.iter().all(|m| hold.contains(m)) {
                viol(&["D01"], "store-not-confirmed", format!("node {n} reported its value as not stored although peers {known:?} serve it"));
            }
        }
    }

    async fn store_addr(self: &Rc<Self>, n: usize) {
        let c = cl();
        let Some(d) = self.dht(n) else { return };
        let addr = c.addr(n);
        self.use_key(self.addr_key(n));
        self.addrs.borrow_mut().entry(*c.id(n, 0).short.as_slice()).or_default().insert(addr);
        let seed = self.plan.nodes[n].keys[0];
        let fut = async move { d.store_address(&codec::make_key(seed), addr).await.unwrap_or(false) };
        let r = self.run_on(n, "store_address", fut).await;
        note(|| format!("store address of {n}: {r:?}"));
        count("dht_addr_stores", 1);
    }

    async fn find_addr(self: &Rc<Self>, n: usize, who: usize) {
        let c = cl();
        let id = self.who_short(who);
        let k = self.addr_key(who);
        let key = self.use_key(k);
        let expect = self.plan.is("expect");
        let before = if expect { self.served_addr(key).await } else { Default::default() };
        let Some(d) = self.dht(n) else { return };
        let peers = self.usable_peers(n);
        let known = d.metrics().known_peers_len;
        let lives0: Vec<u32> = (0..self.n_real()).map(life).collect();
        let fut = async move { d.find_address(&id).await.ok() };
        let Some(r) = self.run_on(n, "find_address", fut).await else { return };
        count("dht_addr_lookups", 1);
        nontrivial();
        if let Some((a, full)) = &r {
            if full.compute_short_id() != id {
                viol(&["D02", "D06"], "foreign-key", format!("find_address of node {n} returned another node's key"));
            }
            if !self.addrs.borrow().get(id.as_slice()).is_some_and(|s| s.contains(a)) {
                viol(&["D02", "D06"], "forged-address", format!("find_address of node {n} returned {a}, which that peer never published"));
            }
        }
        if !expect || !c.up(n) {
            return;
        }
        let after = self.served_addr(key).await;
        if lives0 != (0..self.n_real()).map(life).collect::<Vec<_>>() {
            return;
        }
        let can: Vec<usize> = peers.iter().copied().filter(|m| before.contains(m) && after.contains(m)).collect();
        if r.is_none() && !can.is_empty() && known <= 5 {
            viol(&["D01"], "address-not-found", format!("find_address of node {n} found nothing although nodes {can:?} serve the address"));
        }
    }

    async fn store_overlay(self: &Rc<Self>, n: usize, ov: u64) {
        let Some(d) = self.dht(n) else { return };
        self.use_key(self.ov_key(ov));
        let full = overlay_full(ov);
        let rec = sign_overlay_node(self.plan.nodes[n].keys[0], full.compute_short_id().as_slice(), self.wall(n));
        let fut = async move { d.store_overlay_node(&full, rec.as_equivalent_ref()).await.unwrap_or(false) };
        let r = self.run_on(n, "store_overlay_node", fut).await;
        note(|| format!("store overlay node {n} in {ov}: {r:?}"));
        count("dht_overlay_stores", 1);
    }

    /// Overlay members every one of these nodes lists, and those whose address they serve
    async fn served_members(&self, ov: u64, by: &[usize]) -> BTreeSet<[u8; 32]> {
        let key = self.key_id(&self.ov_key(ov));
        let mut ids = BTreeSet::new();
        for m in by {
            let Some(Some(v)) = self.probe(*m, key).await else { continue };
            let Ok(proto::overlay::Nodes { nodes }) = tl_proto::deserialize_as_boxed::<proto::overlay::Nodes>(&v.value) else { continue };
            ids.extend(nodes.iter().map(|x| tl_proto::hash(x.id)));
        }
        let mut out = BTreeSet::new();
        for id in ids {
            let key = tl_proto::hash_as_boxed(pd::Key { id: &id, name: b"address", idx: 0 });
            if self.served_addr(key).await.iter().any(|m| by.contains(m)) {
                out.insert(id);
            }
        }
        out
    }

    async fn find_overlay(self: &Rc<Self>, n: usize, ov: u64) {
        let Some(d) = self.dht(n) else { return };
        let short = overlay_full(ov).compute_short_id();
        let lives0: Vec<u32> = (0..self.n_real()).map(life).collect();
        // every list a peer answers with holds valid records only
        let d2 = d.clone();
        let fut = async move {
            let mut out = Vec::new();
            let mut s = d2.entry(&short, "nodes").values::<BoxedWrapper<proto::overlay::NodesOwned>>().use_new_peers(true);
            while let Some((_, BoxedWrapper(x))) = s.next().await {
                out.push(x.nodes);
            }
            out
        };
        // (it makes the node know the peers others name)
        let lists = match self.uid() % 2 {
            0 => self.run_on(n, "lookup", fut).await,
            _ => Some(Vec::new()),
        };
        let Some(lists) = lists else { return };
        for x in lists.iter().flatten() {
            nontrivial();
            if !overlay_node_ok(short.as_slice(), &x.as_equivalent_ref()) {
                viol(&["D02"], "forged-overlay-node", format!("a lookup of node {n} returned an overlay list with a node without a valid record for that overlay"));
            }
        }
        let expect = self.plan.is("expect") && self.plan.is("serial") && d.metrics().known_peers_len <= 5;
        let peers = if expect { self.referred(n, self.key_id(&self.ov_key(ov))).await } else { vec![] };
        if peers.iter().any(|x| !self.usable_peers(n).contains(x)) {
            count("dht_members_asked_by_referral", 1);
        }
        let due = if expect { self.served_members(ov, &peers).await } else { Default::default() };
        let d2 = d.clone();
        let fut = async move { d2.find_overlay_nodes(&short).await.unwrap_or_default() };
        let Some(r) = self.run_on(n, "find_overlay_nodes", fut).await else { return };
        count("dht_overlay_lookups", 1);
        nontrivial();
        let got: BTreeSet<[u8; 32]> = r.iter().map(|x| tl_proto::hash(x.1.id.as_equivalent_ref())).collect();
        if got.len() < r.len() {
            viol(&["D01"], "member-found-twice", format!("find_overlay_nodes of node {n} returned a node twice"));
        }
        for (a, x) in r {
            count("dht_overlay_nodes_found", 1);
            if !overlay_node_ok(short.as_slice(), &x.as_equivalent_ref()) {
                viol(&["D02"], "forged-overlay-node", format!("find_overlay_nodes of node {n} returned a node without a valid record for that overlay"));
                continue;
            }
            let id = tl_proto::hash(x.id.as_equivalent_ref());
            if !self.addrs.borrow().get(&id).is_some_and(|s| s.contains(&a)) {
                viol(&["D02", "D06"], "forged-address", format!("find_overlay_nodes of node {n} returned {a}, which that peer never published"));
            }
        }
        if due.is_empty() || !cl().up(n) {
            return;
        }
        let after = self.served_members(ov, &peers).await;
        let same = peers.iter().all(|m| self.usable_peers(n).contains(m));
        if d.metrics().known_peers_len > 5 || lives0 != (0..self.n_real()).map(life).collect::<Vec<_>>() {
            return;
        }
        if !same {
            let here = peers.iter().filter(|m| self.steady(**m)).count();
            if here == peers.len() {
                viol(&["D01"], "referral-not-followed", format!("find_overlay_nodes of node {n} did not come to know all of the nodes {peers:?} its peers and theirs name"));
            }
            return;
        }
        count("dht_members_due", due.len() as u64);
        let missing = due.intersection(&after).filter(|x| !got.contains(*x)).count();
        if missing > 0 {
            viol(&["D01"], "member-not-found", format!("find_overlay_nodes of node {n} left out {missing} of {} nodes its peers {peers:?} list and whose address they serve", due.len()));
        }
    }

    fn add(&self, n: usize, who: usize, kind: u8, ver: u64) {
        let c = cl();
        let Some(d) = self.dht(n) else { return };
        let Some(a) = c.adnl(n) else { return };
        let me = c.id(n, 0).short;
        let id = self.who_short(who);
        let before = a.get_peer_address(&me, &id);
        let lf = life(n);
        let g = who.wrapping_sub(GHOST0);
        let (rec, ok) = match kind {
            0 if who >= GHOST0 => (self.ghost_record(g, self.base - 1000 + (ver % 1500) as u32), true),
            0 => (self.real_record(who, 0), true),
            8 if who < GHOST0 => (self.real_record(who, 1), true),
            8 => (self.ghost_record(g, self.base - 1000 + (ver % 1500) as u32), true),
            k => (self.bad_record(who, k, ver, n), false),
        };
        if kind == 0 && who < GHOST0 {
            let mut b = self.boot.borrow_mut();
            let b = b.entry(n).or_default();
            if !b.contains(&who) {
                b.push(who);
            }
        }
        let newer_real = who < GHOST0 && who != n && kind == 0;
        let version = rec.version;
        if newer_real && c.up(who) {
            // from now on older records are of no use
            self.given_real.borrow_mut().insert((n, lf, who), version);
        }
        let r = c.on(n, || d.add_dht_peer(rec));
        count("dht_records_given", 1);
        nontrivial();
        let after = a.get_peer_address(&me, &id);
        if !ok {
            count_fault(Fault::Hostile);
            if after != before {
                viol(&["D06"], "bad-record-used", format!("node {n} took address {after:?} instead of {before:?} from a record of kind {kind} nobody may use"));
            }
            if matches!(r, Ok(Some(_))) {
                viol(&["D06"], "bad-record-accepted", format!("node {n} accepted a record of kind {kind} nobody may use"));
            }
            return;
        }
        if who >= GHOST0 {
            if let (Some(b), Some(x)) = (before.and_then(|a| self.ghost_version(g, a)), after.and_then(|a| self.ghost_version(g, a))) {
                if x < b {
                    viol(&["D06"], "address-rolled-back", format!("an older record moved node {n} back from version +{} to +{}", b + 2000 - self.base, x + 2000 - self.base));
                }
            }
            self.given_for_sure(n, lf, g, version);
        } else if newer_real && after != Some(c.addr(who)) && c.up(who) {
            viol(&["D06"], "newer-record-not-used", format!("node {n} was given the present record of node {who} but uses {after:?} instead of {}", c.addr(who)));
        } else if kind == 8 && who != n && self.given_real.borrow().get(&(n, lf, who)).is_some_and(|v| *v > version) && after != before {
            viol(&["D06"], "address-rolled-back", format!("a record of an earlier life of node {who} moved node {n} back to {after:?}"));
        }
    }

    // ---------------------------------------------------------------- peers that do not answer

    fn threshold(&self) -> u64 {
        self.plan.get("threshold") as u64
    }

    async fn ping(self: &Rc<Self>, n: usize, m: usize) -> Option<bool> {
        let d = self.dht(n)?;
        let id = self.who_short(m);
        self.run_on(n, "ping", async move { d.ping(&id).await.unwrap_or(false) }).await
    }

    async fn down(self: &Rc<Self>, n: usize, m: usize, fails: u32, how: u8) {
        let c = cl();
        if n == m || !c.up(n) || !c.up(m) || m == self.host {
            return;
        }
        let id = c.id(m, 0).short;
        if !self.dht(n).is_some_and(|d| d.iter_known_peers().any(|p| *p == id)) {
            return;
        }
        let fresh = self.disturbed.borrow_mut().insert(m);
        let fresh = self.disturbed.borrow_mut().insert(n) && fresh;
        let (ipn, ipm) = (*c.addr(n).ip(), *c.addr(m).ip());
        match how % 3 {
            0 if how == 0 => c.crash(m),
            0 | 1 => {
                link(ipn, ipm, |l| l.blocked = true);
                link(ipm, ipn, |l| l.blocked = true);
            }
            _ => {
                link(ipm, ipn, |l| l.blocked = true);
            }
        }
        if how >= 3 {
            // it is left set aside although it answers again
            for _ in 0..fails {
                self.ping(n, m).await;
            }
            heal_links();
            for _ in 0..5 {
                if self.ping(n, m).await != Some(false) {
                    break;
                }
            }
            if self.dht(n).is_some_and(|d| d.is_bad_peer(&id)) {
                count("dht_left_set_aside", 1);
            }
            return;
        }
        let mut row = 0u64;
        for _ in 0..fails {
            match self.ping(n, m).await {
                Some(false) => row += 1,
                Some(true) => row = 0,
                None => return,
            }
        }
        let Some(d) = self.dht(n) else { return };
        nontrivial();
        count("dht_failed_pings", row);
        if 2 * row > self.threshold() && row == fails as u64 && !d.is_bad_peer(&id) {
            viol(&["D05"], "silent-peer-not-set-aside", format!("node {n} still trusts node {m} after {row} queries in a row got no answer (threshold {})", self.threshold()));
        }
        let mut looked = 0;
        if d.is_bad_peer(&id) {
            // lookups leave it out
            let w0 = with(|w| w.wire.len());
            for _ in 0..2 {
                let mut k = [0u8; 32];
                SimRng::new(self.seed ^ self.uid(), 3).fill(&mut k);
                let d2 = d.clone();
                looked += 1;
                let _ = self.run_on(n, "lookup", async move { d2.entry(&k, "x").values::<Val>().next().await.is_some() }).await;
            }
            let to: Ipv4Addr = ipm;
            let asked = with(|w| w.wire[w0..].iter().filter(|x| *x.src.ip() == ipn && *x.dst.ip() == to).count());
            if asked > 0 && d.is_bad_peer(&id) {
                viol(&["D05"], "bad-peer-asked", format!("lookups of node {n} sent {asked} datagrams to node {m} although it was set aside"));
            }
        }
        drop(d);
        // it answers again
        match how % 3 {
            0 => {
                c.restart(m).await;
            }
            _ => heal_links(),
        }
        let mut missed = fails as u64 + looked;
        let mut good = 0;
        let mut tries = 0;
        // every answer makes up for one point, every missed query costs two
        let worst = |missed: u64| (2 * missed).saturating_sub(self.threshold());
        while good < worst(missed) && tries < 100 {
            tries += 1;
            match self.ping(n, m).await {
                Some(true) => good += 1,
                Some(false) => {
                    good = 0;
                    missed += 1;
                }
                None => return,
            }
        }
        if !c.up(n) || !c.up(m) || !fresh {
            return;
        }
        let Some(d) = self.dht(n) else { return };
        let worst = worst(missed);
        if good >= worst && d.is_bad_peer(&id) {
            viol(&["D05"], "answering-peer-still-set-aside", format!("node {n} still does not trust node {m} after it answered {good} queries in a row (it had missed at most {missed})"));
        }
        if good < worst {
            count("dht_recovery_slow", 1);
        }
    }

    /// A peer that answers some queries and not others: two points against one
    async fn flaky(self: &Rc<Self>, n: usize, m: usize, bits: u32, len: u32, how: u8) {
        let c = cl();
        if n == m || !c.up(n) || !c.up(m) || m == self.host {
            return;
        }
        let id = c.id(m, 0).short;
        if !self.dht(n).is_some_and(|d| d.iter_known_peers().any(|p| *p == id)) {
            return;
        }
        let fresh = self.disturbed.borrow_mut().insert(m);
        let fresh = self.disturbed.borrow_mut().insert(n) && fresh;
        let (ipn, ipm) = (*c.addr(n).ip(), *c.addr(m).ip());
        // what the node must hold against the peer at least
        let mut points = 0u64;
        for i in 0..len {
            if bits >> (i % 32) & 1 == 1 {
                if how % 2 == 0 {
                    link(ipn, ipm, |l| l.blocked = true);
                }
                link(ipm, ipn, |l| l.blocked = true);
            } else {
                heal_links();
            }
            match self.ping(n, m).await {
                Some(true) => points = points.saturating_sub(1),
                Some(false) => points += 2,
                None => {
                    heal_links();
                    return;
                }
            }
            count("dht_flaky_pings", 1);
            let Some(d) = self.dht(n) else { break };
            nontrivial();
            let bad = d.is_bad_peer(&id);
            if points > self.threshold() && !bad {
                viol(&["D05"], "silent-peer-not-set-aside", format!("node {n} still trusts node {m} after {} queries, {points} points against it (threshold {})", i + 1, self.threshold()));
            }
            if fresh && points <= self.threshold() && bad {
                viol(&["D05"], "good-peer-set-aside", format!("node {n} set node {m} aside after {} queries with only {points} points against it (threshold {})", i + 1, self.threshold()));
            }
        }
        heal_links();
    }

    /// Lookups of unused keys: peers that never answer have to be left out in the end
    async fn lookups(self: &Rc<Self>, n: usize, k: u32) {
        let c = cl();
        let Some(d) = self.dht(n) else { return };
        let known: Vec<NodeIdShort> = d.iter_known_peers().copied().collect();
        let lives0: Vec<u32> = (0..self.n_real()).map(life).collect();
        let silent = |p: &NodeIdShort| match c.whose(p) {
            Some((m, _)) => !c.up(m),
            None => true,
        };
        let down: Vec<NodeIdShort> = known.iter().copied().filter(|p| silent(p)).collect();
        if known.len() > 5 {
            return;
        }
        for _ in 0..k {
            let mut key = [0u8; 32];
            SimRng::new(self.seed ^ self.uid(), 3).fill(&mut key);
            let d2 = d.clone();
            if self.run_on(n, "lookup", async move { d2.entry(&key, "x").values::<Val>().next().await.is_some() }).await.is_none() {
                return;
            }
        }
        if lives0 != (0..self.n_real()).map(life).collect::<Vec<_>>() || !c.up(n) {
            return;
        }
        if d.iter_known_peers().count() > 5 {
            // lookups ask a part of the peers
            return;
        }
        count("dht_fruitless_lookups", k as u64);
        nontrivial();
        if 2 * k as u64 > self.threshold() + 1 {
            for p in down.iter().filter(|p| silent(p)) {
                if !d.is_bad_peer(p) {
                    viol(&["D05"], "silent-peer-not-set-aside", format!("node {n} still trusts a peer after {k} lookups it did not answer (threshold {})", self.threshold()));
                }
            }
        }
    }

    fn check_good_peers(&self) {
        if !self.plan.is("good_check") {
            return;
        }
        let c = cl();
        for n in 0..self.n_real() {
            let Some(d) = self.dht(n) else { continue };
            for m in 0..self.n_real() {
                let x = self.disturbed.borrow();
                if m != n && c.up(m) && !x.contains(&m) && !x.contains(&n) && d.is_bad_peer(&c.id(m, 0).short) {
                    viol(&["D05"], "good-peer-set-aside", format!("node {n} set node {m} aside although it answered everything"));
                }
            }
        }
    }
}

fn fnv(d: &[u8]) -> u64 {
    d.iter().fold(0xcbf29ce484222325, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3))
}

// ------------------------------------------------------------------ the harness host as a DHT member

struct Host;

#[async_trait::async_trait]
impl QuerySubscriber for Host {
    async fn try_consume_query<'a>(&self, ctx: SubscriberContext<'a>, constructor: u32, query: Cow<'a, [u8]>) -> anyhow::Result<QueryConsumingResult<'a>> {
        let s = st();
        if !s.plan.is("member") {
            return Ok(QueryConsumingResult::Rejected(query));
        }
        let victim = cl().whose(ctx.peer_id).map_or(0, |x| x.0);
        let k = s.hq.get();
        s.hq.set(k + 1);
        let mut r = SimRng::new(s.seed ^ (k << 8), 0xE71);
        Ok(QueryConsumingResult::Consumed(s.host_answer(victim, constructor, &query, &mut r)))
    }
}

impl DSt {
    fn bad_nodes(&self, victim: usize, canary: usize, r: &mut SimRng) -> pd::NodesOwned {
        let mut nodes = Vec::new();
        for _ in 0..r.range(1, 7) {
            let g = r.below(GHOSTS as u64) as usize;
            let x = match r.below(4) {
                0 => self.ghost_record(g, self.base - 1000 + r.below(1500) as u32),
                1 => self.real_record(r.below(self.n_real() as u64) as usize, r.below(2) as usize),
                _ => {
                    let who = if r.chance(0.6) { GHOST0 + g } else { r.below(self.n_real() as u64) as usize };
                    self.bad_record(who, 1 + r.below(7) as u8, r.next() >> 32, victim)
                }
            };
            nodes.push(x);
        }
        if self.plan.is("canary") {
            let x = self.ghost_record(canary, self.base - 500);
            nodes.insert(r.below(nodes.len() as u64 + 1) as usize, x);
        }
        pd::NodesOwned { nodes }
    }

    fn host_answer(&self, victim: usize, constructor: u32, query: &[u8], r: &mut SimRng) -> Option<Vec<u8>> {
        count_fault(Fault::Hostile);
        let w = self.wall(victim);
        match constructor {
            rpc::DhtQuery::TL_ID => {
                let mut o = 0;
                rpc::DhtQuery::read_from(query, &mut o).ok()?;
                let c = u32::from_le_bytes(query.get(o..o + 4)?.try_into().ok()?);
                self.host_answer(victim, c, &query[o..], r)
            }
            rpc::DhtPing::TL_ID => {
                let rpc::DhtPing { random_id } = tl_proto::deserialize(query).ok()?;
                Some(tl_proto::serialize(pd::Pong { random_id: if r.chance(0.3) { random_id ^ 1 } else { random_id } }))
            }
            rpc::DhtFindNode::TL_ID => Some(tl_proto::serialize(self.bad_nodes(victim, 0, r).into_boxed())),
            rpc::DhtStore::TL_ID => Some(tl_proto::serialize(pd::Stored)),
            rpc::DhtFindValue::TL_ID => {
                let rpc::DhtFindValue { key, .. } = tl_proto::deserialize(query).ok()?;
                let name = self.keys.borrow().get(key).cloned();
                let found = |v: pd::ValueOwned| Some(tl_proto::serialize(pd::ValueResultOwned::ValueFound(v.into_boxed())));
                let Some(k) = name else {
                    return Some(tl_proto::serialize(pd::ValueResultOwned::ValueNotFound(self.bad_nodes(victim, 1, r))));
                };
                let evil = self.plan.nodes[self.host].keys[0];
                let ttl = w + 600;
                let who = (0..self.n_real()).find(|m| self.plan.nodes[*m].keys[0] == k.owner).unwrap_or(GHOST0 + (k.owner.wrapping_sub(90_000) as usize) % GHOSTS);
                count("hostile_find_value_answers", 1);
                match (k.kind, r.below(6)) {
                    (_, 0) => Some(tl_proto::serialize(pd::ValueResultOwned::ValueNotFound(self.bad_nodes(victim, 1, r)))),
                    (KeyKind::App, 1) => {
                        // an authentic value of the attacker, under another key
                        let v = Val { uid: 0xBAD, data: vec![9; 9] };
                        found(make_value(evil, &k.name, k.idx, &tl_proto::serialize(v), ttl))
                    }
                    (KeyKind::OverlayAt(_), _) => None,
                    (KeyKind::App, _) => found(self.forged_value(who, r, ttl)),
                    (KeyKind::Addr, x) => {
                        let a = addr_list(SocketAddrV4::new(Ipv4Addr::new(10, 0, 248, 99), 999), w, self.base, 0);
                        let a = tl_proto::serialize_as_boxed(a);
                        let mut v = make_value(evil, "address", 0, &a, ttl);
                        let owner = codec::make_key(k.owner);
                        match x {
                            1 => {}
                            2 => v.key.key.id = *owner.id().as_slice(),
                            3 => {
                                v.key.key.id = *owner.id().as_slice();
                                v.key.id = owner.full_id().as_tl().as_equivalent_owned();
                            }
                            _ => {
                                v.key.key.id = *owner.id().as_slice();
                                v.key.id = owner.full_id().as_tl().as_equivalent_owned();
                                v.key.update_rule = if x == 4 { pd::UpdateRule::Anybody } else { pd::UpdateRule::OverlayNodes };
                                v.signature = Default::default();
                                v.key.signature = Default::default();
                            }
                        }
                        found(v)
                    }
                    (KeyKind::Overlay(ov), x) => {
                        let list = self.overlay_list(ov, r, true);
                        let mut v = overlay_value(if x == 1 { ov + 7 } else { ov }, &list, ttl);
                        if x == 2 {
                            v.key.update_rule = pd::UpdateRule::Anybody;
                        }
                        found(v)
                    }
                }
            }
            rpc::DhtGetSignedAddressList::TL_ID => Some(tl_proto::serialize(self.bad_record(self.host, 1, 5, victim).into_boxed())),
            _ => None,
        }
    }
}

// ------------------------------------------------------------------ scenario

fn options() -> dht::NodeOptions {
    let s = st();
    dht::NodeOptions {
        value_ttl_sec: s.plan.get("value_ttl") as u32,
        query_timeout_ms: s.plan.get("dht_timeout") as u64,
        bad_peer_threshold: s.plan.get("threshold") as usize,
        storage_gc_interval_ms: s.plan.get("gc_ms") as u64,
        max_key_name_len: s.key_limits().0,
        max_key_index: s.key_limits().1,
        ..Default::default()
    }
}

pub struct Fam;
impl Family for Fam {
    fn attach(&self, n: usize, node: &Arc<adnl::Node>) {
        let s = st();
        if n == s.host {
            node.add_query_subscriber(Arc::new(Host)).unwrap();
            return;
        }
        let d = dht::Node::new(node.clone(), 0, options()).unwrap();
        s.stacks.borrow_mut().insert(n, d);
    }
    fn built(&self, n: usize) -> bool {
        let s = st();
        n != s.host && s.plan.get("builder") >> n & 1 == 1
    }
    fn build(&self, n: usize, addr: SocketAddrV4, ks: adnl::Keystore, opts: adnl::NodeOptions) -> anyhow::Result<Arc<adnl::Node>> {
        let b = NetworkBuilder::with_adnl(addr, ks, opts).with_dht(0, options());
        let s = st();
        let (node, d) = match s.plan.get("builder4") >> n & 1 {
            1 => {
                let (node, d, ..) = b.with_rldp(Default::default()).with_overlay(0).build()?;
                (node, d)
            }
            _ => b.build()?,
        };
        s.stacks.borrow_mut().insert(n, d);
        count("built_stacks", 1);
        Ok(node)
    }
    fn started(&self, n: usize, _node: &Arc<adnl::Node>) {
        let s = st();
        s.epoch.borrow_mut()[n] += 1;
        let boot = s.boot.borrow().get(&n).cloned().unwrap_or_default();
        for m in boot {
            if !cl().lives(m).is_empty() {
                s.add(n, m, 0, 0);
            }
        }
    }
    fn gone(&self, n: usize) {
        let s = st();
        let x = s.stacks.borrow_mut().remove(&n);
        drop(x);
    }
}

struct Pend(Rc<DSt>);
impl Drop for Pend {
    fn drop(&mut self) {
        self.0.pending.set(self.0.pending.get() - 1);
    }
}

async fn op(o: &Op, serial: bool) {
    let c = cl();
    let s = st();
    let o = o.clone();
    match o {
        Op::Learn { n, k, to, tk } => {
            c.learn(n, k, to, tk);
        }
        Op::DAdd { n, who, kind, ver } => s.add(n, who, kind, ver),
        Op::DCrowd { n, count, arg } => s.add_crowd(n, count, arg),
        Op::Restart { n } => {
            let c2 = c.clone();
            if serial {
                c2.restart(n).await;
            } else {
                spawn_local(async move {
                    c2.restart(n).await;
                });
            }
        }
        Op::Crash { n } => {
            s.disturbed.borrow_mut().insert(n);
            c.crash(n);
        }
        Op::Skew { n, .. } => {
            let before = s.wall(n);
            c.env_op(&o).await;
            s.jumped(n, before);
        }
        Op::DStore { .. } | Op::DFind { .. } | Op::DStoreAddr { .. } | Op::DFindAddr { .. } | Op::DStoreOverlay { .. } | Op::DFindOverlay { .. } | Op::DPing { .. } | Op::DFindMore { .. } | Op::DRaw { .. } | Op::DDown { .. } | Op::DFlaky { .. } | Op::DLookups { .. } | Op::DNear { .. } => {
            let p = Pend(s.clone());
            s.pending.set(s.pending.get() + 1);
            let s2 = s.clone();
            let f = async move {
                let _p = p;
                let s = s2;
                match o {
                    Op::DStore { n, id, len, ttl, mode } => s.store(n, id, len, ttl, mode).await,
                    Op::DFind { n, id, who, mode } => s.find(n, id, who, mode).await,
                    Op::DStoreAddr { n } => s.store_addr(n).await,
                    Op::DFindAddr { n, who } => s.find_addr(n, who).await,
                    Op::DStoreOverlay { n, ov } => s.store_overlay(n, ov).await,
                    Op::DFindOverlay { n, ov } => s.find_overlay(n, ov).await,
                    Op::DPing { n, to } => {
                        s.ping(n, to).await;
                    }
                    Op::DFindMore { n } => {
                        if let Some(d) = s.dht(n) {
                            let due = s.due_referrals(n);
                            s.run_on(n, "find_more_dht_nodes", async move { d.find_more_dht_nodes().await.is_ok() }).await;
                            s.check_referrals(n).await;
                            s.check_due(n, due);
                        }
                    }
                    Op::DRaw { n, kind, arg } => s.host_op(n, kind, arg).await,
                    Op::DDown { n, m, fails, how } => s.down(n, m, fails, how).await,
                    Op::DFlaky { n, m, bits, len, how } => s.flaky(n, m, bits, len, how).await,
                    Op::DLookups { n, k } => s.lookups(n, k).await,
                    Op::DNear { n, m, how, k, arg } => {
                        s.near(n, m, how, k, arg).await;
                        if arg % 8 == 0 {
                            s.own_record(n).await;
                        }
                    }
                    _ => {}
                }
            };
            if serial {
                f.await;
            } else {
                spawn_local(f);
            }
        }
        _ => {
            c.env_op(&o).await;
        }
    }
}

/// Peers nobody runs, for filling routing tables
fn crowd_pool() -> &'static [(u64, [u8; 32])] {
    static POOL: std::sync::OnceLock<Vec<(u64, [u8; 32])>> = std::sync::OnceLock::new();
    POOL.get_or_init(|| (0..600u64).map(|i| (300_000 + i, *ident(300_000 + i).short.as_slice())).collect())
}

fn common_bits(a: &[u8; 32], b: &[u8; 32]) -> usize {
    (0..256).find(|i| (a[i / 8] ^ b[i / 8]) >> (7 - i % 8) & 1 == 1).unwrap_or(256)
}

/// Of the known peers those nearer to the key than the node itself, each with its distance class (nearest first)
fn nearer(local: &[u8; 32], key: &[u8; 32], known: &BTreeSet<[u8; 32]>) -> Vec<(usize, [u8; 32])> {
    let mut v: Vec<_> = known
        .iter()
        .filter_map(|p| {
            let d = common_bits(local, p);
            // the peer and the key differ from the node in the same bit
            (d < 256 && (local[d / 8] ^ key[d / 8]) >> (7 - d % 8) & 1 == 1).then_some((d, *p))
        })
        .collect();
    v.sort();
    v
}

impl DSt {
    fn known(&self, n: usize) -> BTreeSet<[u8; 32]> {
        self.dht(n).map(|d| d.iter_known_peers().map(|x| *x.as_slice()).collect()).unwrap_or_default()
    }

    fn add_crowd(&self, n: usize, many: u32, arg: u64) {
        let c = cl();
        let Some(d) = self.dht(n) else { return };
        let mut r = SimRng::new(arg, 0xC0);
        let pool = crowd_pool();
        let me = *c.id(n, 0).short.as_slice();
        let lf = life(n);
        let mut near: Vec<_> = pool.to_vec();
        near.sort_by_key(|x| std::cmp::Reverse(common_bits(&me, &x.1)));
        for _ in 0..many {
            // half of them close to the node itself
            let (seed, id) = if r.chance(0.5) { near[r.below(12) as usize] } else { *r.pick(pool) };
            let version = self.base - 1000 + r.below(900) as u32;
            let addr = SocketAddrV4::new(Ipv4Addr::new(10, 0, 247, 1 + (seed % 250) as u8), 2000 + (seed % 1000) as u16);
            let rec = make_record(seed, seed, addr_list(addr, version, self.base - 3000, 0), version);
            match c.on(n, || d.add_dht_peer(rec)) {
                Ok(_) => {
                    let mut m = self.crowd.borrow_mut();
                    let e = m.entry((n, lf, id)).or_insert(version);
                    *e = (*e).max(version);
                }
                Err(e) => viol(&["D07", "D06"], "good-record-refused", format!("node {n} refused a valid record: {e:#}")),
            }
            if !self.known(n).contains(&id) {
                viol(&["D07", "D06"], "good-record-ignored", format!("node {n} does not know a peer after it was given its valid record"));
            }
        }
        count("crowd_records", many as u64);
    }

    async fn near(self: &Rc<Self>, n: usize, m: usize, how: u8, k: u32, arg: u64) {
        let c = cl();
        if !c.up(n) || !c.up(m) || n == m {
            return;
        }
        let mut r = SimRng::new(arg, 0xAEA2);
        let me = *c.id(n, 0).short.as_slice();
        let pool = crowd_pool();
        let mut key = match r.below(5) {
            0 => r.pick(pool).1,
            1 => me,
            2 | 3 => {
                let mut k = me;
                for _ in 0..r.range(1, 3) {
                    let b = if r.chance(0.7) { r.below(12) } else { r.below(256) } as usize;
                    k[b / 8] ^= 0x80 >> (b % 8);
                }
                k
            }
            _ => {
                let mut k = [0u8; 32];
                r.fill(&mut k);
                k
            }
        };
        let lf = life(n);
        let before = self.known(n);
        let floors = self.crowd.borrow().clone();
        let (gsnap, given) = (self.gbucket.borrow().clone(), self.given.borrow().clone());
        // asked for a value nobody has it names any nodes
        let any = how == 3;
        let nodes = if any {
            r.fill(&mut key);
            if k == 0 || k > 20 {
                // (more than a node is willing to name)
                let _ = self.raw(n, tl_proto::serialize(rpc::DhtFindValue { key: &key, k }), 1500).await;
                return;
            }
            let Some(a) = self.raw(n, tl_proto::serialize(rpc::DhtFindValue { key: &key, k }), 1500).await else {
                self.silent(n, self.host);
                return;
            };
            match tl_proto::deserialize::<pd::ValueResult>(&a) {
                Ok(pd::ValueResult::ValueNotFound(x)) => x.nodes,
                _ => {
                    viol(&["D07"], "malformed", format!("node {n} answered a find value query for a key nobody uses with something else than nodes"));
                    return;
                }
            }
        } else if how == 0 {
            let Some(a) = self.raw(n, tl_proto::serialize(rpc::DhtFindNode { key: &key, k }), 1500).await else {
                self.silent(n, self.host);
                return;
            };
            match tl_proto::deserialize_as_boxed::<pd::NodesOwned>(&a) {
                Ok(x) => x.nodes,
                Err(e) => {
                    viol(&["D07"], "malformed", format!("node {n} answered a find node query with something else: {e}"));
                    return;
                }
            }
        } else {
            let Some(d) = self.dht(m) else { return };
            if !self.known(m).contains(&me) {
                return;
            }
            key = *c.id(m, 0).short.as_slice();
            let you = c.id(n, 0).short;
            let store_self = how == 2;
            let lm = life(m);
            let x = self.run_on(m, "query_dht_nodes", async move { d.query_dht_nodes(&you, k, store_self).await }).await;
            if !c.up(m) || life(m) != lm {
                return;
            }
            match x {
                Some(Ok(x)) => {
                    if store_self && self.plan.is("steady") && c.up(n) && life(n) == lf && !self.known(n).contains(&key) {
                        viol(&["D07"], "asker-not-known", format!("node {n} does not know node {m} which sent its own record ahead of a query"));
                    }
                    // (no answer looks the same as an empty one)
                    if x.is_empty() && !self.plan.is("steady") {
                        return;
                    }
                    x
                }
                _ => return,
            }
        };
        if !c.up(n) || life(n) != lf {
            return;
        }
        nontrivial();
        count("find_node_answers", 1);
        let after = self.known(n);
        let mut ids = Vec::new();
        for x in &nodes {
            let r = x.as_equivalent_ref();
            self.check_record(n, lf, &gsnap, &given, &r, "find node");
            if !record_ok(&r) {
                viol(&["D07"], "unsigned-record-offered", format!("node {n} named a node without a validly signed record"));
                return;
            }
            let id = tl_proto::hash(r.id);
            if floors.get(&(n, lf, id)).is_some_and(|v| *v > r.version) {
                viol(&["D07", "D06"], "stale-record-offered", format!("node {n} offered an older record of a peer than it was given"));
            }
            if !after.contains(&id) {
                viol(&["D07"], "unknown-node-named", format!("node {n} named a node it does not know"));
            }
            if ids.contains(&id) {
                viol(&["D07"], "named-twice", format!("node {n} named a node twice in one answer"));
            }
            ids.push(id);
        }
        if nodes.len() > k as usize {
            viol(&["D07"], "too-many-nodes", format!("node {n} named {} nodes when asked for {k}", nodes.len()));
        }
        if before != after {
            count("find_node_while_changing", 1);
            return;
        }
        if any {
            let want = before.len().min(k as usize);
            count("find_value_referrals", 1);
            if ids.len() != want {
                viol(&["D07"], "referrals-left-out", format!("node {n} was asked for a value it does not have and for up to {k} nodes; it named {} of the {} it knows", ids.len(), before.len()));
            }
            return;
        }
        let due = nearer(&me, &key, &before);
        let want: Vec<usize> = due.iter().take(k as usize).map(|x| x.0).collect();
        if want.len() > 1 {
            count("find_node_several_due", 1);
        }
        if due.len() > k as usize {
            count("find_node_limited", 1);
        }
        let mut got: Vec<usize> = ids.iter().map(|x| common_bits(&me, x)).collect();
        got.sort();
        if let Some(x) = ids.iter().find(|x| !due.iter().any(|d| d.1 == **x)) {
            viol(&["D07"], "farther-node-named", format!("node {n} named a node that shares {} bits with it and is not nearer to the key (which shares {})", common_bits(&me, x), common_bits(&me, &key)));
        } else if got != want {
            viol(&["D07"], "nearer-node-left-out", format!("node {n} was asked for {k} nodes and knows {} nearer to the key than itself; it named ones at distance classes {got:?}, the nearest are at {want:?}", due.len()));
        }
    }

    /// No answer on a network that loses nothing
    fn silent(&self, n: usize, m: usize) {
        if self.plan.is("steady") {
            viol(&["D07"], "no-answer", format!("node {n} did not answer a find node query of node {m} on a network that loses nothing"));
        }
    }

    /// What the peers of node `n` have to name when it asks all of them
    fn due_referrals(&self, n: usize) -> BTreeSet<[u8; 32]> {
        let c = cl();
        let mut due = BTreeSet::new();
        if !self.plan.is("steady") {
            return due;
        }
        let me = *c.id(n, 0).short.as_slice();
        let known = self.known(n);
        for m in 0..self.n_real() {
            let id = *c.id(m, 0).short.as_slice();
            if m != n && c.up(m) && known.contains(&id) {
                let x = nearer(&id, &me, &self.known(m));
                if x.len() <= 10 {
                    due.extend(x.iter().map(|x| x.1).filter(|x| *x != me));
                }
            }
        }
        due
    }

    fn check_due(&self, n: usize, due: BTreeSet<[u8; 32]>) {
        if due.is_empty() || !cl().up(n) {
            return;
        }
        nontrivial();
        count("referrals_due", due.len() as u64);
        let known = self.known(n);
        let missing = due.iter().filter(|x| !known.contains(*x)).count();
        if missing > 0 {
            viol(&["D07"], "referral-not-taken-up", format!("after asking all its peers for nodes, node {n} does not know {missing} of {} nodes they had to name", due.len()));
        }
    }

    /// Every node offers a valid record of itself
    async fn own_record(&self, n: usize) {
        let c = cl();
        let lf = life(n);
        let q = tl_proto::serialize(rpc::DhtGetSignedAddressList);
        let Some(a) = self.raw(n, q, 1500).await else { return };
        if !c.up(n) || life(n) != lf {
            return;
        }
        nontrivial();
        let Ok(x) = tl_proto::deserialize_as_boxed::<pd::NodeOwned>(&a) else {
            viol(&["D07"], "malformed", format!("node {n} answered with something else than its own record"));
            return;
        };
        let r = x.as_equivalent_ref();
        let addr = r.addr_list.address.as_ref().map(|a| SocketAddrV4::new(Ipv4Addr::from(a.ip), a.port as u16));
        let old = self.own.borrow_mut().insert((n, lf), (r.version, r.addr_list.expire_at));
        if old.is_some_and(|o| o.1 < r.addr_list.expire_at && o.0 >= r.version) {
            viol(&["D07", "D06"], "own-record-not-newer", format!("node {n} offers a record of itself valid for longer than an earlier one but not of a newer version: nobody will take it up"));
        }
        let life = c.lives(n)[lf as usize].clone();
        if !record_ok(&r) || tl_proto::hash(r.id) != *c.id(n, 0).short.as_slice() {
            viol(&["D07"], "own-record-invalid", format!("node {n} offers a record of itself that is not validly signed by it"));
        } else if addr != Some(life.addr) {
            viol(&["D07"], "own-record-wrong", format!("node {n} offers a record of itself with address {addr:?} instead of {}", life.addr));
        } else if self.epoch.borrow()[n] as usize != c.lives(n).len() {
            // the clock was set meanwhile
        } else if r.version < life.start_time || r.version > self.wall(n) + 1 {
            viol(&["D07"], "own-record-version", format!("node {n} offers a record of itself of version {}, it was started at {} and its clock shows {}", r.version, life.start_time, self.wall(n)));
        }
    }

    /// After asking all peers for nodes on a good network their valid records have to be known
    async fn check_referrals(self: &Rc<Self>, n: usize) {
        if !self.plan.is("referrals") {
            return;
        }
        let c = cl();
        let Some(d) = self.dht(n) else { return };
        let known: BTreeSet<NodeIdShort> = d.iter_known_peers().copied().collect();
        if !known.contains(&c.id(self.host, 0).short) || !self.plan.is("member") {
            return;
        }
        // the host lists the canary among bad records
        if !known.contains(&ident(ghost_seed(0)).short) {
            viol(&["D05"], "good-record-ignored", format!("node {n} did not take up a valid record listed among bad ones"));
        }
        // the same in answers to a lookup of something nobody has
        let lf = life(n);
        let mut key = [0u8; 32];
        SimRng::new(self.seed ^ self.uid(), 3).fill(&mut key);
        let d2 = d.clone();
        let fut = async move {
            let mut s = d2.entry(&key, "x").values::<Val>().use_full_batch();
            while s.next().await.is_some() {}
        };
        if d.is_bad_peer(&c.id(self.host, 0).short) || self.run_on(n, "lookup", fut).await.is_none() {
            return;
        }
        if c.up(n) && life(n) == lf && !d.iter_known_peers().any(|p| *p == ident(ghost_seed(1)).short) {
            viol(&["D05"], "good-record-ignored", format!("node {n} did not take up a valid record listed among bad ones in the answer to a lookup"));
        }
    }
}

pub async fn main(plan: Plan) {
    let plan = Rc::new(plan);
    let c = super::cluster::install(&plan);
    let host = plan.nodes.len() - 1;
    let s = Rc::new(DSt {
        plan: plan.clone(),
        seed: plan.seed,
        base: wall_secs(c.sid(host)),
        host,
        next: Cell::new(1),
        hq: Cell::new(1),
        pending: Cell::new(0),
        max_ttl: Cell::new(0),
        stacks: Default::default(),
        vals: Default::default(),
        keys: Default::default(),
        addrs: Default::default(),
        obs: Default::default(),
        epoch: RefCell::new(vec![0; plan.nodes.len()]),
        sent: Default::default(),
        given: Default::default(),
        given_real: Default::default(),
        gaddr: Default::default(),
        gbucket: Default::default(),
        boot: Default::default(),
        disturbed: Default::default(),
        crowd: Default::default(),
        own: Default::default(),
    });
    ST.with(|x| *x.borrow_mut() = Some(s.clone()));
    *c.fam.borrow_mut() = Some(Rc::new(Fam));
    c.start_all();
    // the host and the nodes know each other's addresses
    for n in 0..host {
        c.learn(host, 0, n, 0);
        c.learn(n, 0, host, 0);
    }
    {
        let s = s.clone();
        spawn_local(async move {
            loop {
                sleep(Duration::from_millis(25)).await;
                s.check_ghosts();
                s.check_good_peers();
            }
        });
    }
    let serial = plan.is("serial");
    for step in &plan.steps {
        if step.at > 0 {
            sleep_until_ms(step.at).await;
            note(|| format!("{:?}", step.op));
        }
        op(&step.op, serial).await;
    }
    let t0 = now_ms();
    while s.pending.get() > 0 && now_ms() < t0 + 400_000 {
        sleep(Duration::from_millis(50)).await;
    }
    if s.pending.get() > 0 {
        // the calls themselves are watched in run_on
        count("dht_pending_at_end", 1);
    }
    calm();
    sleep(Duration::from_millis(plan.settle)).await;
    for n in 0..host {
        if !c.up(n) {
            c.restart(n).await;
        }
    }
    let keys: Vec<[u8; 32]> = s.keys.borrow().keys().copied().collect();
    for n in 0..host {
        for k in &keys {
            s.probe(n, *k).await;
        }
        for g in 0..GHOSTS {
            s.probe_nodes(n, *ident(ghost_seed(g)).short.as_slice(), 20).await;
        }
        s.own_record(n).await;
    }
    s.check_ghosts();
    s.check_good_peers();
    if plan.is("check_drain") {
        // everything expires
        let last = s.vals.borrow().values().flat_map(|m| m.values().map(|v| v.0)).max().unwrap_or(0);
        let last = last.max(s.obs.borrow().values().map(|o| o.ttl.max(o.floor).max(o.floors_ttl)).max().unwrap_or(0)).max(s.base + 310).max(s.max_ttl.get());
        for n in 0..host {
            while s.wall(n) <= last + 1 {
                sleep(Duration::from_millis(1000)).await;
            }
        }
        sleep(Duration::from_millis(2 * plan.get("gc_ms") as u64 + 2000)).await;
        for n in 0..host {
            let Some(d) = s.dht(n) else { continue };
            nontrivial();
            let m = d.metrics();
            if m.storage_len != 0 || m.storage_total_size != 0 {
                viol(&["D03"], "not-dropped", format!("node {n} keeps {} values after all of them expired", m.storage_len));
            }
            for k in &keys {
                if let Some(Some(_)) = s.probe(n, *k).await {
                    viol(&["D03"], "expired-served", format!("node {n} serves a value after all of them expired"));
                }
            }
        }
    }
}

pub fn info(p: &str) -> Option<&'static str> {
    Some(match p {
        "D01" => "a store or lookup ended and its result was compared with what the nodes hold",
        "D02" => "a served or returned value was checked against what its owner signed",
        "D03" => "a node was asked for a stored value and its expiry compared with earlier answers",
        "D04" => "a served overlay list was compared with confirmed stores",
        "D05" => "a peer's standing was compared with the answers it gave",
        "D07" => "a node's answer to a query for nodes was compared with the nodes it knows",
        "D06" => "a node's idea of a peer's address was compared with the records it was given",
        _ => return None,
    })
}

pub fn generate(p: &str, index: u64, seed: u64, rng: &mut SimRng, thorough: bool) -> Plan {
    let mut plan = Plan::new(p, "dht", index, seed);
    let deep = if thorough { 2 } else { 1 };
    let big = p == "D01" && rng.chance(0.15);
    let n = if big { rng.range(7, 13) } else { rng.range(2, 6) } as usize;
    for i in 0..=n {
        let mut s = NodeSpec::random(i, rng);
        s.query_timeout = *rng.pick(&[600, 1000]);
        plan.nodes.push(s);
    }
    plan.set("value_ttl", *rng.pick(&[3600i64, 100, 30]));
    if rng.chance(0.4) {
        plan.set("builder", (rng.next() & 0xff) as i64);
    }
    plan.set("builder4", (rng.next() & 0xff) as i64);
    plan.set("dht_timeout", *rng.pick(&[500i64, 1000]));
    plan.set("key_name", *rng.pick(&[127i64, 127, 12, 7]));
    plan.set("key_idx", *rng.pick(&[15i64, 15, 5]));
    plan.set("threshold", *rng.pick(&[5i64, 5, 3, 8]));
    plan.set("gc_ms", *rng.pick(&[10_000i64, 3_000, 1_000]));
    let t1 = *rng.pick(&[300u64, 2_000, 10_000]);
    let ops = rng.range(5, 30 * deep) as usize;
    let nn = n as u64;
    // who knows whom at first
    let connect = |plan: &mut Plan, rng: &mut SimRng, full: f64| {
        for b in 1..n {
            let a = rng.below(b as u64) as usize;
            plan.push(1, Op::DAdd { n: a, who: b, kind: 0, ver: 0 });
            plan.push(1, Op::DAdd { n: b, who: a, kind: 0, ver: 0 });
        }
        for a in 0..n {
            for b in 0..n {
                if a != b && rng.chance(full) {
                    plan.push(1, Op::DAdd { n: a, who: b, kind: 0, ver: 0 });
                }
            }
        }
    };
    let full = *rng.pick(&[0.0, 0.3, 1.0]);
    match p {
        "D01" => {
            plan.set("expect", 1);
            plan.set("serial", rng.chance(0.7) as i64);
            plan.knobs = Knobs::random_sched(rng);
            plan.knobs.lat_max_us = plan.knobs.lat_max_us.min(40_000);
            plan.knobs.lat_min_us = plan.knobs.lat_min_us.min(1_000);
            plan.knobs.stall_max_us = plan.knobs.stall_max_us.min(5_000);
            if rng.chance(0.3) {
                plan.knobs.add_dups(rng);
            }
            connect(&mut plan, rng, full);
            for _ in 0..ops {
                let a = rng.below(nn) as usize;
                let at = rng.range(10, t1);
                let o = match rng.below(14) {
                    0..=3 => Op::DStore { n: a, id: rng.below(4), len: rng.below(600) as usize, ttl: rng.range(20, 300), mode: *rng.pick(&[0u8, 1, 1, 2, 3]) },
                    4..=8 => Op::DFind { n: a, id: rng.below(4), who: rng.below(nn) as usize, mode: rng.below(5) as u8 },
                    9 => Op::DStoreAddr { n: a },
                    10 => Op::DFindAddr { n: a, who: rng.below(nn) as usize },
                    11 => Op::DStoreOverlay { n: a, ov: rng.below(2) },
                    12 => Op::DFindOverlay { n: a, ov: rng.below(2) },
                    _ => Op::DFindMore { n: a },
                };
                plan.push(at, o);
            }
            if rng.chance(if big { 0.8 } else { 0.2 }) {
                // values only one or two nodes hold
                for _ in 0..rng.range(1, 6) {
                    let arg = rng.below(2 * GHOSTS as u64);
                    let at = rng.range(10, t1);
                    for i in 0..rng.range(1, 2) {
                        plan.push(at + i, Op::DRaw { n: rng.below(nn) as usize, kind: 11, arg });
                    }
                    for i in 0..rng.range(1, 3) {
                        let who = GHOST0 + arg as usize % GHOSTS;
                        plan.push(at + 100 + i, Op::DFind { n: rng.below(nn) as usize, id: arg / GHOSTS as u64 % 2, who, mode: *rng.pick(&[0u8, 1, 1, 1, 2, 4]) });
                    }
                }
            }
            if rng.chance(0.3) {
                // addresses, some out of date
                for _ in 0..rng.range(1, 3) {
                    let g = rng.below(GHOSTS as u64);
                    let at = rng.range(10, t1);
                    for i in 0..rng.range(1, 4) {
                        plan.push(at + i, Op::DRaw { n: rng.below(nn) as usize, kind: 12, arg: g + GHOSTS as u64 * (rng.next() >> 40) });
                    }
                    for i in 0..rng.range(1, 3) {
                        plan.push(at + 100 + i, Op::DFindAddr { n: rng.below(nn) as usize, who: GHOST0 + g as usize });
                    }
                    if rng.chance(0.5) {
                        plan.push(at + 110, Op::DRaw { n: rng.below(nn) as usize, kind: 14, arg: rng.next() >> 20 });
                        for i in 0..2 {
                            plan.push(at + 200 + i, Op::DFindOverlay { n: rng.below(nn) as usize, ov: rng.below(2) });
                        }
                    }
                }
            }
            if rng.chance(0.3) {
                // some or all others hold a later value of a node already
                let a = rng.below(nn) as usize;
                let id = rng.below(4);
                let at = rng.range(10, t1);
                let all = rng.chance(0.5);
                for m in (0..n).filter(|m| *m != a) {
                    if all || rng.chance(0.5) {
                        plan.push(at, Op::DRaw { n: m, kind: 13, arg: a as u64 + nn * (id + 4 * (rng.next() >> 40)) });
                    }
                }
                plan.push(at + 100, Op::DStore { n: a, id, len: rng.below(200) as usize, ttl: rng.range(100, 250), mode: 1 });
            }
            if plan.is("serial") && rng.chance(0.3) {
                // a peer set aside that answers again
                let a = rng.below(nn) as usize;
                let at = rng.range(10, t1);
                let m = (a + 1 + rng.below(nn - 1) as usize) % n;
                plan.push(at, Op::DDown { n: a, m, fails: 6, how: 4 });
                for i in 0..rng.range(1, 3) {
                    plan.push(at + 10 + i, Op::DStore { n: a, id: rng.below(4), len: rng.below(600) as usize, ttl: rng.range(100, 300), mode: rng.below(2) as u8 });
                }
            }
            if rng.chance(0.4) {
                let x = rng.below(nn) as usize;
                let at = rng.range(10, t1);
                plan.push(at, Op::Crash { n: x });
                if rng.chance(0.6) {
                    plan.push(at + rng.range(10, 3000), Op::Restart { n: x });
                }
            }
        }
        "D02" => {
            plan.knobs = if rng.chance(0.5) { Knobs::random_sched(rng) } else { Knobs::swarm(rng) };
            plan.set("member", 1);
            connect(&mut plan, rng, full);
            for a in 0..n {
                if rng.chance(0.8) {
                    plan.push(2, Op::DAdd { n: a, who: n, kind: 0, ver: 0 });
                }
            }
            for _ in 0..ops {
                let a = rng.below(nn) as usize;
                let at = rng.range(10, t1);
                let who = if rng.chance(0.3) { GHOST0 + rng.below(GHOSTS as u64) as usize } else { rng.below(nn) as usize };
                let o = match rng.below(16) {
                    0 | 1 => Op::DStore { n: a, id: rng.below(2), len: rng.below(200) as usize, ttl: rng.range(20, 300), mode: *rng.pick(&[0u8, 1, 2]) },
                    2..=5 => Op::DFind { n: a, id: rng.below(2), who, mode: *rng.pick(&[0u8, 1, 2, 4]) },
                    6 => Op::DStoreAddr { n: a },
                    7 | 8 => Op::DFindAddr { n: a, who },
                    9 => Op::DStoreOverlay { n: a, ov: rng.below(2) },
                    10 => Op::DFindOverlay { n: a, ov: rng.below(2) },
                    _ => Op::DRaw { n: a, kind: *rng.pick(&[0u8, 1, 2, 2, 2, 4, 4, 5, 9]), arg: rng.next() >> 20 },
                };
                plan.push(at, o);
            }
        }
        "D03" | "D04" => {
            plan.knobs = if rng.chance(0.5) { Knobs::lossless(rng) } else { Knobs::swarm(rng) };
            if p == "D03" && rng.chance(0.5) {
                plan.set("check_drain", 1);
            }
            if rng.chance(0.3) {
                connect(&mut plan, rng, full);
            }
            let t1 = *rng.pick(&[300u64, 3_000, 15_000, 70_000]);
            let target = rng.below(nn) as usize;
            for _ in 0..ops * 2 {
                let a = if rng.chance(0.7) { target } else { rng.below(nn) as usize };
                let at = rng.range(10, t1);
                let kinds: &[u8] = if p == "D03" { &[0, 0, 0, 1, 1, 1, 2, 5, 5, 9] } else { &[0, 0, 0, 3, 3, 3, 3, 4, 5, 5] };
                let o = if rng.chance(0.1) {
                    if p == "D03" {
                        Op::DStore { n: a, id: rng.below(2), len: 10, ttl: rng.range(1, 60), mode: 0 }
                    } else {
                        Op::DStoreOverlay { n: a, ov: rng.below(2) }
                    }
                } else {
                    Op::DRaw { n: a, kind: *rng.pick(kinds), arg: rng.next() >> 20 }
                };
                plan.push(at, o);
            }
            if rng.chance(0.4) {
                for _ in 0..rng.range(1, 3) {
                    plan.push(rng.range(10, t1), Op::Skew { n: target, ms: *rng.pick(&[-5_000i64, -1_000, 1_000, 5_000, 20_000, 100_000]) });
                }
            }
            if rng.chance(0.2) {
                let at = rng.range(10, t1);
                plan.push(at, Op::Crash { n: target });
                plan.push(at + rng.range(10, 3000), Op::Restart { n: target });
            }
        }
        "D05" => {
            plan.set("serial", 1);
            plan.knobs = Knobs::random_sched(rng);
            plan.knobs.lat_max_us = plan.knobs.lat_max_us.min(40_000);
            plan.knobs.lat_min_us = plan.knobs.lat_min_us.min(1_000);
            plan.knobs.stall_max_us = plan.knobs.stall_max_us.min(5_000);
            plan.set("good_check", 1);
            connect(&mut plan, rng, 1.0);
            if rng.chance(0.35) {
                // a member whose answers hold useless records
                plan.set("member", 1);
                plan.set("canary", 1);
                plan.set("referrals", 1);
                for a in 0..n {
                    plan.push(2, Op::DAdd { n: a, who: n, kind: 0, ver: 0 });
                }
            }
            let member = plan.is("member");
            for _ in 0..rng.range(2, 8 * deep) {
                let a = rng.below(nn) as usize;
                let b = (a + 1 + rng.below(nn - 1) as usize) % n;
                let at = rng.range(10, t1);
                let o = match rng.below(9) {
                    8 if !member => {
                        let bits = match rng.below(3) {
                            0 => 0x5555_5555,
                            1 => 0x9249_2492,
                            _ => rng.next() as u32,
                        };
                        Op::DFlaky { n: a, m: b, bits, len: rng.range(4, 24) as u32, how: rng.below(2) as u8 }
                    }
                    0 | 1 if !member => Op::DDown { n: a, m: b, fails: rng.range(1, 8) as u32, how: rng.below(3) as u8 },
                    2 if !member => Op::DLookups { n: a, k: rng.range(1, 12) as u32 },
                    3 => Op::DPing { n: a, to: b },
                    4 => Op::DStore { n: a, id: rng.below(2), len: 10, ttl: 100, mode: rng.below(2) as u8 },
                    5 => Op::DFind { n: a, id: rng.below(2), who: b, mode: rng.below(5) as u8 },
                    _ => Op::DFindMore { n: a },
                };
                plan.push(at, o);
            }
            if !member && rng.chance(0.4) {
                let x = rng.below(nn) as usize;
                plan.push(5, Op::Crash { n: x });
                let a = (x + 1) % n;
                plan.push(t1, Op::DLookups { n: a, k: rng.range(2, 10) as u32 });
            }
            if !member && rng.chance(0.3) {
                let a = rng.below(nn) as usize;
                plan.push(6, Op::DAdd { n: a, who: GHOST0, kind: 0, ver: 5 });
                plan.push(t1 + 1, Op::DLookups { n: a, k: rng.range(2, 10) as u32 });
            }
        }
        "D07" => {
            let steady = rng.chance(0.5);
            plan.set("steady", steady as i64);
            plan.knobs = if steady { Knobs::random_sched(rng) } else { Knobs::swarm(rng) };
            plan.set("serial", (steady || rng.chance(0.5)) as i64);
            if steady {
                plan.knobs.lat_max_us = plan.knobs.lat_max_us.min(40_000);
                plan.knobs.lat_min_us = plan.knobs.lat_min_us.min(1_000);
                plan.knobs.stall_max_us = plan.knobs.stall_max_us.min(5_000);
            }
            connect(&mut plan, rng, full);
            for a in 0..n {
                if rng.chance(0.8) {
                    plan.push(2, Op::DCrowd { n: a, count: rng.range(1, 40) as u32, arg: rng.next() >> 20 });
                }
            }
            for _ in 0..ops {
                let a = rng.below(nn) as usize;
                let b = (a + 1 + rng.below(nn - 1) as usize) % n;
                let k = *rng.pick(&[1u32, 1, 2, 3, 5, 10, 20, 100]);
                let o = match rng.below(10) {
                    0 => Op::DCrowd { n: a, count: rng.range(1, 10) as u32, arg: rng.next() >> 20 },
                    1 => Op::DFindMore { n: a },
                    2 => Op::DNear { n: a, m: b, how: 1, k, arg: rng.next() >> 20 },
                    3 => Op::DNear { n: a, m: b, how: 2, k, arg: rng.next() >> 20 },
                    _ => Op::DNear { n: a, m: b, how: if rng.chance(0.3) { 3 } else { 0 }, k, arg: rng.next() >> 20 },
                };
                plan.push(rng.range(10, t1), o);
            }
            if !steady && rng.chance(0.5) {
                let x = rng.below(nn) as usize;
                let at = rng.range(10, t1);
                plan.push(at, Op::Crash { n: x });
                if rng.chance(0.5) {
                    plan.push(at, Op::MovePort { n: x });
                }
                plan.push(at + 1500, Op::Restart { n: x });
            }
        }
        _ => {
            plan.knobs = if rng.chance(0.5) { Knobs::lossless(rng) } else { Knobs::swarm(rng) };
            if rng.chance(0.6) {
                plan.set("member", 1);
            }
            connect(&mut plan, rng, full);
            if plan.is("member") {
                for a in 0..n {
                    if rng.chance(0.8) {
                        plan.push(2, Op::DAdd { n: a, who: n, kind: 0, ver: 0 });
                    }
                }
            }
            for _ in 0..ops {
                let a = rng.below(nn) as usize;
                let at = rng.range(10, t1);
                let g = GHOST0 + rng.below(GHOSTS as u64) as usize;
                let o = match rng.below(12) {
                    0..=3 => Op::DAdd { n: a, who: g, kind: 0, ver: rng.below(1500) },
                    4 => Op::DAdd { n: a, who: g, kind: 1 + rng.below(7) as u8, ver: rng.next() >> 40 },
                    5 => {
                        let b = (a + 1 + rng.below(nn - 1) as usize) % n;
                        Op::DAdd { n: a, who: b, kind: *rng.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8]), ver: rng.next() >> 40 }
                    }
                    6 => Op::DFindMore { n: a },
                    7 => Op::DFind { n: a, id: 0, who: rng.below(nn) as usize, mode: 1 },
                    8 => Op::DFindAddr { n: a, who: g },
                    _ => Op::DRaw { n: a, kind: *rng.pick(&[6u8, 7, 7, 7, 7, 7, 8, 9, 10]), arg: rng.next() >> 20 },
                };
                plan.push(at, o);
            }
            if rng.chance(0.5) {
                let x = rng.below(nn) as usize;
                let at = rng.range(10, t1);
                plan.push(at, Op::Crash { n: x });
                if rng.chance(0.7) {
                    plan.push(at, Op::MovePort { n: x });
                }
                plan.push(at + 10, Op::Restart { n: x });
                let a = (x + 1) % n;
                plan.push(at + 4000, Op::DAdd { n: a, who: x, kind: 0, ver: 0 });
                plan.push(at + 4100, Op::DAdd { n: a, who: x, kind: 8, ver: 0 });
                plan.push(at + 4200, Op::DPing { n: a, to: x });
            }
        }
    }
    plan.settle = 2500;
    plan
}
