//! A host under the harness' control that speaks ADNL through the independent codec
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::net::{Ipv4Addr, SocketAddrV4};
use std::rc::Rc;

use everscale_network::adnl::Key;
use everscale_network::crypto::ed25519;
use everscale_network::proto::adnl::{IncomingPacketContents, Message};
use simcore::time::{sleep, Duration};
use simcore::*;

use super::cluster::*;
use crate::codec::{self, msg, AddrList, Chan, Contents};

pub fn keypair(seed: u64) -> ed25519::KeyPair {
    let s = ed25519::SecretKey::from_bytes(codec::key_from_seed(seed));
    ed25519::KeyPair::from(&s)
}

pub struct Link {
    pub mine: ed25519::KeyPair,
    pub date: u32,
    pub chan: Option<Chan>,
    pub theirs: Option<[u8; 32]>,
    pub seq: [u64; 2],
    pub v_reinit: u32,
}

pub struct CPeer {
    pub seed: u64,
    pub key: Key,
    pub id: Ident,
    pub addr: SocketAddrV4,
    inbox: usize,
    pub start: u32,
    pub links: RefCell<BTreeMap<(usize, usize), Link>>,
    pub answers: RefCell<BTreeMap<[u8; 32], Vec<u8>>>,
    pub customs: RefCell<Vec<Vec<u8>>>,
    pub queries: RefCell<Vec<(usize, [u8; 32], Vec<u8>)>>,
    pub got_packets: Cell<u64>,
    next: Cell<u64>,
}

impl CPeer {
    pub fn new(seed: u64, ip: u8) -> Rc<Self> {
        let addr = SocketAddrV4::new(Ipv4Addr::new(10, 0, 1, ip), 4000);
        let key = codec::make_key(seed);
        let id = ident(seed);
        Rc::new(Self {
            seed,
            key,
            id,
            addr,
            inbox: raw_endpoint(addr),
            start: wall_secs(0),
            links: Default::default(),
            answers: Default::default(),
            customs: Default::default(),
            queries: Default::default(),
            got_packets: Cell::new(0),
            next: Cell::new(1),
        })
    }

    pub fn fresh(&self) -> u64 {
        let n = self.next.get();
        self.next.set(n + 1);
        rng::mix(self.seed, 0x1000 + n)
    }

    pub fn addr_list(&self) -> AddrList {
        AddrList {
            ip: u32::from(*self.addr.ip()),
            port: self.addr.port() as u32,
            version: wall_secs(0),
            reinit: self.start,
            expire: wall_secs(0) + 1000,
            count: 1,
        }
    }

    fn link_seq(&self, v: (usize, usize), prio: bool) -> u64 {
        let mut l = self.links.borrow_mut();
        let l = l.entry(v).or_insert_with(|| self.new_link());
        l.seq[prio as usize] += 1;
        l.seq[prio as usize]
    }

    fn new_link(&self) -> Link {
        Link {
            mine: keypair(self.fresh()),
            date: wall_secs(0),
            chan: None,
            theirs: None,
            seq: [0, 0],
            v_reinit: 0,
        }
    }

    /// A regular handshake packet with the given messages, before signing
    pub fn hs(&self, v: (usize, usize), messages: Vec<Vec<u8>>) -> Contents {
        let seqno = self.link_seq(v, false);
        let r = self.links.borrow()[&v].v_reinit;
        Contents {
            from: Some(*self.id.full.public_key().as_bytes()),
            messages,
            address: Some(self.addr_list()),
            seqno: Some(seqno),
            confirm: Some(0),
            reinit: Some((self.start, r)),
            rand1: vec![7, 7, 7],
            rand2: vec![9; 7],
            ..Default::default()
        }
    }

    pub fn send_plain(&self, v: (usize, usize), plain: &[u8], version: Option<u16>, delay_us: u64) {
        let c = cl();
        let full = c.id(v.0, v.1).full;
        let pkt = codec::seal_handshake(&full, &keypair(self.fresh()), plain, version);
        inject_direct(self.addr, c.addr(v.0), &pkt, delay_us);
    }

    pub fn send_hs(&self, v: (usize, usize), messages: Vec<Vec<u8>>) {
        let p = self.hs(v, messages).sign(&self.key).ser();
        self.send_plain(v, &p, None, 500);
    }

    pub fn create_msg(&self, v: (usize, usize)) -> Vec<u8> {
        let mut l = self.links.borrow_mut();
        let l = l.entry(v).or_insert_with(|| self.new_link());
        msg::create_channel(l.mine.public_key.as_bytes(), l.date)
    }

    pub fn ping_msg(&self) -> Vec<u8> {
        let q = tl_proto::serialize(everscale_network::proto::rpc::AdnlPing { value: 5 });
        let mut qid = [0u8; 32];
        SimRng::new(self.fresh(), 1).fill(&mut qid);
        msg::query(&qid, &q)
    }

    /// A regular channel packet with the given messages
    pub fn ch(&self, v: (usize, usize), prio: bool, messages: Vec<Vec<u8>>) -> Contents {
        let seqno = self.link_seq(v, prio);
        Contents { messages, seqno: Some(seqno), confirm: Some(0), rand1: vec![1, 2, 3], rand2: vec![4; 7], ..Default::default() }
    }

    pub fn chan(&self, v: (usize, usize)) -> Option<Chan> {
        self.links.borrow().get(&v).and_then(|l| l.chan.clone())
    }

    pub fn send_ch_plain(&self, v: (usize, usize), prio: bool, plain: &[u8], delay_us: u64) -> bool {
        let Some(ch) = self.chan(v) else { return false };
        let pkt = ch.seal(plain, prio, None);
        inject_direct(self.addr, cl().addr(v.0), &pkt, delay_us);
        true
    }

    /// Takes in everything that arrived
    pub fn drain(&self) {
        while let Some((src, data)) = raw_recv(self.inbox) {
            self.got_packets.set(self.got_packets.get() + 1);
            let c = cl();
            let mut plain = codec::open_handshake(&self.key, &data).map(|p| (None, p));
            if plain.is_none() {
                for (v, l) in self.links.borrow().iter() {
                    if let Some(p) = l.chan.as_ref().and_then(|ch| ch.open(&data)) {
                        plain = Some((Some(*v), p));
                        break;
                    }
                }
            }
            let Some((v, plain)) = plain else { continue };
            let Some(pkt) = codec::parse(&plain) else { continue };
            let v = match v {
                Some(v) => v,
                None => {
                    let id = match &pkt.from {
                        Some(everscale_network::crypto::tl::PublicKey::Ed25519 { key }) => {
                            let pk = ed25519::PublicKey::from_bytes(**key).unwrap();
                            everscale_network::adnl::NodeIdFull::new(pk).compute_short_id()
                        }
                        _ => continue,
                    };
                    let Some(v) = c.whose(&id) else { continue };
                    v
                }
            };
            let _ = src;
            self.take(v, &pkt);
        }
    }

    fn take(&self, v: (usize, usize), pkt: &IncomingPacketContents<'_>) {
        let vid = cl().id(v.0, v.1);
        if let Some(r) = &pkt.reinit_dates {
            let mut ls = self.links.borrow_mut();
            ls.entry(v).or_insert_with(|| self.new_link()).v_reinit = r.local;
        }
        for m in pkt.messages.iter() {
            match m {
                Message::CreateChannel { key, .. } | Message::ConfirmChannel { key, .. } => {
                    let mut ls = self.links.borrow_mut();
                    let l = ls.entry(v).or_insert_with(|| self.new_link());
                    if let Some(pk) = ed25519::PublicKey::from_bytes(**key) {
                        l.theirs = Some(**key);
                        l.chan = Some(Chan::new(&self.id.short, &vid.short, &l.mine, &pk));
                    }
                }
                Message::Answer { query_id, answer } => {
                    self.answers.borrow_mut().insert(**query_id, answer.to_vec());
                }
                Message::Custom { data } => self.customs.borrow_mut().push(data.to_vec()),
                Message::Query { query_id, query } => {
                    self.queries.borrow_mut().push((v.0, **query_id, query.to_vec()))
                }
                _ => {}
            }
        }
    }

    /// Sets up a channel with a node
    pub async fn connect(&self, v: (usize, usize)) -> bool {
        for _ in 0..20 {
            if self.chan(v).is_some() {
                return true;
            }
            let create = self.create_msg(v);
            let ping = self.ping_msg();
            self.send_hs(v, vec![create, ping]);
            for _ in 0..15 {
                sleep(Duration::from_millis(20)).await;
                self.drain();
                if self.chan(v).is_some() {
                    break;
                }
            }
        }
        self.chan(v).is_some()
    }
}
