//! Independent implementation of the ADNL wire format, used by hosts the harness controls
use aes::cipher::{KeyIvInit, StreamCipher};
use everscale_network::adnl::{Key, NodeIdFull, NodeIdShort};
use everscale_network::crypto::ed25519;
use everscale_network::proto::adnl::IncomingPacketContents;
use sha2::Digest;
use simcore::SimRng;

pub fn key_from_seed(seed: u64) -> [u8; 32] {
    let mut k = [0u8; 32];
    SimRng::new(seed, 0x6b65_79).fill(&mut k);
    k
}

pub fn make_key(seed: u64) -> Key {
    Key::from_bytes(key_from_seed(seed))
}

fn cipher(secret: &[u8; 32], checksum: &[u8; 32], data: &mut [u8]) {
    let mut k = *secret;
    k[16..].copy_from_slice(&checksum[16..]);
    let mut iv = [0u8; 16];
    iv[..4].copy_from_slice(&checksum[..4]);
    iv[4..].copy_from_slice(&secret[20..]);
    let mut c = ctr::Ctr64BE::<aes::Aes256>::new(&k.into(), &iv.into());
    c.apply_keystream(data);
}

fn data_hash(version: Option<u16>, data: &[u8]) -> [u8; 32] {
    let mut h = sha2::Sha256::new();
    if let Some(v) = version {
        h.update(v.to_be_bytes());
    }
    h.update(data);
    h.finalize().into()
}

fn seal(mut prefix: Vec<u8>, secret: &[u8; 32], data: &[u8], version: Option<u16>) -> Vec<u8> {
    let checksum = data_hash(version, data);
    if let Some(v) = version {
        let mut x = [(v >> 8) as u8, v as u8, (v >> 8) as u8, v as u8];
        for (i, b) in prefix.iter().chain(checksum.iter()).enumerate() {
            x[i % 4] ^= b;
        }
        prefix.extend_from_slice(&x);
    }
    prefix.extend_from_slice(&checksum);
    let start = prefix.len();
    prefix.extend_from_slice(data);
    cipher(secret, &checksum, &mut prefix[start..]);
    prefix
}

fn unseal(pkt: &[u8], head: usize, secret: &[u8; 32]) -> Option<Vec<u8>> {
    for (skip, ver) in [(0usize, false), (4, true)] {
        if pkt.len() < head + skip + 32 {
            continue;
        }
        let checksum: [u8; 32] = pkt[head + skip..head + skip + 32].try_into().unwrap();
        let mut data = pkt[head + skip + 32..].to_vec();
        cipher(secret, &checksum, &mut data);
        let v = if ver {
            let mut x = [0u8; 4];
            x.copy_from_slice(&pkt[head..head + 4]);
            for (i, b) in pkt[..head].iter().chain(checksum.iter()).enumerate() {
                x[i % 4] ^= b;
            }
            if x[0] != x[2] || x[1] != x[3] {
                continue;
            }
            Some(u16::from_be_bytes([x[0], x[1]]))
        } else {
            None
        };
        if data_hash(v, &data) == checksum {
            return Some(data);
        }
    }
    None
}

pub fn seal_handshake(dst: &NodeIdFull, eph: &ed25519::KeyPair, data: &[u8], version: Option<u16>) -> Vec<u8> {
    let secret = eph.compute_shared_secret(dst.public_key());
    let mut p = dst.compute_short_id().as_slice().to_vec();
    p.extend_from_slice(eph.public_key.as_bytes());
    seal(p, &secret, data, version)
}

pub fn open_handshake(key: &Key, pkt: &[u8]) -> Option<Vec<u8>> {
    if pkt.len() < 96 || &pkt[..32] != key.id().as_slice() {
        return None;
    }
    let other = ed25519::PublicKey::from_bytes(pkt[32..64].try_into().unwrap())?;
    let secret = key.secret_key().compute_shared_secret(&other);
    unseal(pkt, 64, &secret)
}

fn swap_pairs(s: [u8; 32]) -> [u8; 32] {
    let mut r = s;
    for i in (0..32).step_by(2) {
        r.swap(i, i + 1);
    }
    r
}

fn chan_id(secret: &[u8; 32]) -> [u8; 32] {
    tl_proto::hash(everscale_network::crypto::tl::PublicKey::Aes { key: secret })
}

/// A channel as the harness-controlled host sees it
#[derive(Clone)]
pub struct Chan {
    pub out: [u8; 32],
    pub inc: [u8; 32],
}

impl Chan {
    pub fn new(me: &NodeIdShort, other: &NodeIdShort, mine: &ed25519::KeyPair, theirs: &ed25519::PublicKey) -> Self {
        let s = mine.compute_shared_secret(theirs);
        let mut r = s;
        r.reverse();
        if me.as_slice() < other.as_slice() {
            Chan { inc: s, out: r }
        } else {
            Chan { inc: r, out: s }
        }
    }
    fn side(secret: [u8; 32], prio: bool) -> [u8; 32] {
        if prio {
            swap_pairs(secret)
        } else {
            secret
        }
    }
    pub fn out_id(&self, prio: bool) -> [u8; 32] {
        chan_id(&Self::side(self.out, prio))
    }
    pub fn in_id(&self, prio: bool) -> [u8; 32] {
        chan_id(&Self::side(self.inc, prio))
    }
    pub fn seal(&self, data: &[u8], prio: bool, version: Option<u16>) -> Vec<u8> {
        let s = Self::side(self.out, prio);
        seal(chan_id(&s).to_vec(), &s, data, version)
    }
    pub fn open(&self, pkt: &[u8]) -> Option<Vec<u8>> {
        for prio in [false, true] {
            if pkt.len() >= 64 && pkt[..32] == self.in_id(prio) {
                return unseal(pkt, 32, &Self::side(self.inc, prio));
            }
        }
        None
    }
}

pub fn tl_bytes(out: &mut Vec<u8>, b: &[u8]) {
    let mut n = if b.len() < 254 {
        out.push(b.len() as u8);
        1
    } else {
        out.push(254);
        out.extend_from_slice(&(b.len() as u32).to_le_bytes()[..3]);
        4
    };
    out.extend_from_slice(b);
    n += b.len();
    while n % 4 != 0 {
        out.push(0);
        n += 1;
    }
}

#[derive(Clone, Debug)]
pub struct AddrList {
    pub ip: u32,
    pub port: u32,
    pub version: u32,
    pub reinit: u32,
    pub expire: u32,
    pub count: u32,
}

pub const PACKET_CONTENTS: u32 = 0xd142cd89;

/// Plain packet contents, every field optional
#[derive(Clone, Default)]
pub struct Contents {
    pub from: Option<[u8; 32]>,
    pub from_short: Option<[u8; 32]>,
    pub messages: Vec<Vec<u8>>,
    pub address: Option<AddrList>,
    pub seqno: Option<u64>,
    pub confirm: Option<u64>,
    pub reinit: Option<(u32, u32)>,
    pub signature: Option<Vec<u8>>,
    pub rand1: Vec<u8>,
    pub rand2: Vec<u8>,
}

impl Contents {
    pub fn ser(&self) -> Vec<u8> {
        let mut o = Vec::new();
        o.extend_from_slice(&PACKET_CONTENTS.to_le_bytes());
        tl_bytes(&mut o, &self.rand1);
        let single = self.messages.len() == 1;
        let flags = self.from.is_some() as u32
            | (self.from_short.is_some() as u32) << 1
            | (single as u32) << 2
            | ((!single) as u32) << 3
            | (self.address.is_some() as u32) << 4
            | (self.seqno.is_some() as u32) << 6
            | (self.confirm.is_some() as u32) << 7
            | (self.reinit.is_some() as u32) << 10
            | (self.signature.is_some() as u32) << 11;
        o.extend_from_slice(&flags.to_le_bytes());
        if let Some(k) = &self.from {
            o.extend_from_slice(&0x4813b4c6u32.to_le_bytes());
            o.extend_from_slice(k);
        }
        if let Some(k) = &self.from_short {
            o.extend_from_slice(k);
        }
        if !single {
            o.extend_from_slice(&(self.messages.len() as u32).to_le_bytes());
        }
        for m in &self.messages {
            o.extend_from_slice(m);
        }
        if let Some(a) = &self.address {
            o.extend_from_slice(&a.count.to_le_bytes());
            for _ in 0..a.count.min(4) {
                o.extend_from_slice(&0x670da6e7u32.to_le_bytes());
                o.extend_from_slice(&a.ip.to_le_bytes());
                o.extend_from_slice(&a.port.to_le_bytes());
            }
            for v in [a.version, a.reinit, 0, a.expire] {
                o.extend_from_slice(&v.to_le_bytes());
            }
        }
        for v in [self.seqno, self.confirm].into_iter().flatten() {
            o.extend_from_slice(&v.to_le_bytes());
        }
        if let Some((l, t)) = self.reinit {
            o.extend_from_slice(&l.to_le_bytes());
            o.extend_from_slice(&t.to_le_bytes());
        }
        if let Some(s) = &self.signature {
            tl_bytes(&mut o, s);
        }
        tl_bytes(&mut o, &self.rand2);
        o
    }
    pub fn sign(mut self, key: &Key) -> Self {
        self.signature = None;
        let s = key.secret_key().sign_raw(&self.ser(), key.full_id().public_key());
        self.signature = Some(s.to_vec());
        self
    }
}

pub fn parse(plain: &[u8]) -> Option<IncomingPacketContents<'_>> {
    tl_proto::deserialize::<IncomingPacketContents>(plain).ok()
}

pub mod msg {
    pub fn custom(data: &[u8]) -> Vec<u8> {
        tl_proto::serialize(everscale_network::proto::adnl::Message::Custom { data })
    }
    pub fn query(qid: &[u8; 32], data: &[u8]) -> Vec<u8> {
        tl_proto::serialize(everscale_network::proto::adnl::Message::Query { query_id: qid, query: data })
    }
    pub fn answer(qid: &[u8; 32], data: &[u8]) -> Vec<u8> {
        tl_proto::serialize(everscale_network::proto::adnl::Message::Answer { query_id: qid, answer: data })
    }
    pub fn create_channel(key: &[u8; 32], date: u32) -> Vec<u8> {
        tl_proto::serialize(everscale_network::proto::adnl::Message::CreateChannel { key, date })
    }
    pub fn confirm_channel(key: &[u8; 32], peer_key: &[u8; 32], date: u32) -> Vec<u8> {
        tl_proto::serialize(everscale_network::proto::adnl::Message::ConfirmChannel { key, peer_key, date })
    }
    pub fn part(hash: &[u8; 32], total: u32, offset: u32, data: &[u8]) -> Vec<u8> {
        tl_proto::serialize(everscale_network::proto::adnl::Message::Part { hash, total_size: total, offset, data })
    }
    pub fn nop() -> Vec<u8> {
        tl_proto::serialize(everscale_network::proto::adnl::Message::Nop)
    }
    pub fn reinit(date: u32) -> Vec<u8> {
        tl_proto::serialize(everscale_network::proto::adnl::Message::Reinit { date })
    }
}
