//! Hostile datagrams (A08)
use std::rc::Rc;

use simcore::*;

use super::adnl::*;
use super::cluster::*;
use super::codecpeer::keypair;
use crate::codec::{self, msg, AddrList, Contents};
use crate::rec::{count, nontrivial};

pub const KINDS: u8 = 14;

fn odd_u32(rng: &mut SimRng) -> u32 {
    *rng.pick(&[0, 1, 2, 3, 4, 100, 1023, 1024, 0x7fff_ffff, 0x8000_0000, u32::MAX - 1, u32::MAX])
}

fn odd_u64(rng: &mut SimRng) -> u64 {
    *rng.pick(&[0, 1, 2, 63, 64, 255, 256, 511, 512, 1 << 31, 1 << 32, 1 << 63, u64::MAX - 600, u64::MAX - 512, u64::MAX - 300, u64::MAX - 256, u64::MAX - 255, u64::MAX - 2, u64::MAX - 1, u64::MAX])
}

fn garbage(rng: &mut SimRng, max: u64) -> Vec<u8> {
    let n = rng.below(max + 1) as usize;
    let mut v = vec![0u8; n];
    rng.fill(&mut v);
    v
}

/// A message a hostile authenticated peer may send
pub fn hostile_msg(rng: &mut SimRng) -> Vec<u8> {
    let mut h = [0u8; 32];
    rng.fill(&mut h);
    match rng.below(22) {
        0 => msg::part(&h, 0, 0, &[]),
        1 => msg::part(&h, 0, 0, &garbage(rng, 40)),
        2 => msg::part(&h, 100, 0, &[]),
        3 => {
            let d = garbage(rng, 600);
            msg::part(&h, odd_u32(rng), odd_u32(rng), &d)
        }
        4 => {
            // complete but wrong hash
            let d = garbage(rng, 600);
            msg::part(&h, d.len() as u32, 0, &d)
        }
        5 => {
            // complete and right hash, garbage inside
            use sha2::Digest;
            let d = garbage(rng, 700);
            let h: [u8; 32] = sha2::Sha256::digest(&d).into();
            msg::part(&h, d.len() as u32, 0, &d)
        }
        6 => {
            // a part inside a part
            use sha2::Digest;
            let inner = msg::part(&h, 100, 0, &garbage(rng, 50));
            let h: [u8; 32] = sha2::Sha256::digest(&inner).into();
            msg::part(&h, inner.len() as u32, 0, &inner)
        }
        7 => {
            // overlapping parts
            use sha2::Digest;
            let d = garbage(rng, 700);
            let h: [u8; 32] = sha2::Sha256::digest(&d).into();
            let half = d.len() / 2;
            let mut m = msg::part(&h, d.len() as u32, 0, &d[..half]);
            m.truncate(m.len());
            m
        }
        8 => msg::custom(&garbage(rng, 12)),
        9 => msg::custom(&[]),
        10 => msg::custom(&garbage(rng, 800)),
        11 => msg::query(&h, &garbage(rng, 12)),
        12 => msg::query(&h, &[]),
        13 => msg::answer(&h, &garbage(rng, 100)),
        14 => msg::create_channel(&h, odd_u32(rng)),
        15 => msg::confirm_channel(&h, &h, odd_u32(rng)),
        16 => msg::nop(),
        17 => msg::reinit(odd_u32(rng)),
        18 => msg::query(&h, &tl_proto::serialize(everscale_network::proto::rpc::AdnlPing { value: 1 })),
        19 => {
            // known constructors of the upper layers followed by garbage
            let id: u32 = *rng.pick(&[
                0xb8a2_71c0u32, 0xccfd_8443, 0xf53b_2fdf, 0x185d_11e3, 0x7512_4e33, 0x8cdd_bd5f, 0xba11_e78c, 0x690c_b481, 0xa58e_7ecc,
                0x6ced_74a5, 0x4dd4_8a63, 0xe404_3d74, 0xae4b_6011, 0x3493_4212, 0xcbeb_3f18,
            ]);
            let mut d = id.to_le_bytes().to_vec();
            d.extend(garbage(rng, 300));
            if rng.chance(0.5) {
                msg::custom(&d)
            } else {
                msg::query(&h, &d)
            }
        }
        20 => garbage(rng, 60),
        _ => {
            let mut m = msg::custom(&garbage(rng, 40));
            let n = rng.below(m.len() as u64) as usize;
            m.truncate(n);
            m
        }
    }
}

/// Messages that claim to be parts of one large message and do not fit together
pub fn hostile_parts(rng: &mut SimRng) -> Vec<Vec<u8>> {
    use sha2::Digest;
    let mut d = if rng.chance(0.5) { msg::custom(&garbage(rng, 400)) } else { garbage(rng, 400) };
    if d.is_empty() {
        d.push(1);
    }
    let mut h: [u8; 32] = sha2::Sha256::digest(&d).into();
    if rng.chance(0.2) {
        h[0] ^= 1;
    }
    let total = d.len();
    let mut out = Vec::new();
    // something that covers the message, in any order
    let mut cuts: Vec<usize> = (0..rng.below(4)).map(|_| rng.below(total as u64 + 1) as usize).collect();
    cuts.push(0);
    cuts.push(total);
    cuts.sort_unstable();
    for w in cuts.windows(2) {
        if !rng.chance(0.15) {
            out.push(msg::part(&h, total as u32, w[0] as u32, &d[w[0]..w[1]]));
        }
    }
    // and things that do not belong there
    for _ in 0..rng.below(6) {
        let at = match rng.below(4) {
            0 => *rng.pick(&cuts),
            1 => rng.below(total as u64 + 1) as usize,
            2 => total,
            _ => 0,
        };
        let len = rng.below((total - at) as u64 + 1) as usize;
        let m = match rng.below(8) {
            0 | 1 => msg::part(&h, total as u32, at as u32, &[]),
            2 | 3 => msg::part(&h, total as u32, at as u32, &d[at..at + len]),
            4 => msg::part(&h, total as u32, at as u32, &garbage(rng, 500)),
            5 => msg::part(&h, odd_u32(rng), at as u32, &d[at..at + len]),
            6 => msg::part(&h, total as u32, odd_u32(rng), &d[..len.min(1)]),
            _ => msg::part(&h, total as u32, at as u32 + 1, &d),
        };
        out.push(m);
    }
    rng.shuffle(&mut out);
    out
}

fn odd_list(rng: &mut SimRng, base: &AddrList) -> AddrList {
    AddrList {
        ip: if rng.chance(0.7) { base.ip } else { rng.next() as u32 },
        port: if rng.chance(0.5) { base.port } else { odd_u32(rng) },
        version: if rng.chance(0.5) { base.version } else { odd_u32(rng) },
        reinit: if rng.chance(0.5) { base.reinit } else { odd_u32(rng) },
        expire: if rng.chance(0.5) { base.expire } else { odd_u32(rng) },
        count: *rng.pick(&[0, 1, 1, 1, 2, 3, u32::MAX]),
    }
}

pub async fn fuzz(s: &Rc<St>, v: usize, seed: u64, kind: u8) {
    let c = cl();
    if !c.up(v) {
        return;
    }
    let mut rng = SimRng::new(rng::mix(s.seed, seed), 0xF0 + kind as u64);
    let rng = &mut rng;
    let dst = c.addr(v);
    let vw = (v, rng.below(c.nkeys(v) as u64) as usize);
    let vid = c.id(vw.0, vw.1);
    count_fault(Fault::Hostile);
    nontrivial();
    count("hostile_datagrams", 1);
    let atk = atk_addr();
    match kind {
        0 => {
            let d = garbage(rng, *rng.clone().pick(&[0u64, 31, 32, 33, 63, 64, 95, 96, 100, 2047, 2048, 3000]));
            inject_direct(atk, dst, &d, 100);
        }
        // starts with the node's id or a channel id it knows
        1 => {
            let mut d = vid.short.as_slice().to_vec();
            d.extend(garbage(rng, *rng.clone().pick(&[0u64, 1, 31, 32, 33, 63, 64, 68, 100, 1500])));
            inject_direct(atk, dst, &d, 100);
        }
        // genuine datagrams cut, changed or extended
        2 | 3 => {
            let g = with(|w| {
                let v: Vec<_> = w.wire.iter().filter(|r| !r.injected && r.dst == dst && r.data.is_some()).collect();
                if v.is_empty() {
                    None
                } else {
                    v[rng.below(v.len() as u64) as usize].data.clone()
                }
            });
            if let Some(g) = g {
                let mut d = g.to_vec();
                if kind == 2 {
                    let n = if rng.chance(0.5) { rng.below(d.len() as u64 + 1) as usize } else { (*rng.pick(&[32usize, 36, 63, 64, 65, 67, 68, 69, 95, 96, 97, 99, 100, 101])).min(d.len()) };
                    d.truncate(n);
                } else {
                    for _ in 0..rng.range(1, 4) {
                        let i = rng.below(d.len() as u64) as usize;
                        d[i] ^= 1 << rng.below(8);
                    }
                    if rng.chance(0.3) {
                        d.extend(garbage(rng, 200));
                    }
                }
                s.dup_possible.set(true);
                inject_direct(atk, dst, &d, 100);
            }
        }
        // well encrypted garbage
        4 => {
            let mut p = garbage(rng, 300);
            if rng.chance(0.5) {
                let mut q = codec::PACKET_CONTENTS.to_le_bytes().to_vec();
                q.extend(p);
                p = q;
            }
            let ver = *rng.pick(&[None, Some(0u16), Some(1), Some(0xffff)]);
            let d = codec::seal_handshake(&vid.full, &keypair(rng.next()), &p, ver);
            inject_direct(atk, dst, &d, 100);
        }
        // cut contents, well encrypted and signed before cutting
        5 => {
            let p = cp(s, 0);
            let m = vec![hostile_msg(rng)];
            let mut plain = p.hs(vw, m).sign(&p.key).ser();
            let n = rng.below(plain.len() as u64 + 1) as usize;
            plain.truncate(n);
            p.send_plain(vw, &plain, None, 100);
        }
        // hostile contents from an authenticated peer
        6 | 7 => {
            let p = cp(s, 0);
            let n = rng.range(1, 3);
            let mut ms: Vec<Vec<u8>> = (0..n).map(|_| hostile_msg(rng)).collect();
            if rng.chance(0.2) {
                ms.clear();
            }
            let mut hs = p.hs(vw, ms);
            if rng.chance(0.4) {
                hs.address = Some(odd_list(rng, &p.addr_list()));
            }
            if rng.chance(0.2) {
                hs.address = None;
            }
            if rng.chance(0.3) {
                hs.seqno = Some(odd_u64(rng));
            }
            if rng.chance(0.3) {
                hs.confirm = Some(odd_u64(rng));
            }
            if rng.chance(0.4) {
                let t = wall_secs(c.sid(v));
                hs.reinit = Some((*rng.pick(&[0, 1, t, t + 59, t + 61, u32::MAX - 60, u32::MAX - 1, u32::MAX]), *rng.pick(&[0, 1, t - 1, t, t + 1, u32::MAX])));
            }
            if rng.chance(0.2) {
                hs.rand1 = garbage(rng, 300);
            }
            p.send_plain(vw, &hs.sign(&p.key).ser(), None, 100);
            p.drain();
        }
        // the same through a channel
        8 | 9 => {
            let p = cp(s, 0);
            if p.chan(vw).is_none() {
                p.connect(vw).await;
            }
            let m = vec![hostile_msg(rng)];
            let prio = rng.chance(0.5);
            let mut ch = p.ch(vw, prio, m);
            if rng.chance(0.4) {
                ch.seqno = Some(odd_u64(rng));
            }
            if rng.chance(0.3) {
                ch.confirm = Some(odd_u64(rng));
            }
            if rng.chance(0.2) {
                ch.reinit = Some((odd_u32(rng), odd_u32(rng)));
            }
            if rng.chance(0.2) {
                ch.address = Some(odd_list(rng, &p.addr_list()));
            }
            let mut plain = ch.ser();
            if rng.chance(0.2) {
                let n = rng.below(plain.len() as u64 + 1) as usize;
                plain.truncate(n);
            }
            if rng.chance(0.1) {
                plain = garbage(rng, 100);
            }
            p.send_ch_plain(vw, prio, &plain, 100);
        }
        // odd signatures
        10 => {
            let p = cp(s, 0);
            let mut hs: Contents = p.hs(vw, vec![msg::nop()]);
            let n = *rng.pick(&[0usize, 1, 3, 4, 32, 63, 64, 65, 253, 254, 255, 400]);
            hs.signature = Some(vec![1; n]);
            if rng.chance(0.5) {
                hs.from = None;
                hs.from_short = Some(*p.id.short.as_slice());
            }
            p.send_plain(vw, &hs.ser(), None, 100);
        }
        // parts that do not fit together
        11 | 12 => {
            let p = cp(s, 0);
            let ms = hostile_parts(rng);
            let chan = rng.chance(0.3);
            if chan && p.chan(vw).is_none() {
                p.connect(vw).await;
            }
            for m in ms {
                if chan && p.chan(vw).is_some() {
                    let prio = rng.chance(0.5);
                    let plain = p.ch(vw, prio, vec![m]).ser();
                    p.send_ch_plain(vw, prio, &plain, 100);
                } else {
                    p.send_hs(vw, vec![m]);
                }
                if rng.chance(0.3) {
                    simcore::time::sleep(simcore::time::Duration::from_millis(rng.below(30))).await;
                }
            }
            p.drain();
        }
        // floods
        _ => {
            for _ in 0..rng.range(10, 200) {
                let d = garbage(rng, 200);
                inject_direct(atk, dst, &d, rng.below(3000));
            }
        }
    }
}
