//! Walks of the real requester against a reference model, driven by a
//! scripted peer: honest, altered and hostile responses.
use crate::rng::Rng;
use crate::rsp::{alg_body, dlen, hash, slots, Id, Prov, Sg, BAD, BROOT, CAPS, GOOD, ROOT};
use crate::wire::{self, K, P};
use crate::{codec, der, hex, Ctx};
use ring::rand::SystemRandom;
use ring::signature::{EcdsaKeyPair, ECDSA_P256_SHA256_FIXED_SIGNING};
use spdm::msgs::Msg;
use spdm::requester::{AllStates, RequesterInit};
use spdm::{RequesterError, Responder};
use std::convert::TryFrom;

const TIME: u64 = 1638316800;

fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |a, x| a << 8 | *x as u64)
}

#[derive(Clone, Debug, PartialEq)]
enum St {
    Version,
    Caps,
    Algs,
    IdAuth,
    Certs,
    Chal,
    Done,
    Error,
}

/// everything recorded so far
#[derive(Clone, Debug, Default, PartialEq)]
pub struct M {
    pub version: Option<(u8, u8, u8, u8)>,
    pub sct: Option<u8>,
    pub scap: Option<u32>,
    pub rct: Option<u8>,
    pub rcap: Option<u32>,
    pub algs: Option<Vec<u8>>,
    pub digests: Option<Vec<u8>>,
    pub cert: Option<(u8, Vec<u8>)>,
    pub nonce: Option<Vec<u8>>,
}

fn enc<T: Msg>(m: &T) -> Vec<u8> {
    let mut b = [0u8; 1200];
    match m.write(&mut b) {
        Ok(n) => b[2..n].to_vec(),
        Err(_) => vec![],
    }
}

pub fn real(s: &AllStates) -> (&'static str, M) {
    let v = |e: &spdm::msgs::VersionEntry| Some((e.major, e.minor, e.update, e.alpha));
    let mut m = M::default();
    match s {
        AllStates::Error => return ("Error", m),
        AllStates::NewSession => return ("NewSession", m),
        AllStates::Version(_) => return ("Version", m),
        AllStates::Capabilities(s) => {
            m.version = v(&s.version);
            m.sct = s.requester_ct_exponent;
            m.scap = s.requester_cap.map(|f| f.bits());
            m.rct = s.responder_ct_exponent;
            m.rcap = s.responder_cap.map(|f| f.bits());
            ("Capabilities", m)
        }
        AllStates::Algorithms(s) => {
            m.version = v(&s.version);
            m.sct = Some(s.requester_ct_exponent);
            m.scap = Some(s.requester_cap.bits());
            m.rct = Some(s.responder_ct_exponent);
            m.rcap = Some(s.responder_cap.bits());
            m.algs = s.algorithms.as_ref().map(alg_body);
            ("Algorithms", m)
        }
        AllStates::IdAuth(s) => {
            m.version = v(&s.version);
            m.sct = Some(s.requester_ct_exponent);
            m.scap = Some(s.requester_cap.bits());
            m.rct = Some(s.responder_ct_exponent);
            m.rcap = Some(s.responder_cap.bits());
            m.algs = Some(alg_body(&s.algorithms));
            m.digests = s.digests.as_ref().map(enc);
            ("IdAuth", m)
        }
        AllStates::Challenge(s) => {
            m.version = v(&s.version);
            m.sct = Some(s.requester_ct_exponent);
            m.scap = Some(s.requester_cap.bits());
            m.rct = Some(s.responder_ct_exponent);
            m.rcap = Some(s.responder_cap.bits());
            m.algs = Some(alg_body(&s.algorithms));
            let n = (s.cert_chain_size as usize).min(s.cert_chain.len());
            m.cert = Some((s.cert_slot, s.cert_chain[..n].to_vec()));
            m.nonce = s.nonce.as_ref().map(|n| n.as_ref().to_vec());
            ("Challenge", m)
        }
    }
}

fn name(s: &St) -> &'static str {
    match s {
        St::Version => "Version",
        St::Caps => "Capabilities",
        St::Algs => "Algorithms",
        St::IdAuth | St::Certs => "IdAuth",
        St::Chal => "Challenge",
        St::Done => "NewSession",
        St::Error => "Error",
    }
}

/// what a requester in this state knows
fn known(s: &St, m: &M) -> M {
    let mut m = m.clone();
    match s {
        St::Version | St::Done | St::Error => m = M::default(),
        St::Chal => m.digests = None,
        _ => {}
    }
    if *s != St::Chal {
        m.cert = None;
        m.nonce = None;
    }
    m
}

fn request(s: &St, m: &M) -> Vec<u8> {
    match s {
        St::Version => vec![0x10, 0x84, 0, 0],
        St::Caps => {
            let mut o = vec![0x11, 0xe1, 0, 0, 0, 12, 0, 0];
            o.extend((CAPS as u32).to_le_bytes());
            o
        }
        St::Algs => {
            let mut o = vec![0x11, 0xe3, 4, 0, 48, 0, 1, 0, 0x10, 0, 0, 0, 7, 0, 0, 0];
            o.extend([0; 16]);
            o.extend([2, 0x20, 0x12, 0, 3, 0x20, 6, 0, 4, 0x20, 0x90, 0, 5, 0x20, 1, 0]);
            o
        }
        St::IdAuth => vec![0x11, 0x81, 0, 0],
        St::Certs => vec![0x11, 0x82, 0, 0, 0, 0, 0, 4],
        St::Chal => vec![0x11, 0x83, m.cert.as_ref().unwrap().0, 0],
        _ => vec![],
    }
}

fn offered(t: u8) -> u64 {
    [0, 0, 0x12, 6, 0x90, 1][t as usize]
}

struct Peer {
    id: Id,
    key: Option<EcdsaKeyPair>,
    chain: Vec<u8>,
    slot: u8,
    hash: u32,
    others: Vec<Option<Prov>>,
}

fn sign(k: &EcdsaKeyPair, m: &[u8]) -> Vec<u8> {
    k.sign(&SystemRandom::new(), m).unwrap().as_ref().to_vec()
}

pub fn trusted(chain: &[u8], d: usize, root: &[u8]) -> Option<Vec<u8>> {
    let (_, certs) = codec::chain_accept(chain, d)?;
    let (leaf, inter) = certs.split_last()?;
    let e = webpki::EndEntityCert::try_from(&leaf[..]).ok()?;
    let ta = [webpki::TrustAnchor::try_from_cert_der(root).ok()?];
    let inter: Vec<&[u8]> = inter.iter().map(|x| &x[..]).collect();
    e.verify_is_valid_tls_server_cert(
        &[&webpki::ECDSA_P256_SHA256],
        &webpki::TlsServerTrustAnchors(&ta),
        &inter,
        webpki::Time::from_seconds_since_unix_epoch(TIME),
    )
    .ok()?;
    Some(leaf.clone())
}
fn signed(leaf: &[u8], m: &[u8], sig: &[u8]) -> bool {
    match webpki::EndEntityCert::try_from(leaf) {
        Ok(e) => e.verify_signature(&webpki::ECDSA_P256_SHA256, m, &der::expected(sig)).is_ok(),
        Err(_) => false,
    }
}

fn peer(r: &mut Rng, honest: bool) -> Peer {
    let id = if honest || r.chance(2, 3) { r.pick(GOOD) } else { r.pick(BAD) };
    let id = Id { leaf: id.leaf, key: id.key, inter: id.inter };
    let key = EcdsaKeyPair::from_pkcs8(&ECDSA_P256_SHA256_FIXED_SIGNING, id.key).ok();
    let others = (0..5)
        .map(|k| {
            if k == 0 {
                let mut p = Prov::new(&id, ROOT);
                p.set_root(vec![0; 32]);
                Some(p)
            } else if r.chance(1, 3) {
                Some(Prov::new(r.pick(GOOD), ROOT))
            } else {
                None
            }
        })
        .collect();
    Peer { id, key, chain: vec![], slot: 0, hash: 1, others }
}

/// A response the model accepts (or nearly so), for the current state.
fn craft(s: &St, m: &M, p: &mut Peer, t: &[u8], r: &mut Rng, honest: bool) -> Vec<u8> {
    let d = dlen(p.hash);
    let pp = P { dlen: d, slen: 64, sig: false };
    match s {
        St::Version => {
            let n = r.range(if honest { 1 } else { 0 }, 2);
            let mut o = vec![0x10, 4, 0, 0, 0, n as u8];
            for _ in 0..n {
                let e: [u8; 2] = match r.below(if honest { 6 } else { 12 }) {
                    0..=2 => [0, 0x11],
                    3..=5 => [0, 0x10],
                    6 => [r.u8(), 0x11],
                    7 => [r.u8(), 0x10],
                    8 => [0, *r.pick(&[0x12, 0x20, 0x01, 0x1f, 0x21, 0x00])],
                    9 => [1 << r.below(8), *r.pick(&[0x10, 0x11])],
                    _ => [r.u8(), r.u8()],
                };
                o.extend(e);
            }
            o
        }
        St::Caps => {
            let mut o = vec![0x11, 0x61, 0, 0, 0, r.u8(), 0, 0];
            let f = if r.chance(5, 6) { r.u64() & 0x1ffff | 6 } else { r.u64() & 0x1ffff };
            o.extend((f as u32).to_le_bytes());
            o
        }
        St::Algs => {
            let mut b = wire::valid(K::Algs, r, pp);
            if honest || r.chance(3, 4) {
                let bit = |x: u64, r: &mut Rng| loop {
                    let b = 1u64 << r.below(16);
                    if b & x != 0 {
                        return b as u32;
                    }
                };
                let (mh, h) = (bit(7, r), bit(7, r));
                b[6..10].copy_from_slice(&mh.to_le_bytes());
                b[10..14].copy_from_slice(&0x10u32.to_le_bytes());
                b[14..18].copy_from_slice(&h.to_le_bytes());
                let mut i = 34;
                for _ in 0..b[0] {
                    if honest || r.chance(7, 8) {
                        let v = bit(offered(b[i]), r) as u16;
                        b[i + 2..i + 4].copy_from_slice(&v.to_le_bytes());
                    }
                    i += 4 + 4 * (b[i + 1] & 15) as usize;
                }
            }
            [&[0x11, 0x63][..], &b].concat()
        }
        St::IdAuth if r.chance(1, 20) => vec![0x11, 1, r.u8() & 1, 0],
        St::IdAuth => [&[0x11, 1][..], &wire::valid(K::Digests, r, pp)].concat(),
        St::Certs => {
            let mut certs: Vec<Vec<u8>> = p.id.inter.iter().map(|x| x.to_vec()).collect();
            certs.push(p.id.leaf.to_vec());
            // the hash is not checked against the trusted root: any root hash
            let mut chain = codec::chain_bytes(&r.bytes(d), &certs);
            p.slot = if r.chance(3, 4) { 0 } else { r.range(0, 4) as u8 };
            if !honest && r.chance(1, 12) {
                wire::mutate(&mut chain, r);
            }
            if !honest && r.chance(1, 30) {
                let n = r.range(0, chain.len());
                chain.truncate(n);
            }
            if !honest && r.chance(1, 20) {
                p.slot = r.byte();
            }
            chain.truncate(1024);
            let mut pl = chain.len();
            if !honest && r.chance(1, 10) {
                // lengths around the most a requester can hold, with and
                // without that many bytes following
                pl = *r.pick(&[0, 1, 3, 4, 1022, 1023, 1024, 1025, 1026, 1040, 2048, 65535]);
                if r.chance(3, 4) {
                    let n = (pl + r.range(0, 2)).saturating_sub(1).min(2100);
                    while chain.len() < n {
                        chain.push(0);
                    }
                    chain.truncate(n);
                }
            }
            p.chain = chain.clone();
            let rem = if r.chance(1, 2) { 0 } else { r.u8() };
            let mut o = vec![0x11, 2, p.slot, 0, pl as u8, (pl >> 8) as u8, rem, 0];
            o.extend(chain);
            o
        }
        St::Chal => {
            let own = m.cert.as_ref().unwrap();
            let mut o = vec![0x11, 3, own.0 & 15 | (r.u8() & if honest { 0x80 } else { 0xf0 }), r.u8() | 1u8.checked_shl(own.0 as u32).unwrap_or(0)];
            o.extend(hash(p.hash, &own.1));
            o.extend(r.bytes(32));
            o.extend(r.bytes(d));
            let q = wire::opaque_valid(r);
            o.extend([q.len() as u8, (q.len() >> 8) as u8]);
            o.extend(q);
            let mut key_ok = true;
            let mut m1 = t.to_vec();
            if !honest {
                match r.below(16) {
                    0 => o[2] ^= 1 << r.below(4),
                    1 => o[3] &= !1u8.checked_shl(own.0 as u32).unwrap_or(0),
                    2 => {
                        let i = 4 + r.us(d);
                        o[i] ^= 1 << r.below(8);
                    }
                    3 => o[3] = 0,
                    4 => {
                        // the hash of something else that was exchanged
                        let h = hash(*r.pick(&[1, 2, 4]), &own.1);
                        for i in 0..d.min(h.len()) {
                            o[4 + i] = h[i];
                        }
                    }
                    5 => key_ok = false,
                    6 => {
                        // signed over a transcript with one byte changed
                        let i = r.us(m1.len());
                        m1[i] ^= 1 << r.below(8);
                    }
                    7 => {
                        let n = r.us(m1.len());
                        m1.truncate(n);
                    }
                    8 => {
                        let n = r.range(1, m1.len());
                        m1.drain(..n);
                    }
                    _ => {}
                }
            }
            m1.extend(&o);
            if !honest {
                match r.below(12) {
                    0 => {
                        let n = r.range(1, 40).min(m1.len());
                        m1.truncate(m1.len() - n);
                    }
                    1 => m1.extend([0; 64]),
                    _ => {}
                }
            }
            let h = if honest || r.chance(11, 12) { p.hash } else { *r.pick(&[1, 2, 4]) };
            let msg = if honest || r.chance(15, 16) { hash(h, &m1) } else { m1.clone() };
            let sig = match (&p.key, key_ok) {
                (Some(k), true) => sign(k, &msg),
                _ => {
                    let k = EcdsaKeyPair::from_pkcs8(&ECDSA_P256_SHA256_FIXED_SIGNING, r.pick(GOOD).key).unwrap();
                    sign(&k, &msg)
                }
            };
            o.extend(sig);
            if !honest {
                let n = o.len();
                match r.below(14) {
                    0 => {
                        let i = n - 1 - r.us(64);
                        o[i] ^= 1 << r.below(8);
                    }
                    1 => o[n - 64..].iter_mut().for_each(|b| *b = 0),
                    2 => {
                        // r and s swapped
                        let (a, b) = (o[n - 64..n - 32].to_vec(), o[n - 32..].to_vec());
                        o.truncate(n - 64);
                        o.extend(b);
                        o.extend(a);
                    }
                    3 => {
                        let i = r.us(n - 64);
                        o[i] ^= 1 << r.below(8);
                    }
                    _ => {}
                }
            }
            o
        }
        _ => vec![],
    }
}

/// Does the model accept `q`, and what follows?
fn accepts(s: &St, m: &M, t: &[u8], q: &[u8], hbit: u32) -> Option<(St, M)> {
    let k = match s {
        St::Version => K::Version,
        St::Caps => K::Caps,
        St::Algs => K::Algs,
        St::IdAuth => K::Digests,
        St::Certs => K::Cert,
        St::Chal => K::ChallengeAuth,
        _ => return None,
    };
    if q.len() < 2 || q[..2] != wire::header(k) {
        return None;
    }
    let d = dlen(hbit);
    let b = wire::accept(k, &q[2..], P { dlen: d, slen: 64, sig: false })?;
    if *s != St::Chal && t.len() + q.len() > 4096 {
        return None;
    }
    let mut m = m.clone();
    let next = match s {
        St::Version => {
            let es: Vec<[u8; 2]> = (0..b[3] as usize).map(|i| [b[4 + 2 * i], b[5 + 2 * i]]).collect();
            m.version = if es.contains(&[0, 0x11]) {
                Some((1, 1, 0, 0))
            } else if es.contains(&[0, 0x10]) {
                Some((1, 0, 0, 0))
            } else {
                return None;
            };
            St::Caps
        }
        St::Caps => {
            m.rct = Some(b[3]);
            m.rcap = Some(le(&b[6..10]) as u32);
            St::Algs
        }
        St::Algs => {
            let n = b[0] as usize;
            if le(&b[6..10]) & 7 == 0 || le(&b[10..14]) != 0x10 || le(&b[14..18]) & 7 == 0 {
                return None;
            }
            for i in 0..n {
                let x = &b[34 + 4 * i..38 + 4 * i];
                if le(&x[2..]) & offered(x[0]) == 0 {
                    return None;
                }
            }
            m.algs = Some(b);
            if m.rcap.unwrap() & 2 != 0 {
                St::IdAuth
            } else {
                St::Done
            }
        }
        St::IdAuth => {
            m.digests = Some(b);
            St::Certs
        }
        St::Certs => {
            m.cert = Some((b[0], b[6..].to_vec()));
            if m.rcap.unwrap() & 4 != 0 {
                St::Chal
            } else {
                St::Done
            }
        }
        St::Chal => {
            let (slot, chain) = m.cert.as_ref().unwrap();
            let sl = b[0] & 15;
            if sl != *slot || b[1] >> sl & 1 == 0 || b[2..2 + d] != hash(hbit, chain)[..] {
                return None;
            }
            St::Done
        }
        _ => return None,
    };
    Some((next, m))
}

fn run<'a>(r: &mut Rng, c: &mut Ctx, root: &'a [u8], style: u64) {
    // 0 honest peer (the real responder), 1 honest script, 2 hostile script
    let mut rq: RequesterInit<'a, Sg> = RequesterInit::new(root, [None, None, None, None, None]);
    let mut p = peer(r, style < 2);
    let mine = std::mem::take(&mut p.others);
    let mut rs = Responder::new(slots(&mine));
    let mut st = St::Version;
    let mut m = M::default();
    let mut t: Vec<u8> = vec![];
    let mut answered = 0u32;
    let bad_at = if style == 2 { r.range(0, 6) } else { 99 };
    let ok = real(rq.state()) == ("Version", M::default()) && rq.transcript().get().is_empty();
    c.check(&["C13"], ok, || "a new requester is not in its initial state with an empty transcript".into());
    for step in 0..9 {
        // the request
        let sends = if r.chance(1, 25) && (style != 0 || st == St::Version) { 2 } else { 1 };
        let mut sent = vec![];
        for _ in 0..sends {
            let want = request(&st, &m);
            let size = if st == St::Chal { 36 } else { want.len() };
            loop {
                let room = if style == 0 || r.chance(9, 10) { 700 } else { *r.pick(&[size - 1, size, size + 1, size / 2, 0, 1, 2]) };
                let t0 = if st == St::Version { 0 } else { t.len() };
                let fits = room >= size && t0 + size <= 4096;
                let mut buf = vec![0x5au8; room];
                let g = {
                    let rq = &mut rq;
                    let tr = c.trace.join("; ");
                    c.guard(&["C02", "C13"], || format!("next_request; steps: {}", tr), || rq.next_request(&mut buf).map(|x| x.to_vec()))
                };
                let g = match g {
                    Some(g) => g,
                    None => return,
                };
                let tr = c.trace.join("; ");
                match g {
                    Err(e) => {
                        if !c.check(&["C13"], !fits, || format!("no request in state {} with {} bytes of room: {:?}; steps: {}", name(&st), room, e, tr)) || fits {
                            return;
                        }
                        t = rq.transcript().get().to_vec();
                        if t0 + size > 4096 {
                            return;
                        }
                    }
                    Ok(q) => {
                        if !c.check(&["C13"], fits, || format!("request {} written into {} bytes", hex(&q), room)) || !fits {
                            return;
                        }
                        let n = want.len();
                        let good = q.len() == size && q[..n] == want[..];
                        let ps: &[&str] = match st {
                            St::Caps => &["C21", "C13"],
                            St::Algs => &["C09", "C13"],
                            _ => &["C13"],
                        };
                        if !c.check(ps, good, || format!("request {} instead of {}; steps: {}", hex(&q), hex(&want), tr)) || !good {
                            return;
                        }
                        if st == St::Version {
                            t.clear();
                        }
                        t.extend(&q);
                        c.check(&["C11"], rq.transcript().get() == t, || format!("transcript {} instead of {}; steps: {}", hex(rq.transcript().get()), hex(&t), tr));
                        match st {
                            St::Caps => {
                                m.sct = Some(12);
                                m.scap = Some(CAPS);
                            }
                            St::Chal => m.nonce = Some(q[4..36].to_vec()),
                            _ => {}
                        }
                        let rl = match c.guard(&["C13", "C02"], || format!("state(); steps: {}", tr), || real(rq.state())) {
                            Some(x) => x,
                            None => return,
                        };
                        if st == St::Chal {
                            c.check(&["C23"], rl.1.nonce == m.nonce, || format!("nonce sent {} but recorded {:?}", hex(&q[4..36]), rl.1.nonce));
                        }
                        if !same(c, &rl, &st, &m, &tr) && rl.0 != name(&st) {
                            return;
                        }
                        c.trace.push(format!("{}: sent {}", name(&st), hex(&q)));
                        sent = q;
                        break;
                    }
                }
            }
        }
        if c.viol.is_some() {
            return;
        }
        // the response
        let hostile = style == 2 && (step >= bad_at || r.chance(1, 12));
        let q = if style == 0 {
            let mut buf = vec![0u8; 2200];
            let g = {
                let rs = &mut rs;
                c.guard(&[], || String::new(), || rs.handle_msg(&sent, &mut buf).0.to_vec())
            };
            let q = match g {
                Some(q) => q,
                None => return,
            };
            if st == St::Algs && q.len() > 20 {
                p.hash = le(&q[16..20]) as u32;
            }
            q
        } else if hostile && r.chance(1, 12) {
            match r.below(3) {
                0 => {
                    let n = r.range(0, 60);
                    r.bytes(n)
                }
                1 => {
                    let k = *r.pick(&wire::ALL);
                    let mut b = wire::header(k).to_vec();
                    b.extend(wire::valid(k, r, P { dlen: dlen(p.hash), slen: 64, sig: false }));
                    b
                }
                _ => sent.clone(),
            }
        } else {
            let mut q = craft(&st, &m, &mut p, &t, r, !hostile);
            if hostile {
                match r.below(10) {
                    0 | 1 => wire::mutate(&mut q, r),
                    2 => {
                        let n = r.range(1, 30);
                        q.extend(r.bytes(n));
                    }
                    3 if t.len() < 4096 => {
                        let n = (4096 - t.len() + r.us(3)).saturating_sub(q.len() + 1);
                        if st != St::Chal {
                            q.extend(r.bytes(n));
                        }
                    }
                    _ => {}
                }
            }
            q
        };
        let w = accepts(&st, &m, &t, &q, p.hash);
        c.trace.push(format!("received {}", hex(&q)));
        let tr = c.trace.join("; ");
        let got = {
            let rq = &mut rq;
            c.guard(&["C02"], || format!("steps: {}", tr), || rq.handle_msg(&q))
        };
        let got = match got {
            Some(x) => x,
            None => {
                c.count(answered > 0, &q, || String::new());
                return;
            }
        };
        let rl = match c.guard(&["C13", "C02"], || format!("state(); steps: {}", tr), || real(rq.state())) {
            Some(x) => x,
            None => return,
        };
        let ps: &[&str] = match st {
            St::Version => &["C07", "C13"],
            St::Algs => &["C09", "C13"],
            St::IdAuth => &["C17", "C13"],
            St::Certs => &["C18", "C13"],
            St::Chal => &["C14", "C13"],
            _ => &["C13"],
        };
        match got {
            Err(e) => {
                c.check(&["C13"], rl.0 == "Error", || format!("failed with {:?} but the state is {}; steps: {}", e, rl.0, tr));
                if st != St::Chal {
                    c.check(ps, w.is_none(), || format!("refused with {:?} although it must be accepted; steps: {}", e, tr));
                } else if style == 0 {
                    // an honest exchange up to here: capacity is the only excuse
                    let room = p.hash == 1 && t.len() + q.len() <= 4160;
                    c.check(&["C11", "C15"], !(room && root == ROOT && w.is_some()), || {
                        format!("authentication of an honest responder failed with {:?}; steps: {}", e, tr)
                    });
                }
                let _ = matches!(e, RequesterError::ParseHeader);
                break;
            }
            Ok(done) => {
                let (next, mut m2) = match w {
                    Some(x) => x,
                    None => {
                        c.check(ps, false, || format!("accepted although it must be refused; steps: {}", tr));
                        return;
                    }
                };
                answered += 1;
                if st == St::Chal {
                    let (_, chain) = m.cert.as_ref().unwrap();
                    let leaf = trusted(chain, dlen(p.hash), root);
                    if !c.check(ps, leaf.is_some(), || format!("authenticated although the chain {} is not trusted under {}; steps: {}", hex(chain), if root == ROOT { "root" } else { "another root" }, tr)) || leaf.is_none() {
                        return;
                    }
                    // where the signature is, and what it covers
                    let d = dlen(p.hash);
                    let at = 2 + 2 + 2 * d + 32;
                    let opq = wire::opaque_len(&q[at + 2..]);
                    let at = at + 2 + opq;
                    let sig = &q[at..at + 64];
                    let mut ok = false;
                    for end in [q.len() - 64, at] {
                        let mut m2 = t.clone();
                        m2.extend(&q[..end]);
                        ok |= m2.len() <= 4096 && signed(leaf.as_ref().unwrap(), &hash(p.hash, &m2), sig);
                    }
                    if !c.check(ps, ok, || format!("authenticated although the signature {} does not verify; steps: {}", hex(sig), tr)) || !ok {
                        return;
                    }
                    let mut t2 = t.clone();
                    t2.extend(&q[..q.len() - 64]);
                    c.check(&["C11"], q.len() != at + 64 || rq.transcript().get() == t2, || format!("transcript {} instead of {}; steps: {}", hex(rq.transcript().get()), hex(&t2), tr));
                    t = rq.transcript().get().to_vec();
                } else {
                    t.extend(&q);
                    c.check(&["C11"], rq.transcript().get() == t, || format!("transcript {} instead of {}; steps: {}", hex(rq.transcript().get()), hex(&t), tr));
                }
                if style == 0 {
                    c.check(&["C11"], rs.transcript().get() == t && rs.transcript() == rq.transcript(), || {
                        format!("the transcripts of both sides differ: {} and {}; steps: {}", hex(rs.transcript().get()), hex(&t), tr)
                    });
                }
                if st == St::Algs {
                    p.hash = le(&q[16..20]) as u32;
                }
                if next == St::Chal {
                    m2.nonce = None;
                }
                c.check(&["C13"], done == (next == St::Done), || format!("reported {} in state {}; steps: {}", done, rl.0, tr));
                st = next;
                m = m2;
                if !same(c, &rl, &st, &m, &tr) && rl.0 != name(&st) {
                    return;
                }
                if st == St::Done {
                    let mut buf = [0u8; 600];
                    let n = {
                        let rq = &mut rq;
                        c.guard(&["C13"], || "next_request at the end".into(), || matches!(rq.next_request(&mut buf), Err(RequesterError::InitializationComplete)))
                    };
                    c.check(&["C13"], n == Some(true), || "a request follows the end of the initialization".into());
                    break;
                }
            }
        }
        if c.viol.is_some() {
            return;
        }
    }
    let tr = c.trace.join("; ");
    c.count(answered > 0, &tr, || tr.clone());
}

/// compare the recorded state with the model
fn same(c: &mut Ctx, rl: &(&'static str, M), st: &St, m: &M, tr: &str) -> bool {
    let k = known(st, m);
    let mut ok = c.check(&["C13"], rl.0 == name(st), || format!("state {} instead of {}; steps: {}", rl.0, name(st), tr));
    if !ok {
        return false;
    }
    let r = &rl.1;
    ok &= c.check(&["C07"], r.version == k.version, || format!("version {:?} instead of {:?}; steps: {}", r.version, k.version, tr));
    let caps = |m: &M| (m.sct, m.scap, m.rct, m.rcap);
    ok &= c.check(&["C21"], caps(r) == caps(&k), || format!("capabilities {:x?} instead of {:x?}; steps: {}", caps(r), caps(&k), tr));
    ok &= c.check(&["C09"], r.algs == k.algs, || format!("algorithms {:x?} instead of {:x?}; steps: {}", r.algs, k.algs, tr));
    ok &= c.check(&["C17"], r.digests == k.digests, || format!("digests {:x?} instead of {:x?}; steps: {}", r.digests, k.digests, tr));
    ok &= c.check(&["C18", "C14"], r.cert == k.cert, || format!("certificate {:x?} instead of {:x?}; steps: {}", r.cert, k.cert, tr));
    ok &= c.check(&["C23"], r.nonce == k.nonce, || format!("nonce {:x?} instead of {:x?}; steps: {}", r.nonce, k.nonce, tr));
    ok
}

pub fn walk(r: &mut Rng, c: &mut Ctx) {
    let root = if r.chance(9, 10) { ROOT } else { BROOT };
    let style = match r.below(10) {
        0 | 1 => 0,
        2 | 3 => 1,
        _ => 2,
    };
    run(r, c, root, style);
}

/// Nonces of CHALLENGE as sent by the requester.
pub fn nonces(r: &mut Rng, c: &mut Ctx) {
    let id = r.pick(GOOD);
    let mut ns = vec![];
    while ns.len() < 96 {
        let ps: Vec<Option<Prov>> = (0..5).map(|k| if k == 0 { Some(Prov::new(id, ROOT)) } else { None }).collect();
        let mut rs = Responder::new(slots(&ps));
        let mut rq: RequesterInit<'_, Sg> = RequesterInit::new(ROOT, [None, None, None, None, None]);
        for _ in 0..5 {
            let (mut a, mut b) = ([0u8; 700], [0u8; 2000]);
            let q = match rq.next_request(&mut a) {
                Ok(q) => q,
                Err(_) => return,
            };
            let s = rs.handle_msg(q, &mut b).0;
            if rq.handle_msg(s).is_err() {
                return;
            }
        }
        for _ in 0..16 {
            let mut a = [0u8; 700];
            let q = match rq.next_request(&mut a) {
                Ok(q) => q.to_vec(),
                Err(_) => return,
            };
            if q.len() != 36 {
                return;
            }
            let n = real(rq.state()).1.nonce;
            c.check(&["C23"], n.as_deref() == Some(&q[4..]), || format!("nonce sent {} but recorded {:?}", hex(&q[4..]), n));
            let t = rq.transcript().get();
            c.check(&["C23"], t.ends_with(&q), || "the nonce sent is not the one recorded in the transcript".into());
            ns.push(q[4..].to_vec());
        }
    }
    codec::check_nonces(c, &ns, "the requester's CHALLENGE");
}
