//! Random walks of the real responder against a reference model.
use crate::rng::Rng;
use crate::wire::{self, K, P};
use crate::{codec, hex, Ctx};
use ring::signature::{EcdsaKeyPair, KeyPair, UnparsedPublicKey, ECDSA_P256_SHA256_FIXED, ECDSA_P256_SHA256_FIXED_SIGNING};
use spdm::crypto::ring::signing::{new_signer, RingSigner};
use spdm::crypto::signing::{self, Signature, Signer};
use spdm::crypto::FilledSlot;
use spdm::msgs::algorithms::{BaseAsymAlgo, BaseHashAlgo};
use spdm::msgs::{Algorithms, CertificateChain, Msg};
use spdm::responder::AllStates;
use spdm::{Responder, ResponderError};

pub const CAPS: u32 = 0x2 | 0x4 | 0x40 | 0x80 | 0x100 | 0x200 | 0x4000;

pub fn hash(bit: u32, b: &[u8]) -> Vec<u8> {
    let a = match bit {
        1 => &ring::digest::SHA256,
        2 => &ring::digest::SHA384,
        _ => &ring::digest::SHA512,
    };
    ring::digest::digest(a, b).as_ref().to_vec()
}
pub fn dlen(bit: u32) -> usize {
    match bit {
        1 => 32,
        2 => 48,
        _ => 64,
    }
}

pub struct Sig(Vec<u8>);
impl AsRef<[u8]> for Sig {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl Signature for Sig {}
pub enum Sg {
    Mock(u8),
    Ring(RingSigner),
    Odd(RingSigner),
    Fail,
}
fn mock(k: u8, m: &[u8]) -> Vec<u8> {
    let mut v = vec![k];
    v.extend(m);
    hash(4, &v)
}
impl Signer for Sg {
    type Signature = Sig;
    fn sign(&self, m: &[u8]) -> Result<Sig, signing::Error> {
        match self {
            Sg::Mock(k) => Ok(Sig(mock(*k, m))),
            Sg::Ring(s) => s.sign(m).map(|x| Sig(x.as_ref().to_vec())),
            Sg::Odd(s) => {
                let mut x = s.sign(m)?.as_ref().to_vec();
                for _ in 0..300 {
                    if x[0] == 0 || x[x.len() / 2] == 0 {
                        break;
                    }
                    x = s.sign(m)?.as_ref().to_vec();
                }
                Ok(Sig(x))
            }
            Sg::Fail => Err(signing::Error {}),
        }
    }
}

pub struct Id {
    pub leaf: &'static [u8],
    pub key: &'static [u8],
    pub inter: &'static [&'static [u8]],
}
macro_rules! der {
    ($n:literal) => {
        include_bytes!(concat!("../certs/", $n, ".der"))
    };
}
pub static ROOT: &[u8] = der!("root");
pub static BROOT: &[u8] = der!("broot");
pub static INTER: &[u8] = der!("inter");
pub static GOOD: &[Id] = &[
    Id { leaf: der!("leaf0"), key: der!("leaf0.key"), inter: &[der!("inter")] },
    Id { leaf: der!("leaf1"), key: der!("leaf1.key"), inter: &[der!("inter")] },
    Id { leaf: der!("leaf2"), key: der!("leaf2.key"), inter: &[der!("inter")] },
    Id { leaf: der!("leafd"), key: der!("leafd.key"), inter: &[] },
];
/// identities that must not be trusted
pub static BAD: &[Id] = &[
    Id { leaf: der!("bleaf"), key: der!("bleaf.key"), inter: &[der!("binter")] },
    Id { leaf: der!("eleaf"), key: der!("eleaf.key"), inter: &[der!("inter")] },
    Id { leaf: der!("fleaf"), key: der!("fleaf.key"), inter: &[der!("inter")] },
    Id { leaf: der!("ncaleaf"), key: der!("ncaleaf.key"), inter: &[der!("nca")] },
    Id { leaf: der!("leaf0"), key: der!("leaf1.key"), inter: &[der!("inter")] },
    Id { leaf: der!("leaf0"), key: der!("leaf0.key"), inter: &[] },
    Id { leaf: der!("leaf0"), key: der!("leaf0.key"), inter: &[der!("binter")] },
    Id { leaf: der!("bleaf"), key: der!("bleaf.key"), inter: &[der!("inter")] },
];

pub enum Key {
    Mock(u8),
    Ring(&'static [u8]),
    /// signs until the signature has an unusual shape
    Odd(&'static [u8]),
    Fail,
}
pub struct Prov {
    pub root: Vec<u8>,
    pub inter: Vec<Vec<u8>>,
    pub leaf: Vec<u8>,
    pub key: Key,
}
impl Prov {
    pub fn new(id: &Id, root: &[u8]) -> Prov {
        Prov {
            root: hash(1, root),
            inter: id.inter.iter().map(|x| x.to_vec()).collect(),
            leaf: id.leaf.to_vec(),
            key: Key::Ring(id.key),
        }
    }
    pub fn set_root(&mut self, b: Vec<u8>) {
        self.root = b;
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = self.inter.clone();
        v.push(self.leaf.clone());
        codec::chain_bytes(&self.root, &v)
    }
    pub fn slot(&self) -> FilledSlot<'_, Sg> {
        let mut ch = CertificateChain::new(&self.root, &self.leaf);
        for i in &self.inter {
            let _ = ch.append_intermediate_cert(i);
        }
        FilledSlot {
            signing_algorithm: BaseAsymAlgo::ECDSA_ECC_NIST_P256,
            hash_algorithm: BaseHashAlgo::SHA_256,
            cert_chain: ch,
            signer: match &self.key {
                Key::Mock(k) => Sg::Mock(*k),
                Key::Ring(k) => Sg::Ring(new_signer(BaseAsymAlgo::ECDSA_ECC_NIST_P256, k).unwrap()),
                Key::Odd(k) => Sg::Odd(new_signer(BaseAsymAlgo::ECDSA_ECC_NIST_P256, k).unwrap()),
                Key::Fail => Sg::Fail,
            },
        }
    }
    /// is `sig` what this slot's key makes of `m`?
    fn signed(&self, m: &[u8], sig: &[u8]) -> bool {
        match &self.key {
            Key::Mock(k) => mock(*k, m) == sig,
            Key::Ring(k) | Key::Odd(k) => {
                let kp = EcdsaKeyPair::from_pkcs8(&ECDSA_P256_SHA256_FIXED_SIGNING, k).unwrap();
                UnparsedPublicKey::new(&ECDSA_P256_SHA256_FIXED, kp.public_key().as_ref()).verify(m, sig).is_ok()
            }
            Key::Fail => false,
        }
    }
}

fn provision(r: &mut Rng) -> Vec<Option<Prov>> {
    let density = r.range(1, 4) as u64;
    let plain = r.chance(2, 3);
    (0..5u8)
        .map(|k| {
            if !r.chance(density, 4) {
                return None;
            }
            if r.chance(1, 8) {
                return Some(Prov::new(r.pick(GOOD), ROOT));
            }
            let mut p = Prov { root: r.bytes(32), inter: vec![], leaf: vec![], key: Key::Mock(k) };
            for _ in 0..r.range(0, 4) {
                let n = r.range(0, 60);
                p.inter.push(r.bytes(n));
            }
            let have = p.bytes().len();
            // a few chains around the largest size that can be serialized
            let n = match r.below(if plain { 4 } else { 6 }) {
                4 => *r.pick(&[1024, 1023, 1025, 1026, 1020]) - have,
                5 => r.range(1000, 3000),
                _ => r.range(0, 200),
            };
            p.leaf = r.bytes(n);
            if !plain && r.chance(1, 6) {
                p.key = Key::Fail;
            }
            if r.chance(1, 10) {
                let n = r.range(0, 64);
                p.root = r.bytes(n);
            }
            Some(p)
        })
        .collect()
}

pub fn slots(p: &[Option<Prov>]) -> [Option<FilledSlot<'_, Sg>>; 5] {
    let mut it = p.iter().map(|x| x.as_ref().map(|x| x.slot()));
    [it.next().unwrap(), it.next().unwrap(), it.next().unwrap(), it.next().unwrap(), it.next().unwrap()]
}

#[derive(Clone, PartialEq, Debug)]
struct M {
    ct: u8,
    cap: u32,
    algs: Vec<u8>,
    hash: u32,
}
#[derive(Clone, PartialEq, Debug)]
enum St {
    Version,
    Caps,
    Algs(M),
    IdAuth(M),
    Chal(M),
    Error,
}
impl St {
    fn name(&self) -> &'static str {
        match self {
            St::Version => "Version",
            St::Caps => "Capabilities",
            St::Algs(_) => "Algorithms",
            St::IdAuth(_) => "IdAuth",
            St::Chal(_) => "Challenge",
            St::Error => "Error",
        }
    }
}

/// What the reference expects of one request, apart from the available room.
enum Want {
    /// refused; the ERROR body when the cause is unambiguous
    No(Option<&'static [u8]>, &'static [&'static str]),
    /// answered with exactly these bytes
    Is(Vec<u8>, St),
    /// answered with an ALGORITHMS choosing from this offer
    Choose(Vec<u8>),
    /// answered with CHALLENGE_AUTH for a slot; `true` if signing fails
    Auth(usize, bool),
}
fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |a, x| a << 8 | *x as u64)
}
const PP: P = P { dlen: 32, slen: 64, sig: false };
const REFUSE: &[&str] = &["C12"];

fn body<'a>(k: K, q: &'a [u8]) -> Option<&'a [u8]> {
    if q.len() >= 2 && q[..2] == wire::header(k) {
        Some(&q[2..])
    } else {
        None
    }
}

fn want(st: &St, ps: &[Option<Prov>], q: &[u8]) -> Want {
    let unexpected = Want::No(Some(&[4, 0]), &["C12", "C20"]);
    if let Some(b) = body(K::GetVersion, q) {
        return match wire::accept(K::GetVersion, b, PP) {
            Some(_) => Want::Is(vec![0x10, 4, 0, 0, 0, 2, 0, 0x10, 0, 0x11], St::Caps),
            None => Want::No(None, &["C12", "C16"]),
        };
    }
    match st {
        St::Version | St::Error => unexpected,
        St::Caps => match body(K::GetCaps, q) {
            None => unexpected,
            Some(b) => match wire::accept(K::GetCaps, b, PP) {
                None => Want::No(None, REFUSE),
                Some(b) => {
                    let mut o = vec![0x11, 0x61, 0, 0, 0, 12, 0, 0];
                    o.extend(CAPS.to_le_bytes());
                    Want::Is(o, St::Algs(M { ct: b[3], cap: le(&b[6..10]) as u32, algs: vec![], hash: 0 }))
                }
            },
        },
        St::Algs(_) => match body(K::Nego, q) {
            None => unexpected,
            Some(b) => match wire::accept(K::Nego, b, PP) {
                None => Want::No(None, REFUSE),
                Some(b) => {
                    let n = b[0] as usize;
                    if le(&b[6..10]) & 0x10 == 0 || le(&b[10..14]) & 7 == 0 || (0..n).any(|k| le(&b[32 - 2 + 4 * k..][2..4]) == 0) {
                        return Want::No(Some(&[1, 0]), &["C12", "C08"]);
                    }
                    Want::Choose(b)
                }
            },
        },
        St::IdAuth(m) => {
            if let Some(b) = body(K::GetDigests, q) {
                if wire::accept(K::GetDigests, b, PP).is_none() {
                    return Want::No(None, REFUSE);
                }
                let mut o = vec![0x11, 1, 0, 0];
                for (k, p) in ps.iter().enumerate() {
                    if let Some(p) = p {
                        let b = p.bytes();
                        if b.len() > 1024 {
                            return Want::No(None, &["C12", "C17"]);
                        }
                        o[3] |= 1 << k;
                        o.extend(hash(m.hash, &b));
                    }
                }
                return Want::Is(o, st.clone());
            }
            match body(K::GetCert, q) {
                None => unexpected,
                Some(b) => match wire::accept(K::GetCert, b, PP) {
                    None => Want::No(None, REFUSE),
                    Some(b) => {
                        if b[0] >= 5 {
                            return Want::No(Some(&[1, 0]), &["C12", "C18"]);
                        }
                        let ch = ps[b[0] as usize].as_ref().map_or(vec![], |p| p.bytes());
                        if ch.len() > 1024 {
                            return Want::No(None, &["C12", "C18"]);
                        }
                        let mut o = vec![0x11, 2, b[0], 0, ch.len() as u8, (ch.len() >> 8) as u8, 0, 0];
                        o.extend(ch);
                        Want::Is(o, St::Chal(m.clone()))
                    }
                },
            }
        }
        St::Chal(_) => match body(K::Challenge, q) {
            None => unexpected,
            Some(b) => match wire::accept(K::Challenge, b, PP) {
                None => Want::No(None, REFUSE),
                Some(b) => match ps.get(b[0] as usize).and_then(|x| x.as_ref()) {
                    None => Want::No(Some(&[1, 0]), &["C12", "C15"]),
                    Some(p) if p.bytes().len() > 1024 => Want::No(None, &["C12", "C15"]),
                    Some(p) => Want::Auth(b[0] as usize, matches!(p.key, Key::Fail)),
                },
            },
        },
    }
}

/// the ERROR bodies whose cause is present: what may be reported for a refused request
fn causes(st: &St, ps: &[Option<Prov>], q: &[u8], room: usize, tlen: usize) -> Vec<&'static [u8]> {
    const UNEXPECTED: &[u8] = &[4, 0];
    const INVALID: &[u8] = &[1, 0];
    const REQUEST_SIZE: &[u8] = &[0x0e, 0];
    const NO_ROOM: &[u8] = &[0x0f, 0, 0];
    const TOO_LARGE: &[u8] = &[0x0d, 0, 0, 0, 0, 0];
    const UNSPECIFIED: &[u8] = &[5, 0];
    if q.len() < 2 {
        return vec![UNEXPECTED];
    }
    let b = &q[2..];
    let dirty = |o: usize, n: usize| (o..o + n).any(|i| i < b.len() && b[i] != 0);
    let full = |t: usize, n: usize| t + q.len() + n > 4096;
    let mut r: Vec<&'static [u8]> = vec![];
    let mut on = |c: bool, x: &'static [u8]| {
        if c {
            r.push(x)
        }
    };
    let (codes, m): (&[u8], Option<&M>) = match st {
        St::Version | St::Error => (&[], None),
        St::Caps => (&[0xe1], None),
        St::Algs(m) => (&[0xe3], Some(m)),
        St::IdAuth(m) => (&[0x81, 0x82], Some(m)),
        St::Chal(m) => (&[0x83], Some(m)),
    };
    if q[1] == 0x84 {
        on(q[0] != 0x10, UNEXPECTED);
        if q[0] == 0x10 {
            on(b.len() < 2, REQUEST_SIZE);
            on(dirty(0, 2), INVALID);
            on(room < 10 || full(0, 10), NO_ROOM);
        }
        return r;
    }
    if q[0] != 0x11 || !codes.contains(&q[1]) {
        return vec![UNEXPECTED];
    }
    let hash = m.map_or(32, |m| dlen(m.hash));
    let chain = |k: usize| ps.get(k).and_then(|p| p.as_ref()).map(|p| p.bytes().len());
    match q[1] {
        0xe1 => {
            on(b.len() < 10, REQUEST_SIZE);
            on(dirty(0, 3) || dirty(4, 2), INVALID);
            on(b.len() >= 10 && le(&b[6..10]) & !0x1ffc6 != 0, INVALID);
            on(room < 12 || full(tlen, 12), NO_ROOM);
        }
        0xe3 => {
            let at = if b.len() >= 30 { 30 + 4 * (b[26] as usize + b[27] as usize) } else { usize::MAX };
            on(at > b.len(), REQUEST_SIZE);
            on(b.len() >= 4 && le(&b[2..4]) > 128, REQUEST_SIZE);
            on(dirty(1, 1) || dirty(5, 1) || dirty(14, 12) || dirty(28, 2), INVALID);
            on(b.len() >= 1 && b[0] > 4, INVALID);
            on(b.len() >= 5 && b[4] & !1 != 0, INVALID);
            on(b.len() >= 10 && le(&b[6..10]) & !0x1ff != 0, INVALID);
            on(b.len() >= 14 && le(&b[10..14]) & !0x3f != 0, INVALID);
            if at <= b.len() {
                // the structures alone
                let mut c = b.to_vec();
                c[1..26].fill(0);
                c[28..30].fill(0);
                on(wire::accept(K::Nego, &c, PP).is_none(), INVALID);
            }
            if let Some(b) = wire::accept(K::Nego, b, PP) {
                let n = b[0] as usize;
                on(le(&b[6..10]) & 0x10 == 0 || le(&b[10..14]) & 7 == 0 || (0..n).any(|k| le(&b[30 + 4 * k..][2..4]) == 0), INVALID);
                on(room < 36 + 4 * n || full(tlen, 36 + 4 * n), NO_ROOM);
            }
        }
        0x81 => {
            on(b.len() < 2, REQUEST_SIZE);
            on(dirty(0, 2), INVALID);
            on((0..5).any(|k| chain(k).map_or(false, |n| n > 1024)), NO_ROOM);
            let n = 4 + hash * ps.iter().flatten().count();
            on(room < n || full(tlen, n), NO_ROOM);
        }
        0x82 => {
            on(b.len() < 6, REQUEST_SIZE);
            on(dirty(1, 1), INVALID);
            if b.len() >= 1 {
                on(b[0] >= 5, INVALID);
                if b[0] < 5 {
                    let n = chain(b[0] as usize).unwrap_or(0);
                    on(n > 1024 || room < 8 + n || full(tlen, 8 + n), NO_ROOM);
                }
            }
        }
        _ => {
            let n = 42 + 2 * hash;
            on(b.len() < 34, REQUEST_SIZE);
            on(b.len() >= 2 && ![0, 1, 0xff].contains(&b[1]), INVALID);
            on(full(tlen, n), NO_ROOM);
            on(room < n + 64, TOO_LARGE);
            if b.len() >= 1 {
                on(chain(b[0] as usize).is_none(), INVALID);
                on(chain(b[0] as usize).map_or(false, |n| n > 1024), NO_ROOM);
                on(ps.get(b[0] as usize).and_then(|p| p.as_ref()).map_or(false, |p| matches!(p.key, Key::Fail)), UNSPECIFIED);
            }
        }
    }
    r
}

/// the ERROR message assigned to a cause
fn error_bytes(e: &ResponderError) -> Vec<u8> {
    use spdm::msgs::algorithms::ParseNegotiateAlgorithmsError as N;
    use spdm::msgs::capabilities::ParseGetCapabilitiesError as C;
    use spdm::msgs::challenge::{ParseChallengeError as Q, WriteChallengeAuthError as W};
    use spdm::msgs::common::WriteOpaqueElementError as O;
    use spdm::msgs::ReadError as R;
    use ResponderError::*;
    let read = |e: &R| -> Vec<u8> {
        match e {
            R::BufferEmpty => vec![0x0e, 0],
            R::ReservedByteNotZero => vec![1, 0],
            _ => vec![5, 0],
        }
    };
    let b = match e {
        ParseHeader | UnexpectedMsgCode { .. } => vec![4, 0],
        BufferFull | WriteCertChain(_) => vec![0x0f, 0, 0],
        Read(e) => read(e),
        InvalidSlot | NoSupportedAlgorithm => vec![1, 0],
        SigningFailed | ParseBaseAsymAlgo | ParseCapability => vec![5, 0],
        ParseGetCapabilities(C::InvalidBitsSet) => vec![1, 0],
        ParseGetCapabilities(C::Read(e)) => read(e),
        ParseNegotiateAlgorithms(N::TooLarge) => vec![0x0e, 0],
        ParseNegotiateAlgorithms(N::Read(e)) => read(e),
        ParseNegotiateAlgorithms(_) => vec![1, 0],
        ParseChallenge(Q::InvalidMeasurementHashType) => vec![1, 0],
        ParseChallenge(Q::Read(e)) => read(e),
        WriteChallengeAuth(W::BufferFull) | WriteChallengeAuth(W::WriteOpaqueElement(O::BufferFull)) => vec![0x0d, 0, 0, 0, 0, 0],
        WriteChallengeAuth(_) => vec![1, 0],
    };
    let mut o = vec![0x12, 0x7f];
    o.extend(b);
    o
}

pub fn alg_body(a: &Algorithms) -> Vec<u8> {
    let mut b = [0u8; 128];
    match a.write(&mut b) {
        Ok(n) => b[2..n].to_vec(),
        Err(_) => vec![],
    }
}

/// the fields of the real state; absent values as None
pub type Fields = (&'static str, Option<(Option<u8>, Option<u32>, Option<u8>, Option<u32>)>, Option<Vec<u8>>);
pub fn fields(s: &AllStates) -> Fields {
    match s {
        AllStates::Error => ("Error", None, None),
        AllStates::Version(_) => ("Version", None, None),
        AllStates::Capabilities(s) => (
            "Capabilities",
            Some((s.requester_ct_exponent, s.requester_cap.map(|f| f.bits()), s.responder_ct_exponent, s.responder_cap.map(|f| f.bits()))),
            None,
        ),
        AllStates::Algorithms(s) => (
            "Algorithms",
            Some((Some(s.requester_ct_exponent), Some(s.requester_cap.bits()), Some(s.responder_ct_exponent), Some(s.responder_cap.bits()))),
            s.algorithms.as_ref().map(alg_body),
        ),
        AllStates::IdAuth(s) => (
            "IdAuth",
            Some((Some(s.requester_ct_exponent), Some(s.requester_cap.bits()), Some(s.responder_ct_exponent), Some(s.responder_cap.bits()))),
            Some(alg_body(&s.algorithms)),
        ),
        AllStates::Challenge(s) => (
            "Challenge",
            Some((Some(s.requester_ct_exponent), Some(s.requester_cap.bits()), Some(s.responder_ct_exponent), Some(s.responder_cap.bits()))),
            Some(alg_body(&s.algorithms)),
        ),
    }
}
fn model_fields(s: &St) -> Fields {
    match s {
        St::Error | St::Version => (s.name(), None, None),
        St::Caps => (s.name(), Some((None, None, None, None)), None),
        St::Algs(m) => (s.name(), Some((Some(m.ct), Some(m.cap), Some(12), Some(CAPS))), None),
        St::IdAuth(m) | St::Chal(m) => (s.name(), Some((Some(m.ct), Some(m.cap), Some(12), Some(CAPS))), Some(m.algs.clone())),
    }
}

fn request(st: &St, ps: &[Option<Prov>], r: &mut Rng, clean: bool) -> Vec<u8> {
    let next = match st {
        St::Version | St::Error => K::GetVersion,
        St::Caps => K::GetCaps,
        St::Algs(_) => K::Nego,
        St::IdAuth(_) => {
            if r.chance(1, 2) {
                K::GetDigests
            } else {
                K::GetCert
            }
        }
        St::Chal(_) => K::Challenge,
    };
    let k = if clean || r.chance(3, 4) { next } else { *r.pick(&wire::ALL) };
    let mut q = wire::header(k).to_vec();
    let mut b = wire::valid(k, r, PP);
    match k {
        K::Nego if clean || r.chance(2, 3) => {
            b[6] |= 0x10;
            if b[10] & 7 == 0 {
                b[10] |= 1 << r.below(3);
            }
            // every structure offers something
            let mut i = 30 + 4 * (b[26] as usize + b[27] as usize);
            for _ in 0..b[0] {
                if b[i + 2] == 0 && b[i + 3] == 0 {
                    b[i + 2] = 1;
                }
                i += 4 + 4 * (b[i + 1] & 15) as usize;
            }
        }
        K::Challenge | K::GetCert if clean || r.chance(2, 3) => {
            let full: Vec<u8> = (0..5).filter(|k| ps[*k as usize].is_some()).collect();
            if !full.is_empty() {
                b[0] = *r.pick(&full);
            }
        }
        _ => {}
    }
    q.extend(b);
    if !clean {
        match r.below(12) {
            0 | 1 | 2 => wire::mutate(&mut q, r),
            3 => {
                let n = if r.chance(1, 2) { r.range(1, 40) } else { r.range(3000, 4200) };
                q.extend(r.bytes(n));
            }
            4 => {
                let n = r.range(0, 3);
                q.truncate(n);
            }
            5 => {
                // exactly up to the transcript's capacity and one beyond
                let n = *r.pick(&[4086usize, 4085, 4087, 4096, 4084]);
                if n > q.len() {
                    let more = n - q.len();
                    q.extend(r.bytes(more));
                }
            }
            6 => {
                let n = r.range(0, 12);
                q = r.bytes(n);
            }
            _ => {}
        }
    } else if r.chance(1, 12) {
        let n = r.range(1, 1500);
        q.extend(r.bytes(n));
    }
    q
}

pub fn walk(r: &mut Rng, c: &mut Ctx) {
    let ps = provision(r);
    let mask = ps.iter().enumerate().fold(0u8, |a, (k, p)| a | (p.is_some() as u8) << k);
    let mut rs = Responder::new(slots(&ps));
    c.trace.push(format!(
        "slots {:?}",
        ps.iter().map(|p| p.as_ref().map(|p| (p.bytes().len(), match p.key { Key::Mock(_) => "mock key", Key::Ring(_) | Key::Odd(_) => "P-256 key", Key::Fail => "failing key" }))).collect::<Vec<_>>()
    ));
    let mut st = St::Version;
    let mut t: Vec<u8> = vec![];
    let depth = r.range(0, 7);
    let mut answered = 0u32;
    let steps = r.range(1, 12);
    let ok = fields(rs.state()) == model_fields(&st) && rs.transcript().get().is_empty();
    c.check(&["C12", "C16"], ok, || "a new responder is not in its initial state with an empty transcript".into());
    for step in 0..steps {
        if st == St::Error || r.chance(1, 25) {
            rs.reset();
            st = St::Version;
            t.clear();
            c.trace.push("reset()".into());
            let ok = fields(rs.state()) == model_fields(&st) && rs.transcript().get().is_empty();
            if !c.check(&["C16"], ok, || format!("after reset(): state {:?}, transcript {}", rs.state(), hex(rs.transcript().get()))) {
                return;
            }
        }
        let clean = step < depth || r.chance(1, 3);
        let q = request(&st, &ps, r, clean);
        let w = want(&st, &ps, &q);
        let is_gv = body(K::GetVersion, &q).is_some();
        let (hlen, m) = match &st {
            St::IdAuth(m) | St::Chal(m) => (dlen(m.hash), Some(m.clone())),
            _ => (32, None),
        };
        let size = match &w {
            Want::No(..) => 16,
            Want::Is(o, _) => o.len(),
            Want::Choose(b) => 36 + 4 * b[0] as usize,
            Want::Auth(..) => 42 + 2 * hlen + 64,
        };
        let room = match r.below(if clean { 30 } else { 8 }) {
            0 => size - 1,
            1 => size,
            2 => r.us(size),
            3 => r.range(0, 10),
            _ => 2200,
        };
        let logged = match &w {
            Want::Auth(..) => size - 64,
            _ => size,
        };
        let t0 = if is_gv { 0 } else { t.len() };
        let fits = room >= size && t0 + q.len() + logged <= 4096;
        let mut buf = vec![0xa5u8; room];
        c.trace.push(format!("{}: request {} with {} bytes of room", st.name(), hex(&q), room));
        let got = {
            let rs = &mut rs;
            let tr = c.trace.join("; ");
            c.guard(&["C01"], || format!("steps: {}", tr), || {
                let (o, e) = rs.handle_msg(&q, &mut buf);
                (o.to_vec(), e)
            })
        };
        let (out, res) = match got {
            Some(x) => x,
            None => {
                c.count(answered > 0, &q, || String::new());
                return;
            }
        };
        c.trace.push(format!("-> {:?} {}", res, hex(&out)));
        let tr0 = c.trace.join("; ");
        let real = match c.guard(&["C01", "C12"], || format!("state(); steps: {}", tr0), || fields(rs.state())) {
            Some(x) => x,
            None => return,
        };
        let rt = rs.transcript().get().to_vec();
        let kind: &[&str] = if is_gv {
            &["C12", "C16"]
        } else {
            match &w {
                Want::Choose(_) => &["C12", "C08"],
                Want::Auth(..) => &["C12", "C15"],
                Want::Is(o, _) => match o[1] {
                    1 => &["C12", "C17"],
                    2 => &["C12", "C18"],
                    _ => &["C12"],
                },
                Want::No(..) => &["C12"],
            }
        };
        match res {
            Err(e) => {
                let may_fail = match &w {
                    Want::No(..) => true,
                    Want::Auth(_, true) => true,
                    _ => !fits,
                };
                c.check(kind, may_fail, || format!("refused with {:?} although it must be answered; steps: {}", e, tr0));
                let eb = error_bytes(&e);
                let exp: &[u8] = if room >= eb.len() { &eb } else { &[] };
                c.check(&["C20"], out == exp, || format!("refused with {:?}: output {} instead of {}", e, hex(&out), hex(exp)));
                c.check(&["C20"], real.0 == "Error", || format!("refused with {:?} but the state is {}", e, real.0));
                let code: Option<&[u8]> = match &w {
                    Want::No(x, _) if t.len() + q.len() <= 3000 => *x,
                    Want::Auth(_, true) if fits => Some(&[5, 0]),
                    _ => None,
                };
                let may = causes(&st, &ps, &q, room, t.len());
                c.check(&["C20"], out.len() < 4 || may.iter().any(|x| out[2..] == **x), || {
                    format!("refused with {:?} and ERROR {}, but the causes present call for {:?}", e, hex(&out), may.iter().map(|x| hex(x)).collect::<Vec<_>>())
                });
                if let Some(x) = code {
                    c.check(&["C20"], room < 2 + x.len() || (out.len() >= 2 && &out[2..] == x), || {
                        format!("wrong ERROR {} for {:?}, expected code {}", hex(&out), e, hex(x))
                    });
                }
                if c.viol.is_some() {
                    return;
                }
                st = St::Error;
            }
            Ok(()) => {
                answered += 1;
                c.check(&["C20"], real.0 != "Error", || format!("answered, but the state is Error; steps so far {}", answered));
                let refuse: &[&str] = match &w {
                    Want::No(_, p) => p,
                    _ => kind,
                };
                let may = !matches!(&w, Want::No(..) | Want::Auth(_, true)) && fits;
                let tr = c.trace.join("; ");
                if !c.check(refuse, may, || format!("answered with {} although it must be refused (room {}, transcript {}); steps: {}", hex(&out), room, t.len(), tr)) || !may {
                    return;
                }
                let next = match w {
                    Want::No(..) => return,
                    Want::Is(o, next) => {
                        let p: &[&str] = match o[1] {
                            4 => &["C16", "C20"],
                            0x61 => &["C21", "C20"],
                            1 => &["C17", "C20"],
                            _ => &["C18", "C20"],
                        };
                        c.check(p, out == o, || format!("response {} instead of {}; steps: {}", hex(&out), hex(&o), tr));
                        next
                    }
                    Want::Choose(b) => {
                        let p = &["C08", "C20"];
                        let n = b[0] as usize;
                        let good = out.len() == 36 + 4 * n
                            && out[..2] == [0x11, 0x63]
                            && wire::accept(K::Algs, &out[2..], PP).as_deref() == Some(&out[2..])
                            && out[2] == b[0]
                            && out[8 - 2] == b[4]
                            && {
                                let (mh, sa, h) = (le(&out[8..12]), le(&out[12..16]), le(&out[16..20]));
                                h & le(&b[10..14]) & 7 == h && h.count_ones() == 1 && sa == 0x10 && mh == h
                            }
                            && (0..n).all(|k| {
                                let (q, s) = (&b[30 + 4 * k..34 + 4 * k], &out[36 + 4 * k..40 + 4 * k]);
                                let x = le(&s[2..]);
                                q[0] == s[0] && s[1] == 0x20 && x.count_ones() == 1 && x & le(&q[2..]) == x
                            });
                        // the measurement specification may be absent from the request
                        let spec0 = b[4] == 0;
                        if spec0 {
                            // nothing to select from: mirrored
                            if out.len() != 36 + 4 * n || out[6] != 0 {
                                c.check(p, false, || format!("ALGORITHMS {} for offer {}", hex(&out), hex(&b)));
                            }
                        } else if !c.check(p, good, || format!("ALGORITHMS {} for offer {}; steps: {}", hex(&out), hex(&b), tr)) {
                            return;
                        }
                        if out.len() < 36 + 4 * n {
                            return;
                        }
                        let h = le(&out[16..20]) as u32;
                        if ![1, 2, 4].contains(&h) {
                            c.check(p, false, || format!("selected hash {:x}", h));
                            return;
                        }
                        match &st {
                            St::Algs(m) => St::IdAuth(M { algs: out[2..].to_vec(), hash: h, ..m.clone() }),
                            _ => return,
                        }
                    }
                    Want::Auth(k, _) => {
                        let p = &["C15", "C20"];
                        let (d, m) = (hlen, m.clone().unwrap());
                        let mutual = m.cap & 0x100 != 0;
                        let pr = ps[k].as_ref().unwrap();
                        if !c.check(p, out.len() == size, || format!("CHALLENGE_AUTH of {} bytes instead of {}", out.len(), size)) || out.len() != size {
                            return;
                        }
                        let n = size - 64;
                        let mut o = vec![0x11, 3, k as u8 | if mutual { 0x80 } else { 0 }, mask];
                        o.extend(hash(m.hash, &pr.bytes()));
                        c.check(p, out[..4 + d] == o[..], || format!("CHALLENGE_AUTH starts {} instead of {}; steps: {}", hex(&out[..4 + d]), hex(&o), tr));
                        let mut o = vec![0; d];
                        o.extend([4, 0, 0, 0, 0, 0]);
                        c.check(p, out[36 + d..n] == o[..], || format!("CHALLENGE_AUTH continues {} instead of {}; steps: {}", hex(&out[36 + d..n]), hex(&o), tr));
                        let mut m1 = t.clone();
                        m1.extend(&q);
                        m1.extend(&out[..n]);
                        c.check(p, pr.signed(&hash(m.hash, &m1), &out[n..]), || {
                            format!("the signature {} is not that of slot {}'s key over the conversation; steps: {}", hex(&out[n..]), k, tr)
                        });
                        st.clone()
                    }
                };
                if is_gv {
                    t.clear();
                }
                t.extend(&q);
                t.extend(&out[..out.len().min(logged)]);
                c.check(if is_gv { &["C11", "C16"] } else { &["C11"] }, rt == t, || format!("transcript {} instead of {}; steps: {}", hex(&rt), hex(&t), tr));
                let exp = model_fields(&next);
                let tr = c.trace.join("; ");
                c.check(if is_gv { &["C12", "C16"] } else { &["C12"] }, real.0 == exp.0, || format!("next state {} instead of {}; steps: {}", real.0, exp.0, tr));
                let caps: &[&str] = if is_gv { &["C21", "C16"] } else { &["C21"] };
                c.check(caps, real.0 != exp.0 || real.1 == exp.1, || format!("recorded capabilities {:x?} instead of {:x?}; steps: {}", real.1, exp.1, tr));
                c.check(&["C08"], real.0 != exp.0 || real.2 == exp.2, || format!("recorded algorithms {:?} instead of {:?}; steps: {}", real.2, exp.2, tr));
                if c.viol.is_some() || real != exp || rt != t {
                    // another property's violation: the model no longer follows
                    return;
                }
                st = next;
            }
        }
        if c.viol.is_some() {
            return;
        }
    }
    let tr = c.trace.join("; ");
    c.count(answered > 0, &tr, || tr.clone());
}

/// Nonces of CHALLENGE_AUTH.
pub fn nonces(r: &mut Rng, c: &mut Ctx) {
    let ps: Vec<Option<Prov>> =
        (0..5).map(|k| Some(Prov { root: vec![7; 32], inter: vec![], leaf: r.bytes(20), key: Key::Mock(k) })).collect();
    let h = 1u8 << r.below(3);
    let d = dlen(h as u32);
    let mut ns = vec![];
    let mut xs = vec![];
    // the same request again and again, or another one each time
    let fixed = if r.chance(1, 2) { Some(r.bytes(32)) } else { None };
    while ns.len() < 96 {
        let mut rs = Responder::new(slots(&ps));
        let mut buf = [0u8; 600];
        let mut nego = vec![0x11, 0xe3, 0, 0, 32, 0, 1, 0, 0x10, 0, 0, 0, h, 0, 0, 0];
        nego.extend([0; 16]);
        let pre: [&[u8]; 4] = [&[0x10, 0x84, 0, 0], &[0x11, 0xe1, 0, 0, 0, 1, 0, 0, 6, 0, 0, 0], &nego, &[0x11, 0x82, 0, 0, 0, 0, 0, 4]];
        for q in pre {
            if rs.handle_msg(q, &mut buf).1.is_err() {
                return; // not a matter of nonces
            }
        }
        for _ in 0..8 {
            let mut q = vec![0x11, 0x83, r.us(5) as u8, 0];
            let asked = fixed.clone().unwrap_or_else(|| r.bytes(32));
            q.extend(&asked);
            let out = match rs.handle_msg(&q, &mut buf) {
                (o, Ok(())) => o.to_vec(),
                _ => return,
            };
            if out.len() < 36 + d {
                return;
            }
            ns.push(out[4 + d..36 + d].to_vec());
            xs.push(asked.iter().zip(&out[4 + d..36 + d]).map(|(a, b)| a ^ b).collect::<Vec<u8>>());
            let tail = rs.transcript().get();
            let n = tail.len();
            let o = &out[..out.len() - 64];
            c.check(&["C23"], n >= o.len() && tail[n - o.len()..][4 + d..36 + d] == o[4 + d..36 + d], || "the nonce sent is not the one recorded".into());
        }
    }
    codec::check_nonces(c, &ns, "CHALLENGE_AUTH");
    codec::check_nonces(c, &xs, "CHALLENGE_AUTH, exclusive or with the nonce of the request");
}
