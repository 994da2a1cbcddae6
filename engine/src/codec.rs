//! Codecs, reader, writer, transcript, chains, equality.
use crate::rng::Rng;
use crate::wire::{self, K, P};
use crate::{hex, Ctx};
use spdm::msgs::algorithms as alg;
use spdm::msgs::capabilities::{ReqFlags, RspFlags};
use spdm::msgs::common::*;
use spdm::msgs::digest::{Digests, GetDigests};
use spdm::msgs::encoding::{ReadError, Reader, Writer};
use spdm::msgs::*;
use spdm::Transcript;
use std::convert::TryFrom;

const COD: &[&str] = &["C03", "C05"];
const ENC: &[&str] = &["C03", "C04"];

#[derive(Clone)]
enum Any {
    GetVersion,
    Version(Version),
    GetCaps(GetCapabilities),
    Caps(Capabilities),
    Nego(NegotiateAlgorithms),
    Algs(Algorithms),
    GetDigests,
    Digests(Digests),
    GetCert(GetCertificate),
    Cert(Certificate),
    Challenge(Challenge),
    ChallengeAuth(ChallengeAuth),
    Error(Error),
    GetMeas(GetMeasurements),
    Meas(Measurements),
}

fn parse(k: K, b: &[u8], p: P) -> Option<Any> {
    let ds = DigestSize::try_from(p.dlen).unwrap();
    let ss = SignatureSize::try_from(p.slen).unwrap();
    Some(match k {
        K::GetVersion => {
            GetVersion::parse_body(b).ok()?;
            Any::GetVersion
        }
        K::Version => Any::Version(Version::parse_body(b).ok()?),
        K::GetCaps => Any::GetCaps(GetCapabilities::parse_body(b).ok()?),
        K::Caps => Any::Caps(Capabilities::parse_body(b).ok()?),
        K::Nego => Any::Nego(NegotiateAlgorithms::parse_body(b).ok()?),
        K::Algs => Any::Algs(Algorithms::parse_body(b).ok()?),
        K::GetDigests => {
            GetDigests::parse_body(b).ok()?;
            Any::GetDigests
        }
        K::Digests => Any::Digests(Digests::parse_body(ds, b).ok()?),
        K::GetCert => Any::GetCert(GetCertificate::parse_body(b).ok()?),
        K::Cert => Any::Cert(Certificate::parse_body(b).ok()?),
        K::Challenge => Any::Challenge(Challenge::parse_body(b).ok()?),
        K::ChallengeAuth => Any::ChallengeAuth(ChallengeAuth::parse_body(b, ds, ss).ok()?),
        K::Error => Any::Error(Error::parse_body(b).ok()?),
        K::GetMeas => Any::GetMeas(GetMeasurements::parse_body(b).ok()?),
        K::Meas => Any::Meas(Measurements::parse_body(b, p.sig, ss).ok()?),
    })
}

fn parse_header(k: K, b: &[u8]) -> Result<bool, ()> {
    match k {
        K::GetVersion => GetVersion::parse_header(b),
        K::Version => Version::parse_header(b),
        K::GetCaps => GetCapabilities::parse_header(b),
        K::Caps => Capabilities::parse_header(b),
        K::Nego => NegotiateAlgorithms::parse_header(b),
        K::Algs => Algorithms::parse_header(b),
        K::GetDigests => GetDigests::parse_header(b),
        K::Digests => Digests::parse_header(b),
        K::GetCert => GetCertificate::parse_header(b),
        K::Cert => Certificate::parse_header(b),
        K::Challenge => Challenge::parse_header(b),
        K::ChallengeAuth => ChallengeAuth::parse_header(b),
        K::Error => Error::parse_header(b),
        K::GetMeas => GetMeasurements::parse_header(b),
        K::Meas => Measurements::parse_header(b),
    }
    .map_err(|_| ())
}

impl Any {
    fn write(&self, buf: &mut [u8]) -> Option<usize> {
        match self {
            Any::GetVersion => GetVersion {}.write(buf).ok(),
            Any::Version(m) => m.write(buf).ok(),
            Any::GetCaps(m) => m.write(buf).ok(),
            Any::Caps(m) => m.write(buf).ok(),
            Any::Nego(m) => m.write(buf).ok(),
            Any::Algs(m) => m.write(buf).ok(),
            Any::GetDigests => GetDigests {}.write(buf).ok(),
            Any::Digests(m) => m.write(buf).ok(),
            Any::GetCert(m) => m.write(buf).ok(),
            Any::Cert(m) => m.write(buf).ok(),
            Any::Challenge(m) => m.write(buf).ok(),
            Any::ChallengeAuth(m) => m.write(buf).ok(),
            Any::Error(m) => m.write(buf).ok(),
            Any::GetMeas(m) => m.write(buf).ok(),
            Any::Meas(m) => m.write(buf).ok(),
        }
    }
    fn same(&self, o: &Any) -> bool {
        match (self, o) {
            (Any::GetVersion, Any::GetVersion) | (Any::GetDigests, Any::GetDigests) => true,
            (Any::Version(a), Any::Version(b)) => a == b,
            (Any::GetCaps(a), Any::GetCaps(b)) => a == b,
            (Any::Caps(a), Any::Caps(b)) => a == b,
            (Any::Nego(a), Any::Nego(b)) => a == b,
            (Any::Algs(a), Any::Algs(b)) => a == b,
            (Any::Digests(a), Any::Digests(b)) => a == b,
            (Any::GetCert(a), Any::GetCert(b)) => a == b,
            (Any::Cert(a), Any::Cert(b)) => a == b,
            (Any::Challenge(a), Any::Challenge(b)) => a == b,
            (Any::ChallengeAuth(a), Any::ChallengeAuth(b)) => a == b,
            (Any::Error(a), Any::Error(b)) => a == b,
            (Any::GetMeas(a), Any::GetMeas(b)) => a == b,
            // the slot is only on the wire with a signature
            (Any::Meas(a), Any::Meas(b)) => {
                let mut c = b.clone();
                if b.signature.is_none() {
                    c.slot_id = a.slot_id;
                }
                *a == c
            }
            _ => false,
        }
    }
    /// The public fields rendered as the canonical body bytes, where they are visible.
    fn fields(&self) -> Option<Vec<u8>> {
        let mut o = vec![];
        let le = |o: &mut Vec<u8>, v: u64, n: usize| o.extend_from_slice(&v.to_le_bytes()[..n]);
        let st = |o: &mut Vec<u8>, s: &[alg::AlgorithmRequest]| {
            for a in s {
                let (t, b) = match a {
                    alg::AlgorithmRequest::Dhe(x) => (2, x.supported.bits()),
                    alg::AlgorithmRequest::Aead(x) => (3, x.supported.bits()),
                    alg::AlgorithmRequest::ReqBaseAsym(x) => (4, x.supported.bits()),
                    alg::AlgorithmRequest::KeySchedule(x) => (5, x.supported.bits()),
                };
                o.extend([t, 0x20]);
                o.extend(b.to_le_bytes());
            }
        };
        match self {
            Any::Version(m) => {
                o.extend([0, 0, 0, m.num_entries]);
                for e in &m.entries {
                    if e.alpha > 15 || e.update > 15 || e.minor > 15 || e.major > 15 {
                        return Some(vec![]);
                    }
                    o.extend([e.alpha | e.update << 4, e.minor | e.major << 4]);
                }
            }
            Any::GetCaps(m) => {
                o.extend([0, 0, 0, m.ct_exponent, 0, 0]);
                le(&mut o, m.flags.bits() as u64, 4);
            }
            Any::Caps(m) => {
                o.extend([0, 0, 0, m.ct_exponent, 0, 0]);
                le(&mut o, m.flags.bits() as u64, 4);
            }
            Any::Nego(m) => {
                let n = m.num_algorithm_requests;
                o.extend([n, 0, 32 + 4 * n, 0, m.measurement_spec.bits(), 0]);
                le(&mut o, m.base_asym_algo.bits() as u64, 4);
                le(&mut o, m.base_hash_algo.bits() as u64, 4);
                o.extend([0; 16]);
                st(&mut o, &m.algorithm_requests[..n as usize]);
            }
            Any::Algs(m) => {
                let n = m.num_algorithm_responses;
                o.extend([n, 0, 36 + 4 * n, 0, m.measurement_spec_selected.bits(), 0]);
                le(&mut o, m.measurement_hash_algo_selected.bits() as u64, 4);
                le(&mut o, m.base_asym_algo_selected.bits() as u64, 4);
                le(&mut o, m.base_hash_algo_selected.bits() as u64, 4);
                o.extend([0; 16]);
                st(&mut o, &m.algorithm_responses[..n as usize]);
            }
            Any::Digests(m) => {
                o.extend([0, m.slot_mask]);
                for (i, d) in m.digests.iter().enumerate() {
                    if (m.slot_mask >> i & 1 == 1) != d.is_some() {
                        return Some(vec![]);
                    }
                    if let Some(d) = d {
                        o.extend(d.as_ref());
                    }
                }
            }
            Any::GetCert(m) => {
                o.extend([m.slot, 0]);
                le(&mut o, m.offset as u64, 2);
                le(&mut o, m.length as u64, 2);
            }
            Any::Cert(m) => {
                o.extend([m.slot, 0]);
                le(&mut o, m.portion_length as u64, 2);
                le(&mut o, m.remainder_length as u64, 2);
                o.extend(&m.cert_chain[..m.portion_length as usize]);
            }
            Any::Challenge(m) => {
                let t = match m.measurement_hash_type {
                    MeasurementHashType::None => 0,
                    MeasurementHashType::Tcb => 1,
                    MeasurementHashType::All => 0xff,
                };
                o.extend([m.slot, t]);
                o.extend(m.nonce.as_ref());
            }
            Any::ChallengeAuth(m) => {
                o.extend([m.slot | (m.use_mutual_auth as u8) << 7, m.slot_mask]);
                o.extend(m.cert_chain_hash.as_ref());
                o.extend(m.nonce.as_ref());
                o.extend(m.measurement_summary_hash.as_ref());
                let q = opaque_bytes(&m.opaque_data);
                le(&mut o, q.len() as u64, 2);
                o.extend(q);
                o.extend(m.signature.as_ref());
            }
            Any::Error(e) => {
                use Error::*;
                match e {
                    InvalidRequest => o.extend([1, 0]),
                    Busy => o.extend([3, 0]),
                    UnexpectedRequest => o.extend([4, 0]),
                    Unspecified => o.extend([5, 0]),
                    DecryptError => o.extend([6, 0]),
                    UnsupportedRequest(c) => o.extend([7, *c]),
                    RequestInFlight => o.extend([8, 0]),
                    InvalidResponseCode => o.extend([9, 0]),
                    SessionLimitExceeded => o.extend([0xa, 0]),
                    SessionRequired => o.extend([0xb, 0]),
                    ResetRequired => o.extend([0xc, 0]),
                    ResponseTooLarge(n) => {
                        o.extend([0xd, 0]);
                        o.extend(n.to_le_bytes());
                    }
                    RequestTooLarge => o.extend([0xe, 0]),
                    LargeResponse(h) => o.extend([0xf, 0, *h]),
                    MessageLost => o.extend([0x10, 0]),
                    VersionMismatch => o.extend([0x41, 0]),
                    RequestResynch => o.extend([0x43, 0]),
                    ResponseNotReady(x) => {
                        let s = format!("{:?}", x);
                        o.extend([0x42, 0]);
                        for f in ["rdt_exponent", "request_code", "token", "rdtm"] {
                            o.push(shown(&s, f)?.parse().ok()?);
                        }
                    }
                    _ => return None,
                }
            }
            Any::GetMeas(m) => {
                let s = format!("{:?}", m);
                let sig = shown(&s, "signature_requested")? == "true";
                o.push(sig as u8 | (shown(&s, "raw_bit_stream_requested")? == "true") as u8 * 2);
                let i = shown(&s, "index")?;
                o.push(match &i[..] {
                    "TotalNumberOfMeasurementsAvailable" => 0,
                    "AllMeasurements" => 0xff,
                    "MeasurementManifest" => 0xfd,
                    "DeviceMode" => 0xfe,
                    x => x[x.find('(')? + 1..].trim_end_matches(')').parse().ok()?,
                });
                if sig {
                    let n = &s[s.find("Nonce([")? + 7..];
                    let n: Option<Vec<u8>> = n[..n.find(']')?].split(',').map(|x| x.trim().parse().ok()).collect();
                    o.extend(n?);
                    o.push(shown(&s, "slot_id")?.parse().ok()?);
                }
            }
            Any::Meas(m) => {
                o.push(m.total_blocks);
                let cc = match &format!("{:?}", m.content_changed)[..] {
                    "NotSupported" => 0,
                    "True" => 1,
                    "False" => 2,
                    _ => return None,
                };
                o.push(cc << 4 | if m.signature.is_some() { m.slot_id } else { 0 });
                let mut bl = vec![];
                for x in &m.blocks.blocks[..m.blocks.len] {
                    let x = match x {
                        Some(x) => x,
                        None => return Some(vec![]),
                    };
                    let raw = format!("{:?}", x.measurement.value_representation) == "RawBitStream";
                    let types = [
                        "ImmutableRom", "MutableFirmware", "HardwareConfig", "FirmwareConfig", "MeasurementManifest", "DeviceMode",
                        "MutableFirmwareVersion", "MutableFirmwareSecurityVersion",
                    ];
                    let t = format!("{:?}", x.measurement.value_type);
                    let t = types.iter().position(|y| *y == t)? as u8;
                    let mut v = vec![0; 2000];
                    let n = {
                        let mut w = Writer::new(&mut v);
                        x.measurement.value.write(&mut w).ok()?
                    };
                    bl.extend([x.index, x.measurement_spec_selected.bits()]);
                    le(&mut bl, 3 + n as u64, 2);
                    bl.push(t | if raw { 0x80 } else { 0 });
                    le(&mut bl, n as u64, 2);
                    bl.extend(&v[..n]);
                }
                o.push(m.blocks.len as u8);
                le(&mut o, bl.len() as u64, 3);
                o.extend(bl);
                o.extend(m.nonce.as_ref());
                let q = opaque_bytes(&m.opaque_data);
                le(&mut o, q.len() as u64, 2);
                o.extend(q);
                if let Some(x) = &m.signature {
                    o.extend(x.as_ref());
                }
            }
            _ => return None,
        }
        Some(o)
    }
}

/// the value of a private field as the type shows it, where it does
fn shown(s: &str, f: &str) -> Option<String> {
    let i = s.find(&format!("{}: ", f))? + f.len() + 2;
    let t = &s[i..];
    let n = t.find(|c: char| c == ',' || c == ' ' || c == '}').unwrap_or(t.len());
    Some(t[..n].to_string())
}

fn opaque_bytes(d: &OpaqueData) -> Vec<u8> {
    let mut b = [0u8; 256];
    let mut w = Writer::new(&mut b);
    d.write(&mut w).unwrap();
    let n = w.offset();
    b[..n].to_vec()
}

/// Encode into buffers of (nearly) every size and compare with the expected bytes.
fn sizes(c: &mut Ctx, r: &mut Rng, want: &[u8], what: &str, f: &dyn Fn(&mut [u8]) -> Option<usize>) {
    let n = want.len();
    let mut ss: Vec<usize> = if n < 40 { (0..n + 3).collect() } else { vec![0, 1, 2, 3, n - 2, n - 1, n, n + 1, n + 7] };
    if n >= 40 {
        for _ in 0..4 {
            ss.push(r.us(n));
        }
    }
    for s in ss {
        let fill = r.u8();
        let mut b = vec![fill; s];
        let got = match c.guard(ENC, || format!("encoding {} into {} bytes (needs {})", what, s, n), || f(&mut b)) {
            Some(g) => g,
            None => return,
        };
        if s >= n {
            c.check(ENC, got == Some(n) && b[..n] == *want, || {
                format!("encoding {} into {} bytes returned {:?} and wrote {}; expected {} bytes {}", what, s, got, hex(&b), n, hex(want))
            });
            c.check(&["C04"], b[n..].iter().all(|x| *x == fill), || format!("encoding {} changed bytes after the message: {}", what, hex(&b)));
        } else {
            c.check(&["C04"], got.is_none(), || format!("encoding {} ({} bytes) into {} bytes returned {:?}", what, n, s, got));
        }
    }
}

pub fn messages(r: &mut Rng, c: &mut Ctx) {
    let mut k = *r.pick(&wire::ALL);
    if c.is(&["C17"]) {
        k = K::Digests;
    } else if c.is(&["C18"]) {
        k = *r.pick(&[K::Cert, K::GetCert]);
    } else if c.is(&["C01"]) {
        k = *r.pick(&[K::GetVersion, K::GetCaps, K::Nego, K::GetDigests, K::GetCert, K::Challenge]);
    } else if c.is(&["C02"]) {
        k = *r.pick(&[K::Version, K::Caps, K::Algs, K::Digests, K::Cert, K::ChallengeAuth]);
    }
    let p = P { dlen: *r.pick(&[32, 48, 64, 32, 48, 64, 0, 1]), slen: *r.pick(&[64, 64, 64, 48, 0]), sig: r.chance(1, 2) };
    let over = r.chance(1, 12);
    let mut b = if over { wire::crowded(k, r, p) } else { wire::valid(k, r, p) };
    match r.below(10) {
        _ if over => {}
        0..=3 => {}
        4..=7 => wire::mutate(&mut b, r),
        8 => {
            let n = r.range(1, 9);
            b.extend(r.bytes(n));
        }
        _ => {
            let n = r.range(0, 60);
            b = (0..n).map(|_| r.byte()).collect();
        }
    }
    // a decoder that panics makes its side panic
    let all = ["C03", "C05", "C17", "C18", "C01", "C02"];
    // header
    let mut h = wire::header(k).to_vec();
    match r.below(6) {
        0 => h[0] = r.byte(),
        1 => h[1] = r.u8(),
        2 => h = wire::header(*r.pick(&wire::ALL)).to_vec(),
        3 => {
            let n = r.us(3);
            h.truncate(n)
        }
        _ => {}
    }
    if r.chance(1, 2) && h.len() == 2 {
        h.extend(&b);
    }
    let want = if h.len() < 2 {
        Err(())
    } else if h[1] != wire::header(k)[1] {
        Ok(false)
    } else if h[0] == wire::header(k)[0] {
        Ok(true)
    } else {
        Err(())
    };
    if let Some(got) = c.guard(COD, || format!("parse_header {:?} of {}", k, hex(&h)), || parse_header(k, &h)) {
        c.check(COD, got == want, || format!("parse_header of {:?} for {} is {:?}, expected {:?}", k, hex(&h), got, want));
    }
    // body
    let want = wire::accept(k, &b, p);
    let got = match c.guard(&all, || format!("decoding {:?} {:?} from {}", k, p, hex(&b)), || parse(k, &b, p)) {
        Some(g) => g,
        None => return,
    };
    c.count(want.is_some(), (k as u8, &b), || format!("{:?} {}", k, hex(&b)));
    c.check(&["C05", "C17", "C18"], got.is_some() == want.is_some(), || {
        format!("decoding {:?} ({:?}) from {}: accepted {}, expected {}", k, p, hex(&b), got.is_some(), want.is_some())
    });
    let (m, canon) = match (got, want) {
        (Some(m), Some(w)) => (m, w),
        _ => return,
    };
    let f = c.guard(&all, || "fields".into(), || m.fields()).flatten();
    if let Some(f) = f {
        c.check(&["C03", "C17", "C18"], f == canon, || {
            format!("decoded {:?} from {}: its fields denote {}, expected {}", k, hex(&b), hex(&f), hex(&canon))
        });
    }
    let mut want = wire::header(k).to_vec();
    want.extend(&canon);
    // the value with different unused storage encodes the same
    let mut m2 = m.clone();
    match &mut m2 {
        Any::Cert(x) => x.cert_chain[x.portion_length as usize..].iter_mut().for_each(|b| *b = 0x5a),
        Any::Nego(x) => {
            for i in x.num_algorithm_requests as usize..4 {
                x.algorithm_requests[i] =
                    alg::AlgorithmRequest::KeySchedule(alg::KeyScheduleAlgorithm { supported: alg::KeyScheduleFixedAlgorithms::SPDM })
            }
        }
        Any::Algs(x) => {
            for i in x.num_algorithm_responses as usize..4 {
                x.algorithm_responses[i] =
                    alg::AlgorithmRequest::KeySchedule(alg::KeyScheduleAlgorithm { supported: alg::KeyScheduleFixedAlgorithms::SPDM })
            }
        }
        Any::Digests(x) => {
            for i in 0..5 {
                if x.slot_mask >> i & 1 == 0 {
                    x.digests[i] = Some(DigestBuf::new(DigestSize::try_from(7).unwrap()))
                }
            }
        }
        _ => {}
    }
    sizes(c, r, &want, &format!("{:?} decoded from {}", k, hex(&b)), &|o| m2.write(o));
    let back = c.guard(COD, || format!("decoding the encoding {}", hex(&want)), || parse(k, &canon, p)).flatten();
    let same = back.as_ref().map_or(false, |x| m.same(x));
    c.check(&["C03"], same, || format!("{:?} from {} does not survive a round trip through {}", k, hex(&b), hex(&canon)));
    if let Any::Meas(x) = &m {
        // the same message put together from its parts
        let t = r.u8();
        let n = c.guard(COD, || "Measurements::new_with_num_measurements".into(), || {
            Measurements::new_with_num_measurements(t, x.content_changed.clone(), x.slot_id, x.nonce.clone(), x.opaque_data.clone(), x.signature.clone())
        });
        let m = c.guard(COD, || "Measurements::new_with_measurements".into(), || {
            Measurements::new_with_measurements(x.content_changed.clone(), x.slot_id, x.blocks.clone(), x.nonce.clone(), x.opaque_data.clone(), x.signature.clone())
        });
        let mut e = x.clone();
        e.total_blocks = 0;
        c.check(&["C03"], m.as_ref() == Some(&e), || format!("new_with_measurements with the parts of {} holds {:?}", hex(&b), m));
        e.total_blocks = t;
        e.blocks = Default::default();
        c.check(&["C03"], n.as_ref() == Some(&e), || format!("new_with_num_measurements({}) with the parts of {} holds {:?}", t, hex(&b), n));
    }
    if let Any::ChallengeAuth(x) = &m {
        // the same message put together from its parts
        let y = c.guard(COD, || "ChallengeAuth::new".into(), || {
            ChallengeAuth::new(
                x.slot,
                x.slot_mask,
                x.use_mutual_auth,
                x.cert_chain_hash.as_ref(),
                x.nonce.clone(),
                x.measurement_summary_hash.as_ref(),
                x.opaque_data.clone(),
                x.signature.as_ref(),
            )
        });
        if let (Some(y), false) = (y, p.dlen == 0 || p.slen == 0) {
            c.check(&["C03", "C15"], Any::ChallengeAuth(y.clone()).fields().as_ref() == Some(&canon), || {
                format!("ChallengeAuth::new with the parts of {} holds {:?}", hex(&b), y)
            });
        }
        // encodings that are impossible
        let mut y = x.clone();
        y.slot = r.range(5, 255) as u8;
        let mut o = [0u8; 512];
        if let Some(g) = c.guard(ENC, || "CHALLENGE_AUTH with an invalid slot".into(), || y.write(&mut o).is_ok()) {
            c.check(ENC, !g, || format!("CHALLENGE_AUTH with slot {} was encoded", y.slot));
        }
    }
}

pub fn writer(r: &mut Rng, c: &mut Ctx) {
    let n = r.range(0, 40);
    let fill = r.u8();
    let mut buf = vec![fill; n];
    let mut model: Vec<u8> = vec![];
    let mut ok = true;
    let mut log = vec![];
    let res = c.guard(ENC, || "writer".into(), || {
        let mut bad: Option<String> = None;
        {
            let mut w = Writer::new(&mut buf);
            for _ in 0..r.range(1, 12) {
                let (res, add, name) = match r.below(6) {
                    0 => {
                        let v = r.u8();
                        (w.put(v), vec![v], format!("put({})", v))
                    }
                    1 => {
                        let v = r.u64() as u16;
                        (w.put_u16(v), v.to_le_bytes().to_vec(), format!("put_u16({})", v))
                    }
                    2 => {
                        let v = r.u64() as u32 as usize;
                        (w.put_u24(v), v.to_le_bytes()[..3].to_vec(), format!("put_u24({})", v))
                    }
                    3 => {
                        let v = r.u64() as u32;
                        (w.put_u32(v), v.to_le_bytes().to_vec(), format!("put_u32({})", v))
                    }
                    4 => {
                        let v = r.range(0, 6) as u8;
                        (w.put_reserved(v), vec![0; v as usize], format!("put_reserved({})", v))
                    }
                    _ => {
                        let k = r.range(0, 9);
                        let v = r.bytes(k);
                        (w.extend(&v), v.clone(), format!("extend({:?})", v))
                    }
                };
                log.push(name);
                let fits = model.len() + add.len() <= n;
                if res.is_ok() != fits {
                    bad = Some(format!("result {:?}, fits {}", res, fits));
                    break;
                }
                if !fits {
                    ok = false;
                    break;
                }
                model.extend(&add);
                if res != Ok(model.len()) || w.offset() != model.len() || w.remaining() != n - model.len() || w.is_full() != (n == model.len()) {
                    bad = Some(format!("result {:?} offset {} remaining {} full {}", res, w.offset(), w.remaining(), w.is_full()));
                    break;
                }
            }
        }
        bad
    });
    c.count(!model.is_empty(), (n, &model), || format!("{:?} into {}", log, n));
    if let Some(bad) = res {
        c.check(ENC, bad.is_none(), || format!("writer of {} bytes after {:?}: {}", n, log, bad.unwrap()));
        if c.viol.is_none() {
            c.check(ENC, buf[..model.len()] == model[..] && (!ok || buf[model.len()..].iter().all(|b| *b == fill)), || {
                format!("writer after {:?} holds {}, expected {}", log, hex(&buf), hex(&model))
            });
        }
    }
}

pub fn reader(r: &mut Rng, c: &mut Ctx) {
    let n = r.range(0, 24);
    let buf: Vec<u8> = (0..n).map(|_| if r.chance(1, 3) { 0 } else { r.u8() }).collect();
    let mut pos = 0usize; // in bits
    let mut log: Vec<String> = vec![];
    let mut done = 0;
    let bitat = |p: usize| buf[p / 8] >> (p % 8) & 1;
    let res = c.guard(&["C06"], || format!("reader over {}", hex(&buf)), || {
        let mut rd = Reader::new(&buf);
        for _ in 0..r.range(1, 20) {
            let al = pos % 8 == 0;
            let rem = n - pos / 8;
            let op = r.below(12);
            let mut stop = false;
            let (got, want): (String, String) = match op {
                0 | 1 | 2 | 3 => {
                    let k = if op == 3 { r.range(8, 255) as u8 } else { r.range(1, 7) as u8 };
                    log.push(format!("get_bits({})", k));
                    let g = if k == 1 && r.chance(1, 2) { rd.get_bit() } else { rd.get_bits(k) };
                    let w = if rem == 0 {
                        Err(ReadError::BufferEmpty)
                    } else if k > 7 {
                        Err(ReadError::TooManyBits)
                    } else if pos + k as usize > 8 * n {
                        Err(ReadError::BufferEmpty)
                    } else {
                        let v = (0..k as usize).fold(0, |a, i| a | bitat(pos + i) << i);
                        pos += k as usize;
                        done += 1;
                        Ok(v)
                    };
                    (format!("{:?}", g), format!("{:?}", w))
                }
                4 | 5 => {
                    log.push("get_byte".into());
                    let g = rd.get_byte();
                    let w = if !al {
                        Err(ReadError::Unaligned)
                    } else if rem == 0 {
                        Err(ReadError::BufferEmpty)
                    } else {
                        pos += 8;
                        done += 1;
                        Ok(buf[pos / 8 - 1])
                    };
                    (format!("{:?}", g), format!("{:?}", w))
                }
                6 | 7 | 8 => {
                    let k = [2usize, 3, 4][op as usize - 6];
                    log.push(format!("get_u{}", 8 * k));
                    let g: Result<u64, ReadError> = match k {
                        2 => rd.get_u16().map(|x| x as u64),
                        3 => rd.get_u24().map(|x| x as u64),
                        _ => rd.get_u32().map(|x| x as u64),
                    };
                    let w = if !al {
                        Err(ReadError::Unaligned)
                    } else if rem < k {
                        stop = k == 3;
                        Err(ReadError::BufferEmpty)
                    } else {
                        let v = buf[pos / 8..pos / 8 + k].iter().rev().fold(0u64, |a, b| a << 8 | *b as u64);
                        pos += 8 * k;
                        done += 1;
                        Ok(v)
                    };
                    (format!("{:?}", g), format!("{:?}", w))
                }
                9 => {
                    let k = r.range(0, 8);
                    let extra = r.range(0, 3);
                    log.push(format!("get_slice({}, {} byte target)", k, k + extra));
                    let mut t = vec![0xa5u8; k + extra];
                    let g = rd.get_slice(k, &mut t).map(|_| t);
                    let w = if !al {
                        Err(ReadError::Unaligned)
                    } else if rem < k {
                        Err(ReadError::BufferEmpty)
                    } else {
                        let mut v = buf[pos / 8..pos / 8 + k].to_vec();
                        v.extend(vec![0xa5; extra]);
                        pos += 8 * k;
                        done += 1;
                        Ok(v)
                    };
                    (format!("{:?}", g), format!("{:?}", w))
                }
                _ => {
                    let k = r.range(0, 5);
                    let z = op == 10;
                    log.push(format!("skip_{}({})", if z { "reserved" } else { "ignored" }, k));
                    let g = if z { rd.skip_reserved(k) } else { rd.skip_ignored(k) };
                    let w = if k == 0 {
                        Ok(())
                    } else if !al {
                        Err(ReadError::Unaligned)
                    } else {
                        let s = &buf[pos / 8..(pos / 8 + k).min(n)];
                        match s.iter().position(|b| z && *b != 0) {
                            Some(_) => Err(ReadError::ReservedByteNotZero),
                            None if rem < k => Err(ReadError::BufferEmpty),
                            None => {
                                pos += 8 * k;
                                done += 1;
                                Ok(())
                            }
                        }
                    };
                    stop = w.is_err();
                    (format!("{:?}", g), format!("{:?}", w))
                }
            };
            if got != want {
                return Some(format!("returned {}, expected {}", got, want));
            }
            if stop {
                return None;
            }
            let w = (pos / 8, n - pos / 8, n == pos / 8, pos % 8 == 0);
            let g = (rd.byte_offset(), rd.remaining(), rd.is_empty(), rd.is_aligned());
            if g != w {
                return Some(format!("(offset, remaining, empty, aligned) is {:?}, expected {:?}", g, w));
            }
        }
        None
    });
    c.count(done > 0, (&buf, log.len()), || format!("{:?} over {}", log, hex(&buf)));
    if let Some(Some(bad)) = res {
        c.check(&["C06"], false, || format!("reader over {} after {:?}: {}", hex(&buf), log, bad));
    }
}

fn fill_transcript(r: &mut Rng, t: &mut Transcript, model: &mut Vec<u8>) -> Option<String> {
    const CAP: usize = 4096;
    for _ in 0..r.range(1, 10) {
        match r.below(8) {
            0 => {
                t.clear();
                model.clear();
            }
            _ => {
                let left = CAP - model.len();
                let k = match r.below(6) {
                    0 => left,
                    1 => left + r.range(1, 3),
                    2 => left.saturating_sub(r.range(1, 3)),
                    3 => r.range(0, 5000),
                    _ => r.range(0, 300),
                };
                let b = r.bytes(k);
                let ok = t.extend(&b).is_ok();
                if ok != (k <= left) {
                    return Some(format!("append of {} bytes to {} returned ok={}", k, model.len(), ok));
                }
                if ok {
                    model.extend(&b);
                }
            }
        }
        if t.get() != &model[..] || t.len() != model.len() {
            return Some(format!("holds {} bytes, {}; expected {}", t.len(), hex(t.get()), hex(model)));
        }
    }
    None
}

pub fn transcript(r: &mut Rng, c: &mut Ctx) {
    let res = c.guard(&["C10"], || "transcript".into(), || {
        let (mut a, mut b) = (Transcript::new(), Transcript::new());
        let (mut ma, mut mb) = (vec![], vec![]);
        if a.len() != 0 || !a.get().is_empty() {
            return (Some("a new transcript is not empty".to_string()), None, ma);
        }
        let mut e = fill_transcript(r, &mut a, &mut ma);
        if e.is_none() {
            e = fill_transcript(r, &mut b, &mut mb);
        }
        if e.is_some() {
            return (e, None, ma);
        }
        let mut q = None;
        if (a == b) != (ma == mb) {
            q = Some(format!("transcripts {} and {} compare equal={}", hex(&ma), hex(&mb), a == b));
        }
        // the same contents reached another way
        b.clear();
        let mut i = 0;
        while i < ma.len() {
            let k = r.range(1, 900).min(ma.len() - i);
            let _ = b.extend(&ma[i..i + k]);
            i += k;
        }
        if a != b || b != a.clone() {
            q = Some(format!("transcripts holding the same {} bytes compare unequal", ma.len()));
        }
        let mut d = a.clone();
        if ma.len() > 0 {
            let mut x = ma.clone();
            let i = r.us(x.len());
            x[i] ^= 1;
            d.clear();
            let _ = d.extend(&x);
            if d == a {
                q = Some(format!("transcripts differing in byte {} of {} compare equal", i, ma.len()));
            }
            d.clear();
            let _ = d.extend(&ma[..ma.len() - 1]);
            if d == a {
                q = Some("a transcript equals its prefix".into());
            }
        }
        (None, q, ma)
    });
    if let Some((e, q, m)) = res {
        c.count(!m.is_empty(), &m, || format!("{} bytes", m.len()));
        if let Some(e) = e {
            c.check(&["C10"], false, || format!("transcript: {}", e));
        }
        if let Some(q) = q {
            c.check(&["C22"], false, || q);
        }
    }
}

fn der_cert(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(24) {
        0..=3 => *r.pick(&[0usize, 1, 126, 127, 128, 129, 255, 256, 257]),
        4..=7 => r.range(128, 255),
        8..=10 => r.range(256, 700),
        11 => {
            // any length whatever, the high byte and the low byte each likely to be an edge
            let hi = if r.chance(1, 3) { *r.pick(&[1usize, 2, 4, 8, 16, 31, 32, 64]) } else { { let k = r.range(1, 6); r.range(1, 1 << k) } };
            let lo = if r.chance(1, 2) { *r.pick(&[0usize, 1, 0x7f, 0x80, 0x81, 0xfe, 0xff]) } else { r.range(0, 255) };
            hi << 8 | lo
        }
        _ => r.range(0, 127),
    };
    let mut o = vec![0x30];
    if n < 128 {
        o.push(n as u8);
    } else if n < 256 {
        o.extend([0x81, n as u8]);
    } else {
        o.extend([0x82, (n >> 8) as u8, n as u8]);
    }
    o.extend(r.bytes(n));
    o
}

/// root hash, certificates (last one is the leaf)
pub fn chain_accept(b: &[u8], d: usize) -> Option<(Vec<u8>, Vec<Vec<u8>>)> {
    if b.len() < 4 + d || b[0] as usize | (b[1] as usize) << 8 != b.len() || b[2] != 0 || b[3] != 0 {
        return None;
    }
    let root = b[4..4 + d].to_vec();
    let mut i = 4 + d;
    let mut certs = vec![];
    loop {
        let s = &b[i..];
        if s.len() < 2 || s[0] != 0x30 {
            return None;
        }
        let (n, h) = match s[1] {
            n if n < 0x80 => (n as usize, 2),
            0x81 => {
                if s.len() < 3 || s[2] < 128 {
                    return None;
                }
                (s[2] as usize, 3)
            }
            0x82 => {
                if s.len() < 4 || s[2] == 0 {
                    return None;
                }
                ((s[2] as usize) << 8 | s[3] as usize, 4)
            }
            _ => return None,
        };
        if s.len() < h + n {
            return None;
        }
        certs.push(s[..h + n].to_vec());
        if s.len() == h + n {
            break;
        }
        if certs.len() > 4 {
            return None;
        }
        i += h + n;
    }
    Some((root, certs))
}

pub fn chain_bytes(root: &[u8], certs: &[Vec<u8>]) -> Vec<u8> {
    let n = 4 + root.len() + certs.iter().map(|c| c.len()).sum::<usize>();
    let mut o = vec![n as u8, (n >> 8) as u8, 0, 0];
    o.extend(root);
    certs.iter().for_each(|c| o.extend(c));
    o
}

pub fn chains(r: &mut Rng, c: &mut Ctx) {
    let all = &["C03", "C04", "C05", "C18", "C22", "C02"];
    let d = *r.pick(&[32usize, 48, 64]);
    let n = r.range(1, 6);
    let certs: Vec<Vec<u8>> = (0..n).map(|_| der_cert(r)).collect();
    let root = r.bytes(d);
    // encode: any byte strings
    if r.chance(1, 2) {
        let long = r.chance(1, 30);
        let certs: Vec<Vec<u8>> = (0..r.range(1, 5))
            .map(|_| {
                let k = if long { r.range(12000, 20000) } else { r.range(0, 300) };
                r.bytes(k)
            })
            .collect();
        let mut ch = CertificateChain::new(&root, certs.last().unwrap());
        for x in &certs[..certs.len() - 1] {
            if ch.append_intermediate_cert(x).is_err() {
                c.check(all, false, || "append_intermediate_cert refused one of four certificates".into());
                return;
            }
        }
        let size = 4 + d + certs.iter().map(|x| x.len()).sum::<usize>();
        c.count(true, (&certs, &root), || format!("chain of {} certificates, {} bytes", certs.len(), size));
        if certs.len() == 5 {
            let more = ch.append_intermediate_cert(&certs[0]).is_err();
            c.check(all, more, || "a fifth intermediate certificate was accepted".into());
        }
        let want: Vec<&[u8]> = certs[..certs.len() - 1].iter().map(|x| &x[..]).collect();
        c.check(&["C18", "C22"], ch.intermediate_certs() == &want[..] && ch.leaf_cert == &certs.last().unwrap()[..], || {
            "intermediate_certs() does not return the appended certificates".into()
        });
        if size > 65535 {
            let mut o = vec![0u8; size + 10];
            let g = c.guard(all, || "encoding a chain too long".into(), || ch.write(&mut Writer::new(&mut o)).is_ok());
            c.check(&["C03", "C04", "C18"], g != Some(true), || format!("a chain of {} bytes was encoded", size));
        } else {
            let want = chain_bytes(&root, &certs);
            for s in [size, size - 1, size + 5, r.us(size)] {
                let mut o = vec![0xa5u8; s];
                let g = c.guard(all, || "encoding a chain".into(), || ch.write(&mut Writer::new(&mut o)).ok()).flatten();
                if s >= size {
                    c.check(&["C03", "C04", "C18"], g == Some(size) && o[..size] == want[..] && o[size..].iter().all(|b| *b == 0xa5), || {
                        format!("chain of root hash {} and certificates {:?} encoded as {} ({:?})", hex(&root), certs.iter().map(|x| hex(x)).collect::<Vec<_>>(), hex(&o), g)
                    });
                } else {
                    c.check(&["C03", "C04", "C18"], g.is_none(), || format!("chain of {} bytes encoded into {}", size, s));
                }
            }
        }
        return;
    }
    let mut certs = certs;
    if r.chance(1, 12) {
        // a length in more bytes than it needs
        let k = r.us(certs.len());
        let n = *r.pick(&[0usize, 1, 64, 126, 127, 128, 200, 254, 255]);
        let mut x = if n < 128 && r.chance(1, 2) { vec![0x30, 0x81, n as u8] } else { vec![0x30, 0x82, 0, n as u8] };
        x.extend(r.bytes(n));
        certs[k] = x;
    }
    let mut b = chain_bytes(&root, &certs);
    match r.below(6) {
        0 => wire::mutate(&mut b, r),
        1 => {
            let i = 4 + d + r.us(4);
            if i < b.len() {
                b[i] = *r.pick(&[0x30, 0, 0x7f, 0x80, 0x81, 0x82, 0x83, 0xff, 1]);
            }
        }
        2 => {
            let k = r.us(b.len() + 1);
            b.truncate(k);
            if b.len() > 1 && r.chance(3, 4) {
                b[0] = b.len() as u8;
                b[1] = (b.len() >> 8) as u8;
            }
        }
        _ => {}
    }
    let want = chain_accept(&b, d);
    c.count(want.is_some(), &b, || format!("chain {}", hex(&b)));
    let g = c.guard(all, || format!("decoding chain {}", hex(&b)), || {
        CertificateChain::parse(&b, DigestSize::try_from(d).unwrap()).ok().map(|ch| {
            let mut v: Vec<Vec<u8>> = ch.intermediate_certs().iter().map(|x| x.to_vec()).collect();
            v.push(ch.leaf_cert.to_vec());
            let (mut o, mut e) = (vec![0u8; b.len()], vec![]);
            let n = ch.write(&mut Writer::new(&mut o)).ok();
            if n != Some(b.len()) || o != b {
                e = o;
            }
            ((ch.root_hash.to_vec(), v), e)
        })
    });
    if let Some(g) = g {
        if let Some((_, e)) = &g {
            c.check(&["C03", "C18"], e.is_empty(), || format!("chain {} encodes again as {}", hex(&b), hex(e)));
        }
        let g = g.map(|x| x.0);
        c.check(&["C05", "C18"], g.is_some() == want.is_some(), || {
            format!("decoding chain ({} byte hash) {}: accepted {}, expected {}", d, hex(&b), g.is_some(), want.is_some())
        });
        if let (Some(g), Some(w)) = (g, want) {
            c.check(&["C03", "C18"], g == w, || {
                format!("chain {} decoded as hash {} certificates {:?}", hex(&b), hex(&g.0), g.1.iter().map(|x| hex(x)).collect::<Vec<_>>())
            });
        }
    }
}

/// Contents `a` held by a buffer that held something else before.
fn used<'a, T: AsMut<[u8]> + TryFrom<&'a [u8]>>(a: &'a [u8]) -> T {
    match T::try_from(a) {
        Ok(x) => x,
        Err(_) => panic!("size"),
    }
}

pub fn equality(r: &mut Rng, c: &mut Ctx) {
    let pr = &["C22"];
    let n = r.range(0, 64);
    let a = r.bytes(n);
    let mut b = a.clone();
    match r.below(4) {
        0 if n > 0 => {
            let i = r.us(n);
            b[i] ^= 1 << r.below(8);
        }
        1 if n > 0 => {
            b.pop();
        }
        2 if n < 64 => b.push(if r.chance(1, 2) { 0 } else { r.u8() }),
        _ => {}
    }
    c.count(true, (&a, &b), || format!("{} / {}", hex(&a), hex(&b)));
    match r.below(5) {
        0 => {
            let g = c.guard(pr, || "digest".into(), || {
                let (x, y): (DigestBuf, DigestBuf) = (used(&a), used(&b));
                (x == y, y == x, x == x.clone(), x.as_ref() == &a[..])
            });
            c.check(pr, g == Some((a == b, a == b, true, true)), || format!("digests {} and {}: {:?}", hex(&a), hex(&b), g));
        }
        1 => {
            let g = c.guard(pr, || "signature".into(), || {
                let (x, y): (SignatureBuf, SignatureBuf) = (used(&a), used(&b));
                (x == y, y == x, x == x.clone(), x.as_ref() == &a[..])
            });
            c.check(pr, g == Some((a == b, a == b, true, true)), || format!("signatures {} and {}: {:?}", hex(&a), hex(&b), g));
        }
        2 => {
            // opaque data through the decoder
            let mut x = wire::opaque_valid(r);
            let mut y = x.clone();
            if r.chance(2, 3) {
                wire::mutate(&mut y, r);
            }
            if r.chance(1, 8) {
                std::mem::swap(&mut x, &mut y);
            }
            if let (Some(cx), Some(cy)) = (wire::opaque_accept(&x), wire::opaque_accept(&y)) {
                let g = c.guard(pr, || "opaque".into(), || {
                    let p = OpaqueData::read(&mut Reader::new(&x)).ok()?;
                    let q = OpaqueData::read(&mut Reader::new(&y)).ok()?;
                    Some((p == q, q == p, p == p.clone()))
                });
                c.check(pr, g == Some(Some((cx == cy, cx == cy, true))), || format!("opaque data {} and {}: {:?}", hex(&x), hex(&y), g));
            }
        }
        3 => {
            // measurement bit streams through the decoder
            let k = r.range(0, 6);
            let blk = |v: &[u8], raw: bool| {
                let mut o = vec![1u8, 0, 1];
                o.extend(&(7 + v.len() as u32).to_le_bytes()[..3]);
                o.extend([0, 1]);
                o.extend((3 + v.len() as u16).to_le_bytes());
                o.push(if raw { 0x80 } else { 0 });
                o.extend((v.len() as u16).to_le_bytes());
                o.extend(v);
                o.extend([7; 32]);
                o.extend([4, 0, 0, 0, 0, 0]);
                o
            };
            let raw = r.chance(4, 5);
            let (mut va, mut vb) = (a.clone(), b.clone());
            if raw && k == 0 {
                let pre = r.range(100, 900);
                let pre = r.bytes(pre);
                va = [&pre[..], &a[..]].concat();
                vb = [&pre[..], &b[..]].concat();
            }
            let (x, y) = (blk(&va, raw), blk(&vb, raw));
            let ss = SignatureSize::try_from(64).unwrap();
            let g = c.guard(pr, || "measurements".into(), || {
                let p = Measurements::parse_body(&x, false, ss).ok()?;
                let q = Measurements::parse_body(&y, false, ss).ok()?;
                Some((p == q, q == p, p == p.clone()))
            });
            c.check(pr, g == Some(Some((va == vb, va == vb, true))), || format!("measurement values {} and {}: {:?}", hex(&va), hex(&vb), g));
        }
        _ => {
            let (ra, rb) = (&a, if r.chance(1, 4) { &b } else { &a });
            let pool: Vec<Vec<u8>> = (0..5)
                .map(|_| {
                    let k = r.range(1, 6);
                    r.bytes(k)
                })
                .collect();
            let mk = |r: &mut Rng| -> Vec<usize> { (0..r.range(1, 5)).map(|_| r.us(2)).collect() };
            let ia = mk(r);
            let mut ib = if r.chance(1, 2) { ia.clone() } else { mk(r) };
            if r.chance(1, 3) {
                let i = r.us(ib.len());
                ib[i] = r.us(5);
            }
            let g = c.guard(pr, || "chains".into(), || {
                let mkc = |root, ix: &[usize]| {
                    let mut ch = CertificateChain::new(root, &pool[ix[0]]);
                    for i in &ix[1..] {
                        let _ = ch.append_intermediate_cert(&pool[*i]);
                    }
                    ch
                };
                let (x, y) = (mkc(ra, &ia), mkc(rb, &ib));
                (x == y, y == x, x == x.clone())
            });
            let content = |ix: &[usize]| ix.iter().map(|i| pool[*i].clone()).collect::<Vec<_>>();
            let w = ra == rb && content(&ia) == content(&ib);
            c.check(pr, g == Some((w, w, true)), || format!("chains {:?} and {:?} over {:?}: {:?}", ia, ib, pool, g));
        }
    }
}

pub fn names(r: &mut Rng, c: &mut Ctx) {
    const REQ: [(&str, u32); 12] = [
        ("CERT_CAP", 2),
        ("CHAL_CAP", 4),
        ("ENCRYPT_CAP", 0x40),
        ("MAC_CAP", 0x80),
        ("MUT_AUTH_CAP", 0x100),
        ("KEY_EX_CAP", 0x200),
        ("PSK_CAP", 0x400),
        ("ENCAP_CAP", 0x1000),
        ("HBEAT_CAP", 0x2000),
        ("KEY_UPD_CAP", 0x4000),
        ("HANDSHAKE_IN_THE_CLEAR_CAP", 0x8000),
        ("PUB_KEY_ID_CAP", 0x10000),
    ];
    const RSP: [(&str, u32); 2] = [("CACHE_CAP", 1), ("MEAS_FRESH_CAP", 0x20)];
    let mut n = "X".to_string();
    let mut want = (None, None);
    match r.below(4) {
        0 => {
            let x = r.pick(&RSP);
            n = x.0.into();
            want.1 = Some(x.1);
        }
        1 | 2 => {
            let x = r.pick(&REQ);
            n = x.0.into();
            want = (Some(x.1), Some(x.1));
        }
        _ => {
            n = format!("{}{}", r.pick(&REQ).0, r.below(10));
        }
    }
    c.count(true, &n, || n.clone());
    let g = (n.parse::<ReqFlags>().ok().map(|f| f.bits()), n.parse::<RspFlags>().ok().map(|f| f.bits()));
    c.check(&["C21"], g == want, || format!("capability name {} denotes {:x?}, expected {:x?}", n, g, want));
}

/// The bit every named flag stands for on the wire.
pub fn flags(r: &mut Rng, c: &mut Ctx) {
    let t = [
        ("BaseAsymAlgo::RSASSA_2048", alg::BaseAsymAlgo::RSASSA_2048.bits() as u64, 0x1),
        ("BaseAsymAlgo::RSAPSS_2048", alg::BaseAsymAlgo::RSAPSS_2048.bits() as u64, 0x2),
        ("BaseAsymAlgo::RSASSA_3072", alg::BaseAsymAlgo::RSASSA_3072.bits() as u64, 0x4),
        ("BaseAsymAlgo::RSAPSS_3072", alg::BaseAsymAlgo::RSAPSS_3072.bits() as u64, 0x8),
        ("BaseAsymAlgo::ECDSA_ECC_NIST_P256", alg::BaseAsymAlgo::ECDSA_ECC_NIST_P256.bits() as u64, 0x10),
        ("BaseAsymAlgo::RSASSA_4096", alg::BaseAsymAlgo::RSASSA_4096.bits() as u64, 0x20),
        ("BaseAsymAlgo::RSAPSS_4096", alg::BaseAsymAlgo::RSAPSS_4096.bits() as u64, 0x40),
        ("BaseAsymAlgo::ECDSA_ECC_NIST_P384", alg::BaseAsymAlgo::ECDSA_ECC_NIST_P384.bits() as u64, 0x80),
        ("BaseAsymAlgo::ECDSA_ECC_NIST_P521", alg::BaseAsymAlgo::ECDSA_ECC_NIST_P521.bits() as u64, 0x100),
        ("BaseHashAlgo::SHA_256", alg::BaseHashAlgo::SHA_256.bits() as u64, 0x1),
        ("BaseHashAlgo::SHA_384", alg::BaseHashAlgo::SHA_384.bits() as u64, 0x2),
        ("BaseHashAlgo::SHA_512", alg::BaseHashAlgo::SHA_512.bits() as u64, 0x4),
        ("BaseHashAlgo::SHA3_256", alg::BaseHashAlgo::SHA3_256.bits() as u64, 0x8),
        ("BaseHashAlgo::SHA3_384", alg::BaseHashAlgo::SHA3_384.bits() as u64, 0x10),
        ("BaseHashAlgo::SHA3_512", alg::BaseHashAlgo::SHA3_512.bits() as u64, 0x20),
        ("MeasurementSpec::DMTF", alg::MeasurementSpec::DMTF.bits() as u64, 0x1),
        ("DheFixedAlgorithms::FFDHE_2048", alg::DheFixedAlgorithms::FFDHE_2048.bits() as u64, 0x1),
        ("DheFixedAlgorithms::FFDHE_3072", alg::DheFixedAlgorithms::FFDHE_3072.bits() as u64, 0x2),
        ("DheFixedAlgorithms::FFDHE_4096", alg::DheFixedAlgorithms::FFDHE_4096.bits() as u64, 0x4),
        ("DheFixedAlgorithms::SECP_256_R1", alg::DheFixedAlgorithms::SECP_256_R1.bits() as u64, 0x8),
        ("DheFixedAlgorithms::SECP_384_R1", alg::DheFixedAlgorithms::SECP_384_R1.bits() as u64, 0x10),
        ("DheFixedAlgorithms::SECP_521_R1", alg::DheFixedAlgorithms::SECP_521_R1.bits() as u64, 0x20),
        ("AeadFixedAlgorithms::AES_128_GCM", alg::AeadFixedAlgorithms::AES_128_GCM.bits() as u64, 0x1),
        ("AeadFixedAlgorithms::AES_256_GCM", alg::AeadFixedAlgorithms::AES_256_GCM.bits() as u64, 0x2),
        ("AeadFixedAlgorithms::CHACHA20_POLY1305", alg::AeadFixedAlgorithms::CHACHA20_POLY1305.bits() as u64, 0x4),
        ("ReqBaseAsymFixedAlgorithms::RSASSA_2048", alg::ReqBaseAsymFixedAlgorithms::RSASSA_2048.bits() as u64, 0x1),
        ("ReqBaseAsymFixedAlgorithms::RSAPSS_2048", alg::ReqBaseAsymFixedAlgorithms::RSAPSS_2048.bits() as u64, 0x2),
        ("ReqBaseAsymFixedAlgorithms::RSASSA_3072", alg::ReqBaseAsymFixedAlgorithms::RSASSA_3072.bits() as u64, 0x4),
        ("ReqBaseAsymFixedAlgorithms::RSAPSS_3072", alg::ReqBaseAsymFixedAlgorithms::RSAPSS_3072.bits() as u64, 0x8),
        ("ReqBaseAsymFixedAlgorithms::ECDSA_ECC_NIST_P256", alg::ReqBaseAsymFixedAlgorithms::ECDSA_ECC_NIST_P256.bits() as u64, 0x10),
        ("ReqBaseAsymFixedAlgorithms::RSASSA_4096", alg::ReqBaseAsymFixedAlgorithms::RSASSA_4096.bits() as u64, 0x20),
        ("ReqBaseAsymFixedAlgorithms::RSAPSS_4096", alg::ReqBaseAsymFixedAlgorithms::RSAPSS_4096.bits() as u64, 0x40),
        ("ReqBaseAsymFixedAlgorithms::ECDSA_ECC_NIST_P384", alg::ReqBaseAsymFixedAlgorithms::ECDSA_ECC_NIST_P384.bits() as u64, 0x80),
        ("ReqBaseAsymFixedAlgorithms::ECDSA_ECC_NIST_P521", alg::ReqBaseAsymFixedAlgorithms::ECDSA_ECC_NIST_P521.bits() as u64, 0x100),
        ("KeyScheduleFixedAlgorithms::SPDM", alg::KeyScheduleFixedAlgorithms::SPDM.bits() as u64, 0x1),
        ("ReqFlags::CERT_CAP", ReqFlags::CERT_CAP.bits() as u64, 0x2),
        ("ReqFlags::CHAL_CAP", ReqFlags::CHAL_CAP.bits() as u64, 0x4),
        ("ReqFlags::ENCRYPT_CAP", ReqFlags::ENCRYPT_CAP.bits() as u64, 0x40),
        ("ReqFlags::MAC_CAP", ReqFlags::MAC_CAP.bits() as u64, 0x80),
        ("ReqFlags::MUT_AUTH_CAP", ReqFlags::MUT_AUTH_CAP.bits() as u64, 0x100),
        ("ReqFlags::KEY_EX_CAP", ReqFlags::KEY_EX_CAP.bits() as u64, 0x200),
        ("ReqFlags::PSK_CAP", ReqFlags::PSK_CAP.bits() as u64, 0x400),
        ("ReqFlags::PSK_CAP_MASK", ReqFlags::PSK_CAP_MASK.bits() as u64, 0xc00),
        ("ReqFlags::ENCAP_CAP", ReqFlags::ENCAP_CAP.bits() as u64, 0x1000),
        ("ReqFlags::HBEAT_CAP", ReqFlags::HBEAT_CAP.bits() as u64, 0x2000),
        ("ReqFlags::KEY_UPD_CAP", ReqFlags::KEY_UPD_CAP.bits() as u64, 0x4000),
        ("ReqFlags::HANDSHAKE_IN_THE_CLEAR_CAP", ReqFlags::HANDSHAKE_IN_THE_CLEAR_CAP.bits() as u64, 0x8000),
        ("ReqFlags::PUB_KEY_ID_CAP", ReqFlags::PUB_KEY_ID_CAP.bits() as u64, 0x10000),
        ("RspFlags::CACHE_CAP", RspFlags::CACHE_CAP.bits() as u64, 0x1),
        ("RspFlags::CERT_CAP", RspFlags::CERT_CAP.bits() as u64, 0x2),
        ("RspFlags::CHAL_CAP", RspFlags::CHAL_CAP.bits() as u64, 0x4),
        ("RspFlags::MEAS_CAP_NO_SIG", RspFlags::MEAS_CAP_NO_SIG.bits() as u64, 0x8),
        ("RspFlags::MEAS_CAP_SIG", RspFlags::MEAS_CAP_SIG.bits() as u64, 0x10),
        ("RspFlags::MEAS_FRESH_CAP", RspFlags::MEAS_FRESH_CAP.bits() as u64, 0x20),
        ("RspFlags::ENCRYPT_CAP", RspFlags::ENCRYPT_CAP.bits() as u64, 0x40),
        ("RspFlags::MAC_CAP", RspFlags::MAC_CAP.bits() as u64, 0x80),
        ("RspFlags::MUT_AUTH_CAP", RspFlags::MUT_AUTH_CAP.bits() as u64, 0x100),
        ("RspFlags::KEY_EX_CAP", RspFlags::KEY_EX_CAP.bits() as u64, 0x200),
        ("RspFlags::PSK_CAP", RspFlags::PSK_CAP.bits() as u64, 0x400),
        ("RspFlags::PSX_CAP_WITH_CONTEXT", RspFlags::PSX_CAP_WITH_CONTEXT.bits() as u64, 0x800),
        ("RspFlags::ENCAP_CAP", RspFlags::ENCAP_CAP.bits() as u64, 0x1000),
        ("RspFlags::HBEAT_CAP", RspFlags::HBEAT_CAP.bits() as u64, 0x2000),
        ("RspFlags::KEY_UPD_CAP", RspFlags::KEY_UPD_CAP.bits() as u64, 0x4000),
        ("RspFlags::HANDSHAKE_IN_THE_CLEAR_CAP", RspFlags::HANDSHAKE_IN_THE_CLEAR_CAP.bits() as u64, 0x8000),
        ("RspFlags::PUB_KEY_ID_CAP", RspFlags::PUB_KEY_ID_CAP.bits() as u64, 0x10000),
    ];
    let (n, have, want): (&str, u64, u64) = *r.pick(&t);
    c.count(true, n, || n.to_string());
    c.check(&["C03"], have == want, || format!("{} is bit {:#x} on the wire, the specification says {:#x}", n, have, want));
}

/// Nonces are 32 fresh bytes: nothing constant, nothing repeated.
pub fn check_nonces(c: &mut Ctx, ns: &[Vec<u8>], what: &str) {
    c.count(true, &ns[0], || format!("{}: {}", what, hex(&ns[0])));
    let p = &["C23"];
    c.check(p, ns.iter().all(|n| n.len() == 32), || format!("{}: nonce of {} bytes", what, ns[0].len()));
    let mut sorted = ns.to_vec();
    sorted.sort();
    for w in sorted.windows(2) {
        c.check(p, w[0] != w[1], || format!("{}: the nonce {} was used twice", what, hex(&w[0])));
    }
    if c.viol.is_some() {
        return;
    }
    for i in 0..32 {
        let col: Vec<u8> = ns.iter().map(|n| n[i]).collect();
        let or = col.iter().fold(0, |a, b| a | b);
        let and = col.iter().fold(255, |a, b| a & b);
        c.check(p, or == 0xff && and == 0, || format!("{}: byte {} of the nonce has constant bits over {} messages: {}", what, i, ns.len(), hex(&col)));
        for j in 0..i {
            c.check(p, ns.iter().any(|n| n[i] != n[j]), || format!("{}: bytes {} and {} of the nonce are always equal", what, i, j));
            let x = ns[0][i] ^ ns[0][j];
            c.check(p, ns.iter().any(|n| n[i] ^ n[j] != x), || format!("{}: bytes {} and {} of the nonce always differ by {:02x}", what, i, j, x));
            let x = ns[0][i].wrapping_sub(ns[0][j]);
            c.check(p, ns.iter().any(|n| n[i].wrapping_sub(n[j]) != x), || format!("{}: bytes {} and {} of the nonce are at a constant distance", what, i, j));
        }
        for n in &ns[1..] {
            let same = n.iter().zip(&ns[0]).filter(|(a, b)| a == b).count();
            c.check(p, same < 12, || format!("{}: nonces {} and {} share bytes", what, hex(n), hex(&ns[0])));
        }
    }
}

pub fn nonces(r: &mut Rng, c: &mut Ctx) {
    let direct = r.chance(1, 2);
    let ns: Vec<Vec<u8>> = (0..96)
        .map(|_| {
            if direct {
                spdm::crypto::Nonce::new().as_ref().to_vec()
            } else {
                let mut b = [0u8; 64];
                let m = Challenge::new(1, MeasurementHashType::None);
                let n = m.write(&mut b).unwrap();
                if m.nonce.as_ref() != &b[4..n] {
                    return vec![];
                }
                b[4..n].to_vec()
            }
        })
        .collect();
    check_nonces(c, &ns, if direct { "Nonce::new" } else { "CHALLENGE" });
}
