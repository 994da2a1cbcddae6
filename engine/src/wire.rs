//! Independent reference codecs of the SPDM messages: what is accepted, its
//! canonical encoding, and generators of valid bodies.
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum K {
    GetVersion,
    Version,
    GetCaps,
    Caps,
    Nego,
    Algs,
    GetDigests,
    Digests,
    GetCert,
    Cert,
    Challenge,
    ChallengeAuth,
    Error,
    GetMeas,
    Meas,
}
use K::*;
pub const ALL: [K; 15] = [
    GetVersion, Version, GetCaps, Caps, Nego, Algs, GetDigests, Digests, GetCert, Cert, Challenge, ChallengeAuth, Error,
    GetMeas, Meas,
];

pub fn header(k: K) -> [u8; 2] {
    match k {
        GetVersion => [0x10, 0x84],
        Version => [0x10, 0x04],
        GetCaps => [0x11, 0xe1],
        Caps => [0x11, 0x61],
        Nego => [0x11, 0xe3],
        Algs => [0x11, 0x63],
        GetDigests => [0x11, 0x81],
        Digests => [0x11, 0x01],
        GetCert => [0x11, 0x82],
        Cert => [0x11, 0x02],
        Challenge => [0x11, 0x83],
        ChallengeAuth => [0x11, 0x03],
        Error => [0x12, 0x7f],
        GetMeas => [0x12, 0xe0],
        Meas => [0x12, 0x60],
    }
}

/// Decoding parameters of messages that are not self-describing.
#[derive(Clone, Copy, Debug)]
pub struct P {
    pub dlen: usize,
    pub slen: usize,
    pub sig: bool,
}

struct In<'a>(&'a [u8]);
impl<'a> In<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn u8(&mut self) -> Option<u8> {
        self.take(1).map(|b| b[0])
    }
    fn n(&mut self, k: usize) -> Option<u64> {
        let b = self.take(k)?;
        Some(b.iter().rev().fold(0u64, |a, x| a << 8 | *x as u64))
    }
    fn zero(&mut self, n: usize) -> Option<()> {
        if self.take(n)?.iter().all(|b| *b == 0) {
            Some(())
        } else {
            None
        }
    }
}
fn req(c: bool) -> Option<()> {
    if c {
        Some(())
    } else {
        None
    }
}
fn le(out: &mut Vec<u8>, v: u64, k: usize) {
    out.extend_from_slice(&v.to_le_bytes()[..k]);
}

pub const REQ_FLAGS: u64 = 0x1ffc6;
pub const RSP_FLAGS: u64 = 0x1ffff;
pub fn struct_mask(t: u8) -> u64 {
    match t {
        2 => 0x3f,
        3 => 0x7,
        4 => 0x1ff,
        5 => 0x1,
        _ => 0,
    }
}
fn reg_len(reg: u8) -> usize {
    match reg {
        0 => 0,
        4 | 5 => 4,
        _ => 2,
    }
}

fn alg_structs(i: &mut In, n: usize, single: bool, out: &mut Vec<u8>) -> Option<()> {
    for _ in 0..n {
        let t = i.u8()?;
        req((2..=5).contains(&t))?;
        let c = i.u8()?;
        req(c >> 4 == 2)?;
        let bits = i.n(2)?;
        req(bits & !struct_mask(t) == 0)?;
        req(!single || bits.count_ones() == 1)?;
        i.take(4 * (c & 15) as usize)?;
        out.push(t);
        out.push(0x20);
        le(out, bits, 2);
    }
    Some(())
}

fn opaque(i: &mut In) -> Option<Vec<u8>> {
    let mut o = vec![];
    let n = i.u8()?;
    req(n <= 2)?;
    i.zero(3)?;
    o.extend([n, 0, 0, 0]);
    for _ in 0..n {
        let reg = i.u8()?;
        req(reg <= 8)?;
        let vl = i.u8()? as usize;
        req(vl == reg_len(reg))?;
        let v = i.take(vl)?;
        let dl = i.n(2)? as usize;
        req(dl <= 16)?;
        let d = i.take(dl)?;
        let pad = (4 - (4 + vl + dl) % 4) % 4;
        i.zero(pad)?;
        o.push(reg);
        o.push(vl as u8);
        o.extend(v);
        le(&mut o, dl as u64, 2);
        o.extend(d);
        o.extend(vec![0; pad]);
    }
    Some(o)
}
/// length of the well-formed opaque data at the start of `b`
pub fn opaque_len(b: &[u8]) -> usize {
    let mut i = In(b);
    let _ = opaque(&mut i);
    b.len() - i.0.len()
}
pub fn opaque_accept(b: &[u8]) -> Option<Vec<u8>> {
    opaque(&mut In(b))
}

/// The canonical body if `b` is a well-formed body of message `k`.
pub fn accept(k: K, b: &[u8], p: P) -> Option<Vec<u8>> {
    let mut i = In(b);
    let mut o = vec![];
    match k {
        GetVersion | GetDigests => {
            i.zero(2)?;
            o.extend([0, 0]);
        }
        Version => {
            i.zero(3)?;
            let n = i.u8()?;
            req(n <= 2)?;
            let e = i.take(2 * n as usize)?;
            o.extend([0, 0, 0, n]);
            o.extend(e);
            o.resize(8, 0);
        }
        GetCaps | Caps => {
            i.zero(3)?;
            let ct = i.u8()?;
            i.zero(2)?;
            let f = i.n(4)?;
            req(f & !(if k == Caps { RSP_FLAGS } else { REQ_FLAGS }) == 0)?;
            o.extend([0, 0, 0, ct, 0, 0]);
            le(&mut o, f, 4);
        }
        Nego => {
            let n = i.u8()?;
            req(n <= 4)?;
            i.zero(1)?;
            req(i.n(2)? <= 128)?;
            let spec = i.u8()?;
            req(spec & !1 == 0)?;
            i.zero(1)?;
            let asym = i.n(4)?;
            req(asym & !0x1ff == 0)?;
            let hash = i.n(4)?;
            req(hash & !0x3f == 0)?;
            i.zero(12)?;
            let (ea, eh) = (i.u8()? as usize, i.u8()? as usize);
            i.zero(2)?;
            i.take(4 * (ea + eh))?;
            o.extend([n, 0]);
            le(&mut o, 32 + 4 * n as u64, 2);
            o.extend([spec, 0]);
            le(&mut o, asym, 4);
            le(&mut o, hash, 4);
            o.extend([0; 16]);
            alg_structs(&mut i, n as usize, false, &mut o)?;
        }
        Algs => {
            let n = i.u8()?;
            req(n <= 4)?;
            i.zero(1)?;
            i.n(2)?;
            req(i.u8()? == 1)?;
            i.zero(1)?;
            let m = i.n(4)?;
            req(m & !0x3f == 0 && m.count_ones() == 1)?;
            let a = i.n(4)?;
            req(a & !0x1ff == 0 && a.count_ones() == 1)?;
            let h = i.n(4)?;
            req(h & !0x3f == 0 && h.count_ones() == 1)?;
            i.zero(16)?;
            o.extend([n, 0]);
            le(&mut o, 36 + 4 * n as u64, 2);
            o.extend([1, 0]);
            le(&mut o, m, 4);
            le(&mut o, a, 4);
            le(&mut o, h, 4);
            o.extend([0; 16]);
            alg_structs(&mut i, n as usize, true, &mut o)?;
        }
        Digests => {
            i.zero(1)?;
            let m = i.u8()?;
            o.extend([0, m]);
            for s in 0..5 {
                if m >> s & 1 == 1 {
                    o.extend(i.take(p.dlen)?);
                }
            }
        }
        GetCert => {
            let s = i.u8()?;
            i.zero(1)?;
            let r = i.take(4)?;
            o.extend([s, 0]);
            o.extend(r);
        }
        Cert => {
            let s = i.u8()?;
            i.zero(1)?;
            let n = i.n(2)? as usize;
            req(n <= 1024)?;
            let rem = i.n(2)?;
            let d = i.take(n)?;
            o.extend([s, 0]);
            le(&mut o, n as u64, 2);
            le(&mut o, rem, 2);
            o.extend(d);
        }
        Challenge => {
            let s = i.u8()?;
            let m = i.u8()?;
            req([0, 1, 0xff].contains(&m))?;
            o.extend([s, m]);
            o.extend(i.take(32)?);
        }
        ChallengeAuth => {
            let s = i.u8()?;
            req(s & 15 < 5)?;
            let m = i.u8()?;
            o.extend([s & 0x8f, m]);
            o.extend(i.take(p.dlen)?);
            o.extend(i.take(32)?);
            o.extend(i.take(p.dlen)?);
            req(i.n(2)? <= 1024)?;
            let q = opaque(&mut i)?;
            le(&mut o, q.len() as u64, 2);
            o.extend(q);
            o.extend(i.take(p.slen)?);
        }
        Error => {
            let c = i.u8()?;
            let d = i.u8()?;
            let more = match c {
                1 | 3..=6 | 8..=0xc | 0xe | 0x10 | 0x41 | 0x43 => 0,
                0x7 => {
                    o.extend([c, d]);
                    return Some(o);
                }
                0xd | 0x42 => 4,
                0xf => 1,
                0xff => {
                    req(d <= 8)?;
                    let n = i.u8()?;
                    req([0, 2, 4].contains(&n))?;
                    o.extend([c, d, n]);
                    o.extend(i.take(n as usize)?);
                    return Some(o);
                }
                _ => return None,
            };
            o.extend([c, 0]);
            o.extend(i.take(more)?);
        }
        GetMeas => {
            let a = i.u8()?;
            req(a & !3 == 0)?;
            let x = i.u8()?;
            o.extend([a, x]);
            if a & 1 == 1 {
                o.extend(i.take(32)?);
                let s = i.u8()?;
                req(s < 5)?;
                o.push(s);
            }
        }
        Meas => {
            let t = i.u8()?;
            req(t <= 8)?;
            let b1 = i.u8()?;
            req(b1 & 15 < 5)?;
            let cc = b1 >> 4 & 3;
            req(cc != 3)?;
            o.push(t);
            // NotSupported 0b00, True 0b01, False 0b10
            o.push(cc << 4 | if p.sig { b1 & 15 } else { 0 });
            let n = i.u8()?;
            req(n <= 8)?;
            let size = i.n(3)? as usize;
            req(size <= 8192)?;
            o.push(n);
            le(&mut o, size as u64, 3);
            let before = i.0.len();
            for _ in 0..n {
                let ix = i.u8()?;
                req(i.u8()? == 1)?;
                let ms = i.n(2)? as usize;
                let t = i.u8()?;
                req(t & 0x7f <= 7)?;
                let vs = i.n(2)? as usize;
                req(vs <= if t & 0x80 == 0 { 64 } else { 1024 })?;
                req(ms == 3 + vs)?;
                let v = i.take(vs)?;
                o.extend([ix, 1]);
                le(&mut o, ms as u64, 2);
                o.push(t);
                le(&mut o, vs as u64, 2);
                o.extend(v);
            }
            req(before - i.0.len() == size)?;
            o.extend(i.take(32)?);
            req(i.n(2)? <= 1024)?;
            let q = opaque(&mut i)?;
            le(&mut o, q.len() as u64, 2);
            o.extend(q);
            if p.sig {
                o.extend(i.take(p.slen)?);
            }
        }
    }
    Some(o)
}

fn gen_opaque(r: &mut Rng, over: bool) -> Vec<u8> {
    let n = r.range(0, if over { 4 } else { 2 }) as u8;
    let mut o = vec![n, 0, 0, 0];
    for _ in 0..n {
        let reg = r.range(0, 8) as u8;
        let vl = reg_len(reg);
        let dl = if over && r.chance(1, 3) { r.range(15, 20) } else if r.chance(1, 3) { *r.pick(&[0usize, 1, 2, 3, 4, 15, 16]) } else { r.range(0, 16) };
        o.push(reg);
        o.push(vl as u8);
        o.extend(r.bytes(vl));
        le(&mut o, dl as u64, 2);
        o.extend(r.bytes(dl));
        o.extend(vec![0; (4 - (4 + vl + dl) % 4) % 4]);
    }
    o
}
pub fn opaque_valid(r: &mut Rng) -> Vec<u8> {
    gen_opaque(r, false)
}
fn one_bit(r: &mut Rng, mask: u64) -> u64 {
    loop {
        let b = 1 << r.below(17);
        if b & mask != 0 {
            return b;
        }
    }
}
fn some_bits(r: &mut Rng, mask: u64) -> u64 {
    match r.below(4) {
        0 => mask,
        1 => one_bit(r, mask),
        _ => r.u64() & mask,
    }
}

/// A well-formed body.
pub fn valid(k: K, r: &mut Rng, p: P) -> Vec<u8> {
    gen(k, r, p, false)
}
/// A body that is well-formed but for having more elements, or larger ones, than there is room for.
pub fn crowded(k: K, r: &mut Rng, p: P) -> Vec<u8> {
    gen(k, r, p, true)
}
fn gen(k: K, r: &mut Rng, p: P, over: bool) -> Vec<u8> {
    let mut o = vec![];
    match k {
        GetVersion | GetDigests => o.extend([0, 0]),
        Version => {
            let n = r.range(0, if over { 5 } else { 2 });
            o.extend([0, 0, 0, n as u8]);
            for _ in 0..n {
                let hi = *r.pick(&[0x10, 0x11, 0x11, 0x12, 0x01, 0x20]);
                let e = if r.chance(3, 4) { [0, hi] } else { [r.u8(), r.u8()] };
                o.extend(e);
            }
        }
        GetCaps | Caps => {
            let ct = r.u8();
            o.extend([0, 0, 0, ct, 0, 0]);
            let f = some_bits(r, if k == Caps { RSP_FLAGS } else { REQ_FLAGS });
            le(&mut o, f, 4);
        }
        Nego | Algs => {
            let n = r.range(0, if over { 7 } else { 4 });
            o.extend([n as u8, 0]);
            let len = if r.chance(1, 4) { r.below(129) } else { (if k == Nego { 32 } else { 36 }) + 4 * n as u64 };
            le(&mut o, len, 2);
            o.push(if k == Algs || r.chance(3, 4) { 1 } else { 0 });
            o.push(0);
            let ext;
            if k == Nego {
                let v = some_bits(r, 0x1ff) | if r.chance(1, 2) { 0x10 } else { 0 };
                le(&mut o, v, 4);
                let v = some_bits(r, 0x3f) | if r.chance(1, 2) { 1 << r.below(3) } else { 0 };
                le(&mut o, v, 4);
                ext = if r.chance(1, 4) { [r.below(4) as u8, r.below(4) as u8] } else { [0, 0] };
            } else {
                for m in [0x3f, 0x1ff, 0x3f] {
                    let v = one_bit(r, m);
                    le(&mut o, v, 4);
                }
                ext = [0, 0];
            }
            o.extend([0; 12]);
            o.extend(ext);
            o.extend([0, 0]);
            o.extend(r.bytes(4 * (ext[0] as usize + ext[1] as usize)));
            for j in 0..n {
                let t = if r.chance(3, 4) { 2 + (j % 4) as u8 } else { r.range(2, 5) as u8 };
                let e = if r.chance(1, 6) { r.below(16) as u8 } else { 0 };
                o.push(t);
                o.push(0x20 | e);
                let b = if k == Algs { one_bit(r, struct_mask(t)) } else { some_bits(r, struct_mask(t)) };
                le(&mut o, b, 2);
                o.extend(r.bytes(4 * e as usize));
            }
        }
        Digests => {
            let m = if r.chance(1, 2) { r.u8() & 0x1f } else { r.u8() };
            o.extend([0, m]);
            o.extend(r.bytes(p.dlen * (m & 0x1f).count_ones() as usize));
        }
        GetCert => {
            let s = r.range(0, 5) as u8;
            o.extend([s, 0]);
            let t = if r.chance(1, 2) { vec![0, 0, 0, 4] } else { r.bytes(4) };
            o.extend(t);
        }
        Cert => {
            let n = match r.below(4) {
                _ if over => r.range(1023, 1027),
                0 => r.range(1000, 1024),
                1 => r.range(0, 4),
                _ => r.range(0, 300),
            };
            o.extend([r.range(0, 5) as u8, 0]);
            le(&mut o, n as u64, 2);
            let rem = if r.chance(1, 2) { 0 } else { r.below(65536) };
            le(&mut o, rem, 2);
            o.extend(r.bytes(n));
        }
        Challenge => {
            o.push(r.range(0, 5) as u8);
            o.push(*r.pick(&[0, 1, 0xff]));
            o.extend(r.bytes(32));
        }
        ChallengeAuth => {
            o.push(r.range(0, 4) as u8 | (r.u8() & 0xf0));
            o.push(r.u8());
            o.extend(r.bytes(p.dlen + 32 + p.dlen));
            let q = gen_opaque(r, over);
            le(&mut o, q.len() as u64, 2);
            o.extend(q);
            o.extend(r.bytes(p.slen));
        }
        Error => {
            let c = *r.pick(&[1u8, 3, 4, 5, 6, 7, 8, 9, 0xa, 0xb, 0xc, 0xd, 0xe, 0xf, 0x10, 0x41, 0x42, 0x43, 0xff]);
            o.push(c);
            let d = if c == 0xff { r.range(0, 8) as u8 } else if r.chance(1, 2) { 0 } else { r.u8() };
            o.push(d);
            match c {
                0xd | 0x42 => o.extend(r.bytes(4)),
                0xf => o.push(r.u8()),
                0xff => {
                    let n = *r.pick(&[0u8, 2, 4]);
                    o.push(n);
                    o.extend(r.bytes(n as usize));
                }
                _ => {}
            }
        }
        GetMeas => {
            let a = r.range(0, 3) as u8;
            o.extend([a, r.byte()]);
            if a & 1 == 1 {
                o.extend(r.bytes(32));
                o.push(r.range(0, 4) as u8);
            }
        }
        Meas => {
            o.push(r.range(0, 8) as u8);
            let b1 = r.range(0, 4) as u8 | (r.range(0, 2) as u8) << 4 | (r.u8() & 0xc0);
            o.push(b1);
            let full = r.chance(1, 24);
            let n = if full || r.chance(1, 6) { 8 } else { r.range(0, if over { 10 } else { 4 }) };
            let mut bl = vec![];
            let last = r.us(4);
            for i in 0..n {
                let raw = full || r.chance(1, 2);
                let vs = if full { if i == 7 && last > 1 { 1014 + last * 2 } else { 1017 } } else if over && r.chance(1, 4) { if raw { r.range(1023, 1026) } else { r.range(63, 66) } } else if raw && r.chance(1, 4) { r.range(900, 1017) } else { r.range(0, 64) };
                bl.push(r.u8());
                bl.push(1);
                le(&mut bl, 3 + vs as u64, 2);
                bl.push(r.range(0, 7) as u8 | if raw { 0x80 } else { 0 });
                le(&mut bl, vs as u64, 2);
                bl.extend(r.bytes(vs));
            }
            o.push(n as u8);
            le(&mut o, bl.len() as u64, 3);
            o.extend(bl);
            o.extend(r.bytes(32));
            let q = gen_opaque(r, over);
            le(&mut o, q.len() as u64, 2);
            o.extend(q);
            if p.sig {
                o.extend(r.bytes(p.slen));
            }
        }
    }
    o
}

/// Change a byte string a little.
pub fn mutate(b: &mut Vec<u8>, r: &mut Rng) {
    for _ in 0..r.range(1, 2) {
        match r.below(10) {
            0 if !b.is_empty() => {
                let n = r.us(b.len());
                b.truncate(n);
            }
            1 => {
                let n = r.range(1, 5);
                b.extend(r.bytes(n));
            }
            2 if !b.is_empty() => {
                b.pop();
            }
            3 | 4 if !b.is_empty() => {
                let m = b.len().min(48);
                let i = r.us(m);
                b[i] = r.byte();
            }
            5 | 6 if !b.is_empty() => {
                let m = b.len().min(48);
                let i = r.us(m);
                b[i] ^= 1 << r.below(8);
            }
            7 if !b.is_empty() => {
                let m = b.len().min(48);
                let i = r.us(m);
                b[i] = b[i].wrapping_add(if r.chance(1, 2) { 1 } else { 255 });
            }
            8 if !b.is_empty() => {
                let i = r.us(b.len());
                b[i] = r.u8();
            }
            _ => {
                if !b.is_empty() {
                    let i = r.us(b.len());
                    if r.chance(1, 2) {
                        b.remove(i);
                    } else {
                        b.insert(i, r.byte());
                    }
                }
            }
        }
    }
}
