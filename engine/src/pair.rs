//! Conversations of the real requester with the real responder, both honest:
//! every step must succeed and leave both sides in agreement.
use crate::req::{real, trusted};
use crate::rng::Rng;
use crate::rsp::{dlen, fields, slots, Key, Prov, Sg, CAPS, GOOD, ROOT};
use crate::wire::{self, K, P};
use crate::{hex, Ctx};
use spdm::requester::RequesterInit;
use spdm::Responder;

const ME: &[&str] = &["C24"];

/// something that looks like a certificate to the chain decoder
fn filler(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = match n {
        0..=1 => return vec![],
        2..=129 => vec![0x30, n as u8 - 2],
        130 => vec![0x30, 127],
        131..=258 => vec![0x30, 0x81, (n - 3) as u8],
        _ => vec![0x30, 0x82, ((n - 4) >> 8) as u8, (n - 4) as u8],
    };
    if n == 130 {
        v.extend(r.bytes(127));
    } else {
        let m = n - v.len();
        v.extend(r.bytes(m));
    }
    v
}

/// a chain which leads to the trusted root, with digests of `d` bytes
fn honest(r: &mut Rng, d: usize) -> Prov {
    let id = r.pick(GOOD);
    let mut p = Prov::new(id, ROOT);
    p.key = if r.chance(1, 8) { Key::Odd(id.key) } else { Key::Ring(id.key) };
    p.set_root(r.bytes(d));
    // further intermediate certificates which nobody needs
    let more = r.range(0, 4 - p.inter.len());
    let mut left = 1024 - p.bytes().len();
    for k in 0..more {
        let n = if k + 1 == more && r.chance(1, 2) { left } else { r.range(2, 60).min(left) };
        let n = if r.chance(1, 6) { (2 + 126 * r.us(2) + r.us(6)).min(left) } else { n };
        let f = filler(r, n);
        if f.is_empty() {
            continue;
        }
        left -= f.len();
        let at = r.range(0, p.inter.len());
        p.inter.insert(at, f);
    }
    p
}

/// one conversation of other endpoints, to learn the size of the digests
fn digest_size() -> Option<usize> {
    let ps: Vec<Option<Prov>> = vec![Some(Prov::new(&GOOD[0], ROOT)), None, None, None, None];
    let mut rs = Responder::new(slots(&ps));
    let mut rq: RequesterInit<'_, Sg> = RequesterInit::new(ROOT, [None, None, None, None, None]);
    for k in 0..3 {
        let (mut a, mut b) = ([0u8; 200], [0u8; 200]);
        let q = rq.next_request(&mut a).ok()?;
        let (o, e) = rs.handle_msg(q, &mut b);
        e.ok()?;
        if k == 2 && o.len() >= 20 {
            return Some(dlen(o[16] as u32));
        }
        rq.handle_msg(o).ok()?;
    }
    None
}

/// leads the responder anywhere
fn past(r: &mut Rng, rs: &mut Responder<'_, Sg>, c: &mut Ctx) {
    let pp = P { dlen: 32, slen: 64, sig: false };
    for _ in 0..r.range(0, 2) {
        let n = r.range(0, 7);
        for k in [K::GetVersion, K::GetCaps, K::Nego, K::GetDigests, K::GetCert, K::Challenge, K::Challenge].iter().take(n) {
            let mut q = wire::header(*k).to_vec();
            let mut b = wire::valid(*k, r, pp);
            if *k == K::Nego {
                b[6] |= 0x10;
                b[10] |= 1 << r.below(3);
            }
            if *k == K::Challenge || *k == K::GetCert {
                b[0] = if r.chance(1, 2) { 0 } else { r.us(5) as u8 };
            }
            q.extend(b);
            let mut buf = [0u8; 1400];
            c.trace.push(format!("before: {}", hex(&q)));
            let e = rs.handle_msg(&q, &mut buf).1;
            if e.is_err() {
                c.trace.push(format!("-> {:?}, reset()", e));
                rs.reset();
                return;
            }
        }
    }
    if r.chance(1, 8) {
        c.trace.push("reset()".into());
        rs.reset();
    }
}

pub fn talk(r: &mut Rng, c: &mut Ctx) {
    let d = match std::panic::catch_unwind(digest_size) {
        Ok(Some(d)) => d,
        _ => 32, // reported below
    };
    let mut first = honest(r, d);
    if trusted(&first.bytes(), d, ROOT).is_none() {
        first = Prov::new(&GOOD[0], ROOT);
        first.set_root(r.bytes(d));
    }
    let mut ps = vec![Some(first)];
    let density = r.range(0, 4) as u64;
    for k in 1..5u8 {
        ps.push(if !r.chance(density, 4) {
            None
        } else if r.chance(1, 3) {
            Some(honest(r, d))
        } else {
            let n = *r.pick(&[0, 32, 48, 64]);
            let mut p = Prov { root: r.bytes(n), inter: vec![], leaf: vec![], key: Key::Mock(k) };
            for _ in 0..r.range(0, 4) {
                let n = r.range(0, 60);
                p.inter.push(r.bytes(n));
            }
            let left = 1024 - p.bytes().len();
            let n = if r.chance(1, 4) { left } else { r.range(0, left) };
            p.leaf = r.bytes(n);
            Some(p)
        });
    }
    let chain = ps[0].as_ref().unwrap().bytes();
    let filled = ps.iter().flatten().count();
    let mut rs = Responder::new(slots(&ps));
    c.trace.push(format!(
        "chains of {:?} bytes, slot 0: {} intermediate certificates",
        ps.iter().map(|p| p.as_ref().map(|p| p.bytes().len())).collect::<Vec<_>>(),
        ps[0].as_ref().unwrap().inter.len()
    ));
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| past(r, &mut rs, c))).is_err() {
        return; // not a matter of this property
    }
    let mut rq: RequesterInit<'_, Sg> = RequesterInit::new(ROOT, [None, None, None, None, None]);
    let sizes = [(4, 10), (12, 12), (48, 52), (4, 4 + d * filled), (8, 8 + chain.len()), (36, 42 + 2 * d + 64)];
    let names = [("Capabilities", "Capabilities"), ("Algorithms", "Algorithms"), ("IdAuth", "IdAuth"), ("IdAuth", "IdAuth"), ("Challenge", "Challenge"), ("NewSession", "Challenge")];
    let tight = r.range(0, 2) as u64;
    for (k, (qn, sn)) in sizes.iter().enumerate() {
        let room = |n: usize, r: &mut Rng| if r.chance(tight, 2) { n } else { n + *r.pick(&[1, 2, 7, 64, 700, 2000]) };
        let mut a = vec![0x5au8; room(*qn, r)];
        let mut b = vec![0xa5u8; room(*sn, r)];
        let tr = c.trace.join("; ");
        let step = format!("exchange {} of 6", k + 1);
        let g = {
            let rq = &mut rq;
            c.guard(ME, || format!("{}: next_request; {}", step, tr), || rq.next_request(&mut a).map(|x| x.to_vec()))
        };
        let q = match g {
            Some(Ok(q)) => q,
            Some(Err(e)) => {
                c.check(ME, false, || format!("{}: no request written into {} bytes: {:?}; {}", step, a.len(), e, tr));
                return;
            }
            None => return,
        };
        c.trace.push(format!("request {}", hex(&q)));
        let tr = c.trace.join("; ");
        let g = {
            let rs = &mut rs;
            c.guard(ME, || format!("{}: responder; {}", step, tr), || {
                let (o, e) = rs.handle_msg(&q, &mut b);
                (o.to_vec(), e)
            })
        };
        let (o, e) = match g {
            Some(x) => x,
            None => return,
        };
        if !c.check(ME, e.is_ok(), || format!("{}: the responder refuses with {:?}; {}", step, e, tr)) {
            return;
        }
        if k == 2 && o.len() >= 20 && dlen(o[16] as u32) != d {
            return; // another selection than before: the root hash does not fit
        }
        c.trace.push(format!("response {}", hex(&o)));
        let tr = c.trace.join("; ");
        let g = {
            let rq = &mut rq;
            c.guard(ME, || format!("{}: requester; {}", step, tr), || rq.handle_msg(&o))
        };
        let g = match g {
            Some(x) => x,
            None => return,
        };
        c.check(ME, matches!(&g, Ok(x) if *x == (k == 5)), || format!("{}: the requester returns {:?}; {}", step, g, tr));
        let both = c.guard(ME, || format!("{}: state(); {}", step, tr), || (real(rq.state()), fields(rs.state())));
        let ((rn, m), (pn, caps, algs)) = match both {
            Some(x) => x,
            None => return,
        };
        c.check(ME, (rn, pn) == names[k], || format!("{}: the requester is in state {} and the responder in {}; {}", step, rn, pn, tr));
        c.check(&["C24", "C11"], rq.transcript().get() == rs.transcript().get(), || {
            format!("{}: the transcripts are {} and {}; {}", step, hex(rq.transcript().get()), hex(rs.transcript().get()), tr)
        });
        if k < 5 {
            c.check(ME, m.version == Some((1, 1, 0, 0)), || format!("{}: the requester selected version {:?}; {}", step, m.version, tr));
        }
        if (1..5).contains(&k) {
            let own = Some((m.sct, m.scap, m.rct, m.rcap));
            c.check(&["C24", "C21"], own == caps && m.scap == Some(CAPS) && m.rcap == Some(CAPS), || {
                format!("{}: the requester recorded the capabilities {:x?} and the responder {:x?}; {}", step, own, caps, tr)
            });
        }
        if (2..5).contains(&k) {
            c.check(ME, m.algs.is_some() && m.algs == algs, || format!("{}: the requester recorded the algorithms {:?} and the responder {:?}; {}", step, m.algs, algs, tr));
        }
        if k == 4 {
            c.check(ME, m.cert == Some((0, chain.clone())), || format!("{}: the requester recorded the chain {:?}; {}", step, m.cert, tr));
        }
        if c.viol.is_some() || g.is_err() || (rn, pn) != names[k] {
            return;
        }
    }
    let tr = c.trace.join("; ");
    c.count(true, &tr, || tr.clone());
}
