use crate::{hex, rng::Rng, Ctx};

fn len(n: usize) -> Vec<u8> {
    if n < 128 {
        vec![n as u8]
    } else if n < 256 {
        vec![0x81, n as u8]
    } else {
        vec![0x82, (n >> 8) as u8, n as u8]
    }
}
fn int(b: &[u8]) -> Vec<u8> {
    let mut v: Vec<u8> = b.iter().copied().skip_while(|x| *x == 0).collect();
    if v.first().map_or(true, |x| x & 0x80 != 0) {
        v.insert(0, 0);
    }
    let mut o = vec![2];
    o.extend(len(v.len()));
    o.extend(v);
    o
}

pub fn expected(sig: &[u8]) -> Vec<u8> {
    let h = sig.len() / 2;
    let body = [int(&sig[..h]), int(&sig[h..])].concat();
    let mut o = vec![0x30];
    o.extend(len(body.len()));
    o.extend(body);
    o
}

pub fn der(r: &mut Rng, c: &mut Ctx) {
    let n = match r.below(8) {
        0 => 2 * r.range(32, 70),
        1 => 2 * r.range(120, 140),
        2 => 2 * r.range(1, 8),
        3 => 2 * r.range(1, 600),
        _ => *r.pick(&[64, 96, 2, 62]),
    };
    let mut s = r.bytes(n);
    for half in 0..2 {
        let h = n / 2;
        let part = &mut s[half * h..(half + 1) * h];
        match r.below(5) {
            0 => {
                let k = if r.chance(1, 3) { h } else { r.us(h + 1) };
                part[..k].iter_mut().for_each(|b| *b = 0);
                if k < h && r.chance(1, 2) {
                    part[k] = *r.pick(&[0x7f, 0x80, 0x81, 0xff, 1]);
                }
            }
            1 => part[0] = *r.pick(&[0x7f, 0x80, 0xff, 0, 1]),
            _ => {}
        }
    }
    let want = expected(&s);
    c.count(true, &s, || hex(&s));
    // a signature of the configured size always fits in max_encoded_size()
    let room = if n <= 64 { spdm::crypto::pki::max_encoded_size() } else { want.len() + r.us(4) };
    let p = &["C19"];
    let g = c.guard(p, || format!("bin_to_der({})", hex(&s)), || {
        let mut out = vec![0xa5u8; room];
        let k = spdm::crypto::pki::bin_to_der(&s, &mut out);
        (k, out)
    });
    if let Some((k, out)) = g {
        c.check(p, k == want.len() && out[..k.min(room)] == want[..], || {
            format!("bin_to_der({}) = {} ({} bytes), expected {}", hex(&s), hex(&out[..k.min(room)]), k, hex(&want))
        });
        c.check(p, out[want.len().min(room)..].iter().all(|b| *b == 0xa5), || format!("bin_to_der({}) wrote after its end: {}", hex(&s), hex(&out)));
    }
}
