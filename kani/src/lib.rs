//! Bit-precise proofs (Kani/CBMC, over the whole input domain unless a bound is named) of
//! contracts that /verif/contracts assumes: the standard library's byte-order conversions,
//! count_ones, slice equality, slice-to-array conversion, and bitflags 1.3 as the crate uses it.
#![allow(dead_code)]
#[cfg(kani)]
mod std_contracts {
    use std::convert::TryFrom;

    #[kani::proof]
    fn u16_to_le_bytes() {
        let x: u16 = kani::any();
        assert!(x.to_le_bytes() == [(x & 0xff) as u8, ((x >> 8) & 0xff) as u8]);
        assert!(x.to_be_bytes() == [((x >> 8) & 0xff) as u8, (x & 0xff) as u8]);
    }
    #[kani::proof]
    fn u32_to_le_bytes() {
        let x: u32 = kani::any();
        assert!(x.to_le_bytes() == [(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8]);
    }
    #[kani::proof]
    #[kani::unwind(9)]
    fn usize_to_le_bytes() {
        let x: usize = kani::any();
        let b = x.to_le_bytes();
        for i in 0..8 {
            assert!(b[i] == ((x >> (8 * i)) & 0xff) as u8);
        }
    }
    #[kani::proof]
    fn from_le_bytes() {
        let b: [u8; 2] = kani::any();
        assert!(u16::from_le_bytes(b) == (b[0] as u16) | ((b[1] as u16) << 8));
        let b: [u8; 4] = kani::any();
        assert!(u32::from_le_bytes(b) == (b[0] as u32) | ((b[1] as u32) << 8) | ((b[2] as u32) << 16) | ((b[3] as u32) << 24));
    }
    #[kani::proof]
    fn count_ones() {
        let x: u8 = kani::any();
        assert!((x.count_ones() == 1) == (x != 0 && x & x.wrapping_sub(1) == 0));
        assert!((x.count_ones() == 0) == (x == 0) && x.count_ones() <= 8);
        let x: u16 = kani::any();
        assert!((x.count_ones() == 1) == (x != 0 && x & x.wrapping_sub(1) == 0));
        assert!((x.count_ones() == 0) == (x == 0) && x.count_ones() <= 16);
        let x: u32 = kani::any();
        assert!((x.count_ones() == 1) == (x != 0 && x & x.wrapping_sub(1) == 0));
        assert!((x.count_ones() == 0) == (x == 0) && x.count_ones() <= 32);
    }
    fn array<const N: usize>() {
        let b: [u8; 40] = kani::any();
        let n: usize = kani::any();
        kani::assume(n <= 40);
        let r = <[u8; N]>::try_from(&b[..n]);
        assert!(r.is_ok() == (n == N));
        if let Ok(a) = r {
            let i: usize = kani::any();
            kani::assume(i < N);
            assert!(a[i] == b[i]);
        }
    }
    /// bounded: slices of at most 40 bytes
    #[kani::proof]
    fn try_into_array() {
        array::<2>();
        array::<4>();
        array::<32>();
    }
    #[kani::proof]
    fn int_from_bool() {
        let b: bool = kani::any();
        assert!(u8::from(b) == if b { 1 } else { 0 } && u16::from(b) == if b { 1 } else { 0 });
        assert!(u32::from(b) == if b { 1 } else { 0 } && u64::from(b) == if b { 1 } else { 0 });
        assert!(usize::from(b) == if b { 1 } else { 0 });
        let x: usize = kani::any();
        let y: usize = x.into();
        assert!(x == y);
    }
    #[kani::proof]
    fn options() {
        let r: Option<u8> = kani::any();
        let d: Option<u8> = kani::any();
        assert!(r.or(d) == if r.is_some() { r } else { d });
        assert!(r.and(d) == if r.is_some() { d } else { None });
        assert!(r.xor(d) == if r.is_some() && d.is_none() { r } else if r.is_none() && d.is_some() { d } else { None });
        assert!(r.as_ref().copied() == r);
        let n: Option<Option<u8>> = kani::any();
        assert!(n.flatten() == match n { Some(v) => v, None => None });
        let mut x = r;
        let v: u8 = kani::any();
        assert!(x.replace(v) == r && x == Some(v));
        let b: bool = kani::any();
        assert!(b.then_some(v) == if b { Some(v) } else { None });
        let mut y = v;
        let w: u8 = kani::any();
        assert!(core::mem::replace(&mut y, w) == v && y == w);
    }
    #[kani::proof]
    fn results() {
        let r: Result<u8, u16> = kani::any();
        let d: u8 = kani::any();
        assert!(r.unwrap_or(d) == match r { Ok(v) => v, Err(_) => d });
        let e: Result<u8, u32> = kani::any();
        assert!(r.or(e) == match r { Ok(v) => Ok(v), Err(_) => e });
        let f: Result<u32, u16> = kani::any();
        assert!(r.and(f) == match r { Ok(_) => f, Err(e) => Err(e) });
    }
    #[kani::proof]
    fn powers_and_bytes() {
        let x: u8 = kani::any();
        assert!(x.is_power_of_two() == (x != 0 && x & (x.wrapping_sub(1)) == 0));
        let x: u16 = kani::any();
        assert!(x.is_power_of_two() == (x != 0 && x & (x.wrapping_sub(1)) == 0));
        assert!(x.swap_bytes() == (x >> 8) | ((x & 0xff) << 8));
        let x: u32 = kani::any();
        assert!(x.is_power_of_two() == (x != 0 && x & (x.wrapping_sub(1)) == 0));
        let b: [u8; 2] = kani::any();
        assert!(u16::from_be_bytes(b) == (b[1] as u16) | ((b[0] as u16) << 8));
        let b: [u8; 4] = kani::any();
        assert!(u32::from_be_bytes(b) == (b[3] as u32) | ((b[2] as u32) << 8) | ((b[1] as u32) << 16) | ((b[0] as u32) << 24));
    }
    /// bounded: slices of at most six bytes
    #[kani::proof]
    #[kani::unwind(8)]
    fn slice_changes() {
        let a: [u8; 6] = kani::any();
        let n: usize = kani::any();
        kani::assume(n <= 6);
        let v: u8 = kani::any();
        let k: usize = kani::any();
        kani::assume(k < 6);
        let mut b = a;
        b[..n].fill(v);
        assert!(b[k] == if k < n { v } else { a[k] });
        let mut b = a;
        b[..n].reverse();
        assert!(b[k] == if k < n { a[n - 1 - k] } else { a[k] });
        let mut b = a;
        let t: [u8; 6] = kani::any();
        b[..n].clone_from_slice(&t[..n]);
        assert!(b[k] == if k < n { t[k] } else { a[k] });
        let (i, j): (usize, usize) = (kani::any(), kani::any());
        kani::assume(i < 6 && j < 6);
        let mut b = a;
        b.swap(i, j);
        assert!(b[k] == if k == i { a[j] } else if k == j { a[i] } else { a[k] });
    }
    /// `?` converts the error with `From::from`
    #[kani::proof]
    fn question_mark() {
        struct E(u16);
        impl From<u8> for E {
            fn from(x: u8) -> E {
                E(x as u16 + 7)
            }
        }
        fn f(r: Result<u32, u8>) -> Result<u32, E> {
            Ok(r?)
        }
        let r: Result<u32, u8> = kani::any();
        match (r, f(r)) {
            (Ok(x), Ok(y)) => assert!(x == y),
            (Err(x), Err(y)) => assert!(E::from(x).0 == y.0),
            _ => assert!(false),
        }
    }
    /// bounded: two slices of at most two slices of at most two bytes
    #[kani::proof]
    #[kani::unwind(5)]
    fn slices_eq() {
        let (p, q): ([[u8; 2]; 2], [[u8; 2]; 2]) = (kani::any(), kani::any());
        let (l, k): ([usize; 2], [usize; 2]) = (kani::any(), kani::any());
        let (n, m): (usize, usize) = (kani::any(), kani::any());
        kani::assume(n <= 2 && m <= 2 && l[0] <= 2 && l[1] <= 2 && k[0] <= 2 && k[1] <= 2);
        let a: [&[u8]; 2] = [&p[0][..l[0]], &p[1][..l[1]]];
        let b: [&[u8]; 2] = [&q[0][..k[0]], &q[1][..k[1]]];
        let mut same = n == m;
        if same {
            for i in 0..n {
                same &= a[i] == b[i];
            }
        }
        assert!((&a[..n] == &b[..m]) == same);
    }
    /// bounded: slices of at most 8 bytes
    #[kani::proof]
    #[kani::unwind(10)]
    fn slice_eq() {
        let (a, b): ([u8; 8], [u8; 8]) = (kani::any(), kani::any());
        let (n, m): (usize, usize) = (kani::any(), kani::any());
        kani::assume(n <= 8 && m <= 8);
        let (a, b) = (&a[..n], &b[..m]);
        let mut same = n == m;
        if same {
            for i in 0..n {
                same &= a[i] == b[i];
            }
        }
        assert!((a == b) == same);
    }
    /// bounded: arrays of 6 bytes and of 3 pairs
    #[kani::proof]
    #[kani::unwind(8)]
    fn array_eq() {
        let (a, b): ([u8; 6], [u8; 6]) = (kani::any(), kani::any());
        let same = (0..6).all(|i| a[i] == b[i]);
        assert!((a == b) == same);
        assert!(a.clone() == a);
        let (a, b): ([(u8, u8); 3], [(u8, u8); 3]) = (kani::any(), kani::any());
        let same = (0..3).all(|i| a[i] == b[i]);
        assert!((a == b) == same);
    }
}

/// What the extractor expands in place of rustc's derives, for a few types of the crate.
#[cfg(kani)]
mod derived {
    use spdm::msgs::capabilities::*;
    use spdm::msgs::version::VersionEntry;
    use std::cmp::Ordering;

    fn entry() -> VersionEntry {
        VersionEntry { major: kani::any(), minor: kani::any(), update: kani::any(), alpha: kani::any() }
    }
    #[kani::proof]
    fn version_entry() {
        let (a, b) = (entry(), entry());
        let (x, y) = ((a.major, a.minor, a.update, a.alpha), (b.major, b.minor, b.update, b.alpha));
        assert!((a == b) == (x == y));
        let order = if x == y {
            Ordering::Equal
        } else if x.0 < y.0 || x.0 == y.0 && (x.1 < y.1 || x.1 == y.1 && (x.2 < y.2 || x.2 == y.2 && x.3 < y.3)) {
            Ordering::Less
        } else {
            Ordering::Greater
        };
        assert!(a.partial_cmp(&b) == Some(order));
        assert!((a < b) == (order == Ordering::Less) && (a > b) == (order == Ordering::Greater));
        let d = VersionEntry::default();
        assert!(d.major == 0 && d.minor == 0 && d.update == 0 && d.alpha == 0);
    }
    #[kani::proof]
    fn get_capabilities() {
        let m = || GetCapabilities { ct_exponent: kani::any(), flags: ReqFlags::from_bits_truncate(kani::any()) };
        let (a, b) = (m(), m());
        assert!((a == b) == (a.ct_exponent == b.ct_exponent && a.flags.bits() == b.flags.bits()));
        let c = a.clone();
        assert!(c.ct_exponent == a.ct_exponent && c.flags.bits() == a.flags.bits());
        let d = GetCapabilities::default();
        assert!(d.ct_exponent == 0 && d.flags.bits() == 0);
    }
}

#[cfg(kani)]
mod bitflags_contracts {
    use spdm::msgs::algorithms::*;
    use spdm::msgs::capabilities::*;
    macro_rules! flags {
        ($($f:ident $t:ident $u:ident [$($k:ident)*];)*) => {$(
            #[kani::proof]
            fn $f() {
                let all: $u = 0 $(| $t::$k.bits())*;
                let x: $u = kani::any();
                let v = $t::from_bits(x);
                assert!(v.is_some() == (x & !all == 0));
                assert!($t::from_bits_truncate(x).bits() == x & all);
                assert!($t::empty().bits() == 0 && $t::default().bits() == 0 && $t::all().bits() == all);
                if let Some(v) = v {
                    assert!(v.bits() == x && v.is_empty() == (x == 0));
                    let y: $u = kani::any();
                    let w = $t::from_bits_truncate(y);
                    let y = y & all;
                    assert!(v.contains(w) == (x & y == y));
                    assert!(v.intersects(w) == (x & y != 0));
                    assert!((v | w).bits() == x | y && (v & w).bits() == x & y);
                    assert!((v == w) == (x == y));
                    let mut z = v;
                    z |= w;
                    assert!(z.bits() == x | y);
                    let mut z = v;
                    z.insert(w);
                    assert!(z.bits() == x | y);
                    let mut z = v;
                    z.remove(w);
                    assert!(z.bits() == x & !y);
                }
            }
        )*};
    }
    flags! {
        base_asym BaseAsymAlgo u32 [RSASSA_2048 RSAPSS_2048 RSASSA_3072 RSAPSS_3072 ECDSA_ECC_NIST_P256 RSASSA_4096 RSAPSS_4096 ECDSA_ECC_NIST_P384 ECDSA_ECC_NIST_P521];
        base_hash BaseHashAlgo u32 [SHA_256 SHA_384 SHA_512 SHA3_256 SHA3_384 SHA3_512];
        measurement_spec MeasurementSpec u8 [DMTF];
        dhe DheFixedAlgorithms u16 [FFDHE_2048 FFDHE_3072 FFDHE_4096 SECP_256_R1 SECP_384_R1 SECP_521_R1];
        aead AeadFixedAlgorithms u16 [AES_128_GCM AES_256_GCM CHACHA20_POLY1305];
        req_base_asym ReqBaseAsymFixedAlgorithms u16 [RSASSA_2048 RSAPSS_2048 RSASSA_3072 RSAPSS_3072 ECDSA_ECC_NIST_P256 RSASSA_4096 RSAPSS_4096 ECDSA_ECC_NIST_P384 ECDSA_ECC_NIST_P521];
        req_flags ReqFlags u32 [CERT_CAP CHAL_CAP ENCRYPT_CAP MAC_CAP MUT_AUTH_CAP KEY_EX_CAP PSK_CAP PSK_CAP_MASK ENCAP_CAP HBEAT_CAP KEY_UPD_CAP HANDSHAKE_IN_THE_CLEAR_CAP PUB_KEY_ID_CAP];
        rsp_flags RspFlags u32 [CACHE_CAP CERT_CAP CHAL_CAP MEAS_CAP_NO_SIG MEAS_CAP_SIG MEAS_FRESH_CAP ENCRYPT_CAP MAC_CAP MUT_AUTH_CAP KEY_EX_CAP PSK_CAP PSX_CAP_WITH_CONTEXT ENCAP_CAP HBEAT_CAP KEY_UPD_CAP HANDSHAKE_IN_THE_CLEAR_CAP PUB_KEY_ID_CAP];
        key_schedule KeyScheduleFixedAlgorithms u16 [SPDM];
    }
}
