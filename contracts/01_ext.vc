## Assumed contracts of the external crates (ring, webpki, ring-compat, rand).
== mod +ext
pub mod webpki {
    use vstd::prelude::*;
    use core::convert::TryFrom;
    verus! {
    pub struct SignatureAlgorithm { pub id: u8 }
    pub const ECDSA_P256_SHA256: SignatureAlgorithm = SignatureAlgorithm { id: 1 };
    pub const ECDSA_P384_SHA384: SignatureAlgorithm = SignatureAlgorithm { id: 2 };
    pub struct Error;
    #[verifier::external_body]
    pub struct EndEntityCert<'a> { x: &'a [u8] }
    #[verifier::external_body]
    pub struct TrustAnchor<'a> { x: &'a [u8] }
    pub struct TlsServerTrustAnchors<'a>(pub &'a [TrustAnchor<'a>]);
    pub struct Time { pub secs: u64 }
    impl Time {
        pub fn from_seconds_since_unix_epoch(s: u64) -> (r: Time) ensures r.secs == s { Time { secs: s } }
    }
    /// the certificate parses as DER X.509
    pub uninterp spec fn parses(cert: Seq<u8>) -> bool;
    /// the certificate can serve as a trust anchor
    pub uninterp spec fn anchors(cert: Seq<u8>) -> bool;
    /// the signature is valid under the public key of the certificate
    pub uninterp spec fn sig_valid(cert: Seq<u8>, alg: u8, msg: Seq<u8>, der_sig: Seq<u8>) -> bool;
    /// the certificate chains up to the anchor
    pub uninterp spec fn chain_valid(cert: Seq<u8>, alg: Seq<u8>, anchors: Seq<Seq<u8>>, inter: Seq<Seq<u8>>, t: u64) -> bool;
    pub open spec fn ids(s: Seq<&SignatureAlgorithm>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[i].id) }
    pub open spec fn ders(s: Seq<TrustAnchor>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i].der()) }
    pub open spec fn contents(s: Seq<&[u8]>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i]@) }
    impl<'a> EndEntityCert<'a> {
        pub uninterp spec fn bytes(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn verify_signature(&self, alg: &SignatureAlgorithm, msg: &[u8], sig: &[u8]) -> (r: Result<(), Error>)
            ensures r is Ok <==> sig_valid(self.bytes(), alg.id, msg@, sig@)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn verify_is_valid_tls_server_cert(&self, algs: &[&SignatureAlgorithm], anchors: &TlsServerTrustAnchors, inter: &[&[u8]], t: Time) -> (r: Result<(), Error>)
            ensures r is Ok <==> chain_valid(self.bytes(), ids(algs@), ders(anchors.0@), contents(inter@), t.secs)
        { unimplemented!() }
    }
    impl<'a> vstd::std_specs::convert::TryFromSpecImpl<&'a [u8]> for EndEntityCert<'a> {
        open spec fn obeys_try_from_spec() -> bool { false }
        uninterp spec fn try_from_spec(v: &'a [u8]) -> Result<Self, Error>;
    }
    impl<'a> TryFrom<&'a [u8]> for EndEntityCert<'a> {
        type Error = Error;
        #[verifier::external_body]
        fn try_from(c: &'a [u8]) -> (r: Result<EndEntityCert<'a>, Error>)
            ensures r is Ok <==> parses(c@), r is Ok ==> r->Ok_0.bytes() == c@
        { unimplemented!() }
    }
    impl<'a> TrustAnchor<'a> {
        pub uninterp spec fn der(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn try_from_cert_der(c: &'a [u8]) -> (r: Result<TrustAnchor<'a>, Error>)
            ensures r is Ok <==> anchors(c@), r is Ok ==> r->Ok_0.der() == c@
        { unimplemented!() }
    }
    }
}
pub mod ring {
    pub mod rand {
        use vstd::prelude::*;
        verus! {
        #[verifier::external_body]
        pub struct SystemRandom { x: u8 }
        impl SystemRandom {
            #[verifier::external_body]
            pub fn new() -> SystemRandom { unimplemented!() }
        }
        }
    }
    pub mod signature {
        use vstd::prelude::*;
        verus! {
        pub struct EcdsaSigningAlgorithm { pub id: u8 }
        pub const ECDSA_P256_SHA256_FIXED_SIGNING: EcdsaSigningAlgorithm = EcdsaSigningAlgorithm { id: 1 };
        pub const ECDSA_P384_SHA384_FIXED_SIGNING: EcdsaSigningAlgorithm = EcdsaSigningAlgorithm { id: 2 };
        #[verifier::external_body]
        pub struct EcdsaKeyPair { x: u8 }
        #[verifier::external_body]
        pub struct Signature { x: u8 }
        pub struct KeyRejected;
        pub struct Unspecified;
        /// `sig` is a signature of `msg` made with the key pair
        pub uninterp spec fn made(kp: EcdsaKeyPair, msg: Seq<u8>, sig: Seq<u8>) -> bool;
        /// ring does not sign `msg` with the key pair
        pub uninterp spec fn fails(kp: EcdsaKeyPair, msg: Seq<u8>) -> bool;
        impl EcdsaKeyPair {
            pub uninterp spec fn alg(&self) -> u8;
            pub uninterp spec fn key(&self) -> Seq<u8>;
            #[verifier::external_body]
            pub fn from_pkcs8(alg: &'static EcdsaSigningAlgorithm, k: &[u8]) -> (r: Result<EcdsaKeyPair, KeyRejected>)
                ensures r is Ok ==> r->Ok_0.alg() == alg.id && r->Ok_0.key() == k@
            { unimplemented!() }
            #[verifier::external_body]
            pub fn sign(&self, rng: &super::rand::SystemRandom, msg: &[u8]) -> (r: Result<Signature, Unspecified>)
                ensures r is Ok ==> made(*self, msg@, r->Ok_0.bytes()),
                    r is Err ==> fails(*self, msg@),
                    r is Ok && self.alg() == 1 ==> r->Ok_0.bytes().len() == 64,
                    r is Ok && self.alg() == 2 ==> r->Ok_0.bytes().len() == 96,
            { unimplemented!() }
        }
        impl Signature { pub uninterp spec fn bytes(&self) -> Seq<u8>; }
        impl crate::vx::AsRefSpecImpl<[u8]> for Signature { open spec fn as_ref_ok(&self, r: &[u8]) -> bool { r@ == self.bytes() } }
        impl AsRef<[u8]> for Signature {
            #[verifier::external_body]
            fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.bytes() { unimplemented!() }
        }
        }
    }
}
pub mod rand {
    use vstd::prelude::*;
    verus! {
    /// these bytes, all of them, were drawn from the random source in one call
##if rand
    pub uninterp spec fn drawn(b: Seq<u8>) -> bool;
##else
    /// without a random source nonces are empty, and nothing is claimed about them
    pub open spec fn drawn(b: Seq<u8>) -> bool { true }
##end
    pub trait RngCore {
        fn fill_bytes(&mut self, dest: &mut [u8])
            ensures final(dest)@.len() == old(dest)@.len(), drawn(final(dest)@);
    }
    }
    pub mod rngs {
        use vstd::prelude::*;
        verus! {
        pub struct OsRng;
        impl super::RngCore for OsRng {
            #[verifier::external_body]
            fn fill_bytes(&mut self, dest: &mut [u8]) { unimplemented!() }
        }
        }
    }
}
pub mod crypto {
    pub mod digest {
        use vstd::prelude::*;
        verus! {
        /// the hash function number `alg`
        pub uninterp spec fn hash(alg: int, data: Seq<u8>) -> Seq<u8>;
        /// the bytes an `impl AsRef<[u8]>` argument stands for
        pub uninterp spec fn bytes_of<A>(a: A) -> Seq<u8>;
        #[verifier::external_body]
        pub broadcast proof fn axiom_bytes_of_slice(a: &[u8])
            ensures #[trigger] bytes_of::<&[u8]>(a) == a@,
        {
        }
        pub struct Output { pub b: [u8; 64], pub n: usize }
        impl Output {
            pub open spec fn bytes(&self) -> Seq<u8> { self.b@.take(self.n as int) }
            #[verifier::external_body]
            pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self.bytes() { unimplemented!() }
        }
        pub trait Digest: Sized {
            spec fn st(&self) -> Seq<u8>;
            spec fn alg() -> int;
            spec fn size() -> int;
            fn new() -> (r: Self) ensures r.st() == Seq::<u8>::empty();
            fn update<G: AsRef<[u8]>>(&mut self, data: G) ensures final(self).st() == old(self).st() + bytes_of(data);
            fn finalize(self) -> (r: Output) ensures r.bytes() == hash(Self::alg(), self.st()), r.bytes().len() == Self::size();
        }
        }
    }
}
pub mod ring_compat {
    pub mod digest {
        use vstd::prelude::*;
        use super::super::crypto::digest::*;
        verus! {
        #[verifier::external_body] pub struct Sha256 { x: u8 }
        #[verifier::external_body] pub struct Sha384 { x: u8 }
        #[verifier::external_body] pub struct Sha512 { x: u8 }
        impl Digest for Sha256 {
            uninterp spec fn st(&self) -> Seq<u8>; open spec fn alg() -> int { 256 } open spec fn size() -> int { 32 }
            #[verifier::external_body] fn new() -> Self { unimplemented!() }
            #[verifier::external_body] fn update<G: AsRef<[u8]>>(&mut self, data: G) { unimplemented!() }
            #[verifier::external_body] fn finalize(self) -> Output { unimplemented!() }
        }
        impl Digest for Sha384 {
            uninterp spec fn st(&self) -> Seq<u8>; open spec fn alg() -> int { 384 } open spec fn size() -> int { 48 }
            #[verifier::external_body] fn new() -> Self { unimplemented!() }
            #[verifier::external_body] fn update<G: AsRef<[u8]>>(&mut self, data: G) { unimplemented!() }
            #[verifier::external_body] fn finalize(self) -> Output { unimplemented!() }
        }
        impl Digest for Sha512 {
            uninterp spec fn st(&self) -> Seq<u8>; open spec fn alg() -> int { 512 } open spec fn size() -> int { 64 }
            #[verifier::external_body] fn new() -> Self { unimplemented!() }
            #[verifier::external_body] fn update<G: AsRef<[u8]>>(&mut self, data: G) { unimplemented!() }
            #[verifier::external_body] fn finalize(self) -> Output { unimplemented!() }
        }
        }
    }
}
