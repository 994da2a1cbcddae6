## Hashing, DER encoding of signatures, certificates and signing.
== mod crypto::digest
pub use crate::ext::crypto::digest::{hash, bytes_of};
/// the SHA-2 function of a (single bit) hash selection
pub open spec fn hash_no(a: BaseHashAlgo) -> int { if a.bits == 1 { 256 } else if a.bits == 2 { 384 } else { 512 } }
pub open spec fn no_len(n: int) -> int { if n == 256 { 32 } else if n == 384 { 48 } else { 64 } }
pub open spec fn hash_ok(a: BaseHashAlgo) -> bool { a.bits == 1 || a.bits == 2 || a.bits == 4 }
pub open spec fn hash_len(a: BaseHashAlgo) -> int { if a.bits == 1 { 32 } else if a.bits == 2 { 48 } else { 64 } }
/// the digest of `data` under the selected algorithm
pub open spec fn hashed(a: BaseHashAlgo, data: Seq<u8>) -> Seq<u8> { hash(hash_no(a), data) }

== trait crypto::digest::Digests
    /// the number of the hash function
    spec fn no(&self) -> int;
    /// the data hashed so far
    spec fn st(&self) -> Seq<u8>;

== fn crypto::digest::Digests::update (self, data)
-- spec
    requires crate::crypto::provider(),
    ensures final(self).no() == old(self).no(), final(self).st() == old(self).st() + bytes_of(data),

== fn crypto::digest::Digests::finalize (self)
-- spec
    requires crate::crypto::provider(),
    ensures r.wf(), r.bytes() == hash(self.no(), self.st()), r.bytes().len() == no_len(self.no()),

== fn crypto::digest::Digests::digest (algorithm, data)
-- spec
    requires crate::crypto::provider(), hash_ok(algorithm),
    ensures r.wf(), r.bytes() == hashed(algorithm, bytes_of(data)), r.bytes().len() == hash_len(algorithm), //@C14

##if crypto
== mod crypto::ring::digest
use crate::crypto::digest::*;

== impl crypto::ring::digest::ProvidedDigests@Digests
    open spec fn no(&self) -> int {
        match self { ProvidedDigests::Sha256(_) => 256, ProvidedDigests::Sha384(_) => 384, ProvidedDigests::Sha512(_) => 512 }
    }
    open spec fn st(&self) -> Seq<u8> {
        match self { ProvidedDigests::Sha256(d) => d.st(), ProvidedDigests::Sha384(d) => d.st(), ProvidedDigests::Sha512(d) => d.st() }
    }

== fn crypto::ring::digest::ProvidedDigests::try_from@TryFrom<BaseHashAlgo> (algo)
-- spec
    ensures
        r is Ok <==> hash_ok(algo),
        r is Ok ==> r->Ok_0.no() == hash_no(algo) && r->Ok_0.st() == Seq::<u8>::empty(),

== fn crypto::ring::digest::ProvidedDigests::supported_algorithms ()
-- spec
    ensures r.bits == 7u32,
-- body
    assert((1u32 | 2u32) | 4u32 == 7u32) by (bit_vector);

##end
== mod crypto::pki
/// the DER length octets of `n`
pub open spec fn der_len(n: int) -> Seq<u8> {
    if n < 128 { seq![n as u8] } else if n < 256 { seq![0x81u8, n as u8] } else { seq![0x82u8, (n / 256) as u8, (n % 256) as u8] }
}
/// without the leading zero bytes, but with at least one byte
#[verifier::opaque]
pub open spec fn strip(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() > 1 && s[0] == 0 { strip(s.skip(1)) } else { s }
}
/// the content octets of the DER encoding of a non-negative big endian integer
#[verifier::opaque]
pub open spec fn int_content(s: Seq<u8>) -> Seq<u8> {
    let m = strip(s);
    if m[0] >= 0x80 { seq![0u8] + m } else { m }
}
#[verifier::opaque]
pub open spec fn der_int(s: Seq<u8>) -> Seq<u8> { seq![2u8] + der_len(int_content(s).len() as int) + int_content(s) }
/// SEQUENCE { r INTEGER, s INTEGER } of the two halves of a raw signature
#[verifier::opaque]
pub open spec fn der_sig(sig: Seq<u8>) -> Seq<u8> {
    let b = der_int(sig.take(sig.len() as int / 2)) + der_int(sig.skip(sig.len() as int / 2));
    seq![0x30u8] + der_len(b.len() as int) + b
}
/// writing `v` behind `p`
pub proof fn fill(o: Seq<u8>, p: Seq<u8>, base: Seq<u8>, v: Seq<u8>, o2: Seq<u8>)
    requires
        o == p + base.skip(p.len() as int), p.len() + v.len() <= base.len(), o2.len() == o.len(),
        o2.take(p.len() as int) == o.take(p.len() as int),
        o2.skip(p.len() as int) == v + o.skip(p.len() as int).skip(v.len() as int),
    ensures o2 == (p + v) + base.skip((p + v).len() as int),
{
    let r = (p + v) + base.skip((p + v).len() as int);
    assert forall|i: int| 0 <= i < o2.len() implies o2[i] == r[i] by {
        if i < p.len() { assert(o2[i] == o2.take(p.len() as int)[i]); } else { assert(o2[i] == o2.skip(p.len() as int)[i - p.len()]); }
    }
    assert(o2 =~= r);
}
/// the value of a big endian integer
pub open spec fn be_val(s: Seq<u8>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { be_val(s.drop_last()) * 256 + s.last() }
}
pub proof fn be_val_zero(s: Seq<u8>)
    ensures be_val(seq![0u8] + s) == be_val(s),
    decreases s.len(),
{
    let z = seq![0u8] + s;
    if s.len() == 0 {
        assert(z =~= seq![0u8]);
        assert(z.drop_last() =~= Seq::<u8>::empty());
        assert(be_val(z.drop_last()) == 0);
    } else {
        be_val_zero(s.drop_last());
        assert(z.drop_last() =~= seq![0u8] + s.drop_last());
        assert(z.last() == s.last());
    }
}
pub proof fn strip_spec(s: Seq<u8>)
    requires s.len() >= 1,
    ensures
        1 <= strip(s).len() <= s.len(),
        strip(s) == s.skip(s.len() - strip(s).len()),
        strip(s).len() > 1 ==> strip(s)[0] != 0,
        be_val(strip(s)) == be_val(s),
    decreases s.len(),
{
    reveal_with_fuel(strip, 2);
    if s.len() > 1 && s[0] == 0 {
        strip_spec(s.skip(1));
        let k = s.skip(1).len() - strip(s).len();
        assert(s.skip(1).skip(k) =~= s.skip(k + 1));
        assert(seq![0u8] + s.skip(1) =~= s);
        be_val_zero(s.skip(1));
    } else {
        assert(s.skip(0) =~= s);
    }
}
/// the encoding is the minimal two's complement encoding of the same non-negative number
pub proof fn int_content_spec(s: Seq<u8>) //@C19
    requires s.len() >= 1,
    ensures
        be_val(int_content(s)) == be_val(s),
        int_content(s).len() >= 1 && int_content(s)[0] < 0x80,
        int_content(s).len() > 1 && int_content(s)[0] == 0 ==> int_content(s)[1] >= 0x80,
        int_content(s).len() <= s.len() + 1,
{
    reveal(int_content);
    strip_spec(s);
    be_val_zero(strip(s));
}
pub proof fn strip_idem(s: Seq<u8>)
    requires s.len() >= 1,
    ensures strip(strip(s)) == strip(s),
{
    strip_spec(s);
    reveal_with_fuel(strip, 2);
}
pub proof fn int_content_strip(s: Seq<u8>)
    requires s.len() >= 1,
    ensures int_content(strip(s)) == int_content(s), der_int(strip(s)) == der_int(s),
{
    strip_idem(s);
    reveal(int_content);
    reveal(der_int);
}
pub proof fn der_int_len(s: Seq<u8>)
    ensures der_int(s).len() == 1 + der_len(int_content(s).len() as int).len() + int_content(s).len(),
{
    reveal(der_int);
}
/// stripping is dropping the zeros before the first non-zero byte
pub proof fn strip_at(s: Seq<u8>, k: int)
    requires 0 <= k < s.len(), forall|i: int| 0 <= i < k ==> s[i] == 0, s[k] != 0 || k == s.len() - 1,
    ensures strip(s) =~= s.skip(k),
    decreases s.len(),
{
    reveal_with_fuel(strip, 2);
    if s.len() > 1 && s[0] == 0 {
        if k == 0 {
        } else {
            assert(s.skip(1)[k - 1] == s[k]);
            assert forall|i: int| 0 <= i < k - 1 implies s.skip(1)[i] == 0 by { assert(s[i + 1] == 0); }
            strip_at(s.skip(1), k - 1);
            assert(s.skip(1).skip(k - 1) =~= s.skip(k));
        }
    } else {
        if k > 0 { assert(s[0] == 0); }
        assert(s.skip(0) =~= s);
    }
}
pub proof fn der_sig_len(sig: Seq<u8>)
    requires 2 <= sig.len() <= 30000,
    ensures
        sig.len() <= 64 ==> der_sig(sig).len() <= 72,
        der_sig(sig).len() >= 8,
{
    let n = sig.len() as int / 2;
    reveal(der_sig);
    reveal(der_int);
    int_content_spec(sig.take(n));
    int_content_spec(sig.skip(n));
}
/// the algorithms webpki can verify, with the number webpki knows them by
pub open spec fn asym_ok(a: BaseAsymAlgo) -> bool { a.bits == 0x10 || a.bits == 0x80 }
pub open spec fn asym_no(a: BaseAsymAlgo) -> u8 { if a.bits == 0x10 { 1 } else { 2 } }
/// `sig` (fixed size encoding) is a valid signature of `msg` under the key of the certificate
pub open spec fn sig_good(cert: Seq<u8>, a: BaseAsymAlgo, msg: Seq<u8>, sig: Seq<u8>) -> bool {
    crate::ext::webpki::sig_valid(cert, asym_no(a), msg, der_sig(sig))
}
/// the certificate chains up to the root through the intermediate certificates
pub open spec fn chain_good(cert: Seq<u8>, a: BaseAsymAlgo, inter: Seq<Seq<u8>>, root: Seq<u8>, t: u64) -> bool {
    crate::ext::webpki::anchors(root) && crate::ext::webpki::chain_valid(cert, seq![asym_no(a)], seq![root], inter, t)
}

== fn crypto::pki::bin_to_der (signature, out)
-- attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
-- spec
    requires 2 <= signature@.len() <= 30000, old(out)@.len() >= der_sig(signature@).len(),
    ensures
        r == der_sig(signature@).len(), //@C19
        final(out)@ =~= der_sig(signature@) + old(out)@.skip(r as int), //@C19
-- body
    ghost let old_out = out@;
    ghost let ri = der_int(signature@.take(signature@.len() as int / 2));
    ghost let si = der_int(signature@.skip(signature@.len() as int / 2));
    ghost let dl = der_len((ri + si).len() as int);
    assert(der_sig(signature@) =~= seq![0x30u8] + dl + ri + si) by { reveal(der_sig); }
    der_sig_len(signature@);
    int_content_spec(signature@.take(signature@.len() as int / 2));
    int_content_spec(signature@.skip(signature@.len() as int / 2));
    int_content_strip(signature@.take(signature@.len() as int / 2));
    int_content_strip(signature@.skip(signature@.len() as int / 2));
    strip_spec(signature@.take(signature@.len() as int / 2));
    strip_spec(signature@.skip(signature@.len() as int / 2));
    strip_idem(signature@.take(signature@.len() as int / 2));
    strip_idem(signature@.skip(signature@.len() as int / 2));
    der_int_len(signature@.take(signature@.len() as int / 2));
    der_int_len(signature@.skip(signature@.len() as int / 2));
-- after out[0] =
    assert(out@ =~= seq![0x30u8] + old_out.skip(1));
-- after let mut written
    assert(sig_len == (ri + si).len());
    ghost let o1 = out@;
    assert(out@ =~= seq![0x30u8] + dl + old_out.skip(written as int));
-- after written += integer_to_der
    ghost let o2 = out@;
    fill(o1, seq![0x30u8] + dl, old_out, ri, o2);
-- after #1 written += integer_to_der
    fill(o2, seq![0x30u8] + dl + ri, old_out, si, out@);

== fn crypto::pki::get_start_and_length (i)
-- spec
    requires 1 <= i@.len() <= 30000,
    ensures
        r.0 < i@.len(), i@.skip(r.0 as int) =~= strip(i@),
        r.1 == int_content(i@).len(), //@C19
-- loop 0
    invariant
        i__ <= i@.len(),
        forall|j: int| 0 <= j < i__ ==> i@[j] == 0,
        pos__ is Some ==> pos__->Some_0 == i__ && i__ < i@.len() && i@[i__ as int] != 0,
    decreases i@.len() - i__,
-- end
    strip_at(i@, start as int);
    reveal(int_content);
    let z = i@[start as int];
    assert((z & 0x80 != 0) == (z >= 0x80u8)) by (bit_vector);

== fn crypto::pki::integer_to_der (out, integer)
-- attr #[verifier::spinoff_prover] #[verifier::rlimit(40)]
-- spec
    requires 1 <= integer@.len() <= 30000, strip(integer@) == integer@, old(out)@.len() >= der_int(integer@).len(),
    ensures
        r == der_int(integer@).len(), //@C19
        final(out)@ =~= der_int(integer@) + old(out)@.skip(r as int), //@C19
-- body
    ghost let old_out = out@;
    ghost let dl = der_len(int_content(integer@).len() as int);
    reveal(der_int); reveal(int_content);
    let z = integer@[0];
    assert((z & 0x80 != 0) == (z >= 0x80u8)) by (bit_vector);
-- after out[0] =
    assert(out@ =~= seq![2u8] + old_out.skip(1));
-- after written += write_der_length
    assert(out@ =~= seq![2u8] + dl + old_out.skip(written as int));
-- before out[written..]
    assert(int_content(integer@) == (if pad == 1 { seq![0u8] + integer@ } else { integer@ }));
    assert(out@ =~= seq![2u8] + dl + (if pad == 1 { seq![0u8] } else { Seq::<u8>::empty() }) + old_out.skip(written as int));
    ghost let o1 = out@;
    ghost let pp = seq![2u8] + dl + (if pad == 1 { seq![0u8] } else { Seq::<u8>::empty() });
-- after out[written..]
    fill(o1, pp, old_out, integer@, out@);
    assert(pp + integer@ =~= der_int(integer@));

== fn crypto::pki::write_der_length (out, length)
-- spec
    requires length < 65536, old(out)@.len() >= der_len(length as int).len(),
    ensures
        r == der_len(length as int).len(), //@C19
        final(out)@ =~= der_len(length as int) + old(out)@.skip(r as int), //@C19
-- body
    assert(length < 65536usize ==> (((length as u16) >> 8) & 0xff) as u8 == (length / 256) as u8) by (bit_vector);
    assert(length < 65536usize ==> ((length as u16) & 0xff) as u8 == (length % 256) as u8) by (bit_vector);

== fn crypto::pki::max_encoded_size ()
-- spec
    ensures r >= 72, //@C19

== fn crypto::pki::der_length (size)
-- spec
    ensures r == (if size < 128 { 1usize } else if size < 256 { 2 } else { 3 }), //@C19

== trait crypto::pki::EndEntityCert
    /// the DER bytes of the certificate
    spec fn leaf(&self) -> Seq<u8>;

== fn crypto::pki::EndEntityCert::verify_signature (self, algorithm, msg, signature)
-- spec
    requires crate::crypto::provider(), asym_ok(algorithm), 2 <= signature@.len() <= crate::config::MAX_SIGNATURE_SIZE,
    ensures r == sig_good(self.leaf(), algorithm, msg@, signature@), //@C14

== fn crypto::pki::EndEntityCert::verify_chain_of_trust (self, algorithm, intermediate_certs, root_cert, seconds_since_unix_epoch)
-- spec
    requires crate::crypto::provider(), asym_ok(algorithm),
    ensures r is Ok <==> chain_good(self.leaf(), algorithm, crate::ext::webpki::contents(intermediate_certs@), root_cert@, seconds_since_unix_epoch), //@C14

##if crypto
== mod crypto::ring::pki
use crate::crypto::pki::*;

== impl crypto::ring::pki::WebpkiEndEntityCert@EndEntityCert<'a>
    open spec fn leaf(&self) -> Seq<u8> { self.cert.bytes() }

== fn crypto::ring::pki::new_end_entity_cert (leaf_cert)
-- spec
    ensures
        r is Ok ==> r->Ok_0.leaf() == leaf_cert@, //@C14
        r is Ok <==> crate::ext::webpki::parses(leaf_cert@),

== fn crypto::ring::pki::WebpkiEndEntityCert::new (cert)
-- spec
    ensures
        r is Ok <==> crate::ext::webpki::parses(cert@),
        r is Ok ==> r->Ok_0.leaf() == cert@,

== fn crypto::ring::pki::spdm_to_webpki (algo)
-- spec
    requires asym_ok(algo),
    ensures r.id == asym_no(algo),

== fn crypto::ring::pki::WebpkiEndEntityCert::verify_signature@EndEntityCert<'a> (self, algorithm, msg, signature)
-- body
    der_sig_len(signature@);
-- after let size
    assert(der@.take(size as int) =~= der_sig(signature@));

== fn crypto::ring::pki::WebpkiEndEntityCert::verify_chain_of_trust@EndEntityCert<'a> (self, algorithm, intermediate_certs, root_cert, seconds_since_unix_epoch)
-- end
    assert(crate::ext::webpki::ids([algo]@) =~= seq![asym_no(algorithm)]);
    assert(crate::ext::webpki::ders(trust_anchors@) =~= seq![root_cert@]);

##end
== trait crypto::signing::Signer
    /// `sig` is a signature of `msg` made with the key of this signer
    spec fn signed(&self, msg: Seq<u8>, sig: &Self::Signature) -> bool;
    /// the size of the signatures
    spec fn sig_size(&self) -> Option<nat>;
    /// the signer fails to sign `msg`
    spec fn refuses(&self, msg: Seq<u8>) -> bool;

== mod crypto::signing
/// the bytes `b` are a signature of `msg` made with the key of `s`
pub open spec fn signed_bytes<S: Signer>(s: S, msg: Seq<u8>, b: Seq<u8>) -> bool {
    exists|x: S::Signature, r: &[u8]| s.signed(msg, &x) && #[trigger] crate::vx::AsRefSpec::<[u8]>::as_ref_ok(&x, r) && b == r@
}

== fn crypto::signing::Signer::sign (self, msg)
-- spec
    requires crate::crypto::provider(),
    ensures
        r is Ok ==> self.signed(msg@, &r->Ok_0), //@C15
        r is Err ==> self.refuses(msg@), //@C20
        r is Ok && self.sig_size() is Some ==> forall|b: &[u8]| #[trigger] crate::vx::AsRefSpec::<[u8]>::as_ref_ok(&r->Ok_0, b) ==> b@.len() == self.sig_size()->Some_0,

##if crypto
== impl crypto::ring::signing::RingSigner@Signer
    open spec fn signed(&self, msg: Seq<u8>, sig: &crate::ext::ring::signature::Signature) -> bool { crate::ext::ring::signature::made(self.key_pair, msg, sig.bytes()) }
    open spec fn refuses(&self, msg: Seq<u8>) -> bool { crate::ext::ring::signature::fails(self.key_pair, msg) }
    open spec fn sig_size(&self) -> Option<nat> { if self.key_pair.alg() == 1 { Some(64nat) } else if self.key_pair.alg() == 2 { Some(96nat) } else { None } }

== fn crypto::ring::signing::spdm_to_ring (algorithm)
-- spec
    requires crate::crypto::pki::asym_ok(algorithm),
    ensures r.id == crate::crypto::pki::asym_no(algorithm),

== fn crypto::ring::signing::new_signer (algorithm, private_key)
-- spec
    requires crate::crypto::pki::asym_ok(algorithm),
    ensures
        r is Ok ==> r->Ok_0.key_pair.key() == private_key@, //@C15
        r is Ok ==> r->Ok_0.key_pair.alg() == crate::crypto::pki::asym_no(algorithm), //@C15

== fn crypto::ring::signing::RingSigner::new (algorithm, private_key)
-- spec
    ensures r is Ok ==> r->Ok_0.key_pair.key() == private_key@ && r->Ok_0.key_pair.alg() == algorithm.id,
##end
##if crypto
##else
## The stand-ins compiled in without a crypto provider. Each of them panics: their contracts can only be called with a provider, that is never.
== fn crypto::no_crypto_defaults::ProvidedDigests::supported_algorithms ()
-- spec
    ensures r.bits == 1u32,

## A conversion cannot have a precondition: nothing calls this one (only the ring provider converts, its own type).
== fn crypto::no_crypto_defaults::ProvidedDigests::try_from@TryFrom<BaseHashAlgo> (_p0)
-- attr #[verifier::external_body]

== impl crypto::no_crypto_defaults::ProvidedDigests@Digests
    open spec fn no(&self) -> int { 0 }
    open spec fn st(&self) -> Seq<u8> { Seq::empty() }

== impl crypto::no_crypto_defaults::FakeSigner@Signer
    open spec fn signed(&self, msg: Seq<u8>, sig: &FakeSignature) -> bool { false }
    open spec fn refuses(&self, msg: Seq<u8>) -> bool { true }
    open spec fn sig_size(&self) -> Option<nat> { None }

== impl crypto::no_crypto_defaults::FakeEndEntityCert@EndEntityCert<'a>
    open spec fn leaf(&self) -> Seq<u8> { Seq::empty() }

== fn crypto::no_crypto_defaults::new_end_entity_cert (arg0)
-- spec
    requires crate::crypto::provider(),
    ensures r is Ok ==> r->Ok_0.leaf() == _p0@, r is Ok <==> crate::ext::webpki::parses(_p0@),

## Nor can this one: a value of the type only comes from FakeSigner::sign, which cannot be called.
== fn crypto::no_crypto_defaults::FakeSignature::as_ref@AsRef<[u8]> (self)
-- attr #[verifier::external_body]
##end
