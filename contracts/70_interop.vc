## Both sides together: what one honest endpoint sends the other accepts, and they end up agreeing.
== mod +interop
use vstd::prelude::*;
use crate::requester::{self, AllStates as Req};
use crate::responder::{self, AllStates as Rsp};
use crate::crypto::{NONCE, FilledSlot, signing::{Signer, signed_bytes}, digest::{hash_len, hashed}, pki::{sig_good, chain_good}};
use crate::msgs::*;
use crate::msgs::algorithms::{algo_type, algo_bits, algo_ok, algo_one, algos_off, algos_at, algos_body_len};
use crate::msgs::capabilities::{req_valid, rsp_valid, req_flag, rsp_flag};
use crate::msgs::digest::{mask_bit, digs_count};
use crate::config::{NUM_SLOTS, MAX_CERT_CHAIN_SIZE, TRANSCRIPT_SIZE};
verus! {
/// the requester in state `q` and the responder in state `p` are at the same point of one conversation:
/// same transcript, same capabilities, same algorithms, same certificate chain
pub open spec fn linked<'a, S: Signer>(q: Req, p: Rsp, slots: Seq<Option<FilledSlot<'a, S>>>, tq: Seq<u8>, tp: Seq<u8>) -> bool {
    &&& responder::live(p)
    &&& q is NewSession || requester::live(q)
    &&& match q {
        Req::Version(_) => true,
        Req::Capabilities(s) => tq == tp && p == Rsp::Capabilities(responder::capabilities::fresh())
            && s.version == requester::version::v11(),
        Req::Algorithms(s) => tq == tp && p is Algorithms && s.version == requester::version::v11()
            && s.requester_cap == p->Algorithms_0.requester_cap && s.responder_cap == p->Algorithms_0.responder_cap
            && s.requester_ct_exponent == p->Algorithms_0.requester_ct_exponent && s.responder_ct_exponent == p->Algorithms_0.responder_ct_exponent,
        Req::IdAuth(s) => tq == tp && p is IdAuth && s.version == requester::version::v11()
            && s.requester_cap == p->IdAuth_0.requester_cap && s.responder_cap == p->IdAuth_0.responder_cap
            && s.requester_ct_exponent == p->IdAuth_0.requester_ct_exponent && s.responder_ct_exponent == p->IdAuth_0.responder_ct_exponent
            && Algorithms::same(p->IdAuth_0.algorithms, s.algorithms),
        Req::Challenge(s) => tq == tp && p is Challenge && s.version == requester::version::v11()
            && s.requester_cap == p->Challenge_0.requester_cap && s.responder_cap == p->Challenge_0.responder_cap
            && s.requester_ct_exponent == p->Challenge_0.requester_ct_exponent && s.responder_ct_exponent == p->Challenge_0.responder_ct_exponent
            && Algorithms::same(p->Challenge_0.algorithms, s.algorithms)
            && s.cert_slot == 0 && s.chain() == responder::id_auth::cert_bytes(responder::chains_of(slots)[0]),
        Req::NewSession => tq == tp,
        Req::Error => false,
    }
}
/// exchanges left
pub open spec fn rank(q: Req) -> int {
    match q {
        Req::Version(_) => 6,
        Req::Capabilities(_) => 5,
        Req::Algorithms(_) => 4,
        Req::IdAuth(s) => if s.digests is None { 3 } else { 2 },
        Req::Challenge(_) => 1,
        _ => 0,
    }
}
/// the responder has a certificate chain in slot 0, and chains it can send
pub open spec fn provisioned<'a, S: Signer>(slots: Seq<Option<FilledSlot<'a, S>>>) -> bool {
    slots.len() == NUM_SLOTS && responder::slots_ok(slots) && responder::id_auth::all_writable(responder::chains_of(slots)) && slots[0] is Some
}
/// ... which leads to the root certificate of the requester, and whose private key the signer uses
pub open spec fn credible<'a, S: Signer>(slot: FilledSlot<'a, S>, a: Algorithms, root: Seq<u8>) -> bool {
    let c = slot.cert_chain;
    let g = a.base_asym_algo_selected;
    &&& c.root_hash@.len() == hash_len(a.base_hash_algo_selected)
    &&& crate::msgs::certificates::is_cert(c.leaf_cert@) && forall|i: int| 0 <= i < c.num_intermediate_certs ==> crate::msgs::certificates::is_cert(#[trigger] c.intermediate_certs@[i]@)
    &&& crate::ext::webpki::parses(c.leaf_cert@)
    &&& chain_good(c.leaf_cert@, g, crate::ext::webpki::contents(c.inters()), root, 1638316800)
    &&& forall|m: Seq<u8>, b: Seq<u8>| b.len() == 64 && #[trigger] signed_bytes(slot.signer, m, b) ==> sig_good(c.leaf_cert@, g, m, b)
}
/// the size of the response to the request of each state
pub open spec fn rsp_size<'a, S: Signer>(q: Req, p: Rsp, slots: Seq<Option<FilledSlot<'a, S>>>) -> int {
    match q {
        Req::Version(_) => 10,
        Req::Capabilities(_) => 12,
        Req::Algorithms(_) => 52,
        Req::IdAuth(s) => if s.digests is None {
                4 + responder::id_auth::digest_list(p->IdAuth_0.algorithms.base_hash_algo_selected, responder::chains_of(slots), NUM_SLOTS as nat).len() as int
            } else { 8 + responder::id_auth::cert_size(responder::chains_of(slots)[0]) },
        _ => responder::challenge::chal_size(p->Challenge_0),
    }
}
/// the part of it that goes into the transcripts
pub open spec fn rec_size<'a, S: Signer>(q: Req, p: Rsp, slots: Seq<Option<FilledSlot<'a, S>>>) -> int {
    if q is Challenge { rsp_size(q, p, slots) - 64 } else { rsp_size(q, p, slots) }
}

pub proof fn req_flags_valid(n: nat)
    requires requester::capabilities::all_known(crate::config::CAPABILITIES_spec()), n <= crate::config::CAPABILITIES_spec().len(),
    ensures req_valid(requester::capabilities::flags_of(crate::config::CAPABILITIES_spec(), n)),
    decreases n,
{
    let names = crate::config::CAPABILITIES_spec();
    assert(0u32 & !0x1ffc6u32 == 0) by (bit_vector);
    if n > 0 {
        req_flags_valid((n - 1) as nat);
        let x = requester::capabilities::flags_of(names, (n - 1) as nat);
        let f = req_flag(names[n - 1]);
        assert(f is Some);
        let y = f->Some_0.bits;
        assert(0x2u32 & !0x1ffc6u32 == 0 && 0x4u32 & !0x1ffc6u32 == 0 && 0x40u32 & !0x1ffc6u32 == 0 && 0x80u32 & !0x1ffc6u32 == 0 && 0x100u32 & !0x1ffc6u32 == 0
            && 0x200u32 & !0x1ffc6u32 == 0 && 0x400u32 & !0x1ffc6u32 == 0 && 0x1000u32 & !0x1ffc6u32 == 0 && 0x2000u32 & !0x1ffc6u32 == 0 && 0x4000u32 & !0x1ffc6u32 == 0
            && 0x8000u32 & !0x1ffc6u32 == 0 && 0x10000u32 & !0x1ffc6u32 == 0) by (bit_vector);
        assert(req_valid(y));
        assert(x & !0x1ffc6u32 == 0 && y & !0x1ffc6u32 == 0 ==> (x | y) & !0x1ffc6u32 == 0) by (bit_vector);
    }
}
pub proof fn rsp_flags_valid(n: nat)
    requires responder::capabilities::all_known(crate::config::CAPABILITIES_spec()), n <= crate::config::CAPABILITIES_spec().len(),
    ensures rsp_valid(responder::capabilities::flags_of(crate::config::CAPABILITIES_spec(), n)),
    decreases n,
{
    let names = crate::config::CAPABILITIES_spec();
    assert(0u32 & !0x1ffffu32 == 0) by (bit_vector);
    if n > 0 {
        rsp_flags_valid((n - 1) as nat);
        let x = responder::capabilities::flags_of(names, (n - 1) as nat);
        let f = rsp_flag(names[n - 1]);
        assert(f is Some);
        let y = f->Some_0.bits;
        assert(y & !0x1ffffu32 == 0) by (bit_vector) requires y == 1 || y == 2 || y == 4 || y == 0x20 || y == 0x40 || y == 0x80 || y == 0x100 || y == 0x200 || y == 0x400 || y == 0x1000
            || y == 0x2000 || y == 0x4000 || y == 0x8000 || y == 0x10000;
        assert(x & !0x1ffffu32 == 0 && y & !0x1ffffu32 == 0 ==> (x | y) & !0x1ffffu32 == 0) by (bit_vector);
    }
}
/// bodies start behind the header
pub proof fn behind(v: u8, c: u8, b: Seq<u8>)
    ensures responder::rest(seq![v, c] + b) == b, (seq![v, c] + b)[0] == v, (seq![v, c] + b)[1] == c, (seq![v, c] + b).len() == b.len() + 2,
{
    assert(responder::rest(seq![v, c] + b) =~= b);
}

// ---- VERSION
pub proof fn version_agreed(t: Seq<u8>, req: Seq<u8>) //@C24
    requires req == seq![0x10u8, 0x84, 0, 0],
    ensures
        responder::gv(req),
        req.len() + 10 <= TRANSCRIPT_SIZE ==> requester::version::version_ok(req, responder::version_rsp()),
        requester::version::best(responder::rest(responder::version_rsp())) == Some(requester::version::v11()),
{
    let out = responder::version_rsp();
    let b = responder::rest(out);
    assert(b =~= seq![0u8, 0, 0, 2, 0, 0x10, 0, 0x11]);
    assert(0u8 & 15 == 0 && (0u8 >> 4) & 15 == 0 && 0x11u8 & 15 == 1 && (0x11u8 >> 4) & 15 == 1) by (bit_vector);
    assert(requester::version::entry(b, 1) == requester::version::v11());
}

// ---- CAPABILITIES
pub proof fn capabilities_agreed(t: Seq<u8>, s: requester::capabilities::State, s1: requester::capabilities::State, req: Seq<u8>) //@C24
    requires requester::capabilities::sent(s, req, s1),
    ensures
        responder::hdr::<GetCapabilities>(req), req.len() == 12, GetCapabilities::accepts(responder::rest(req)),
        GetCapabilities::parsed(responder::rest(req)) == requester::capabilities::request(),
        forall|out: Seq<u8>| out == seq![0x11u8, 0x61] + responder::capabilities::supported().body() ==> {
            &&& out.len() == 12 && responder::hdr::<Capabilities>(out) && #[trigger] Capabilities::accepts(responder::rest(out))
            &&& Capabilities::parsed(responder::rest(out)) == responder::capabilities::supported()
        },
{
    assert(requester::capabilities::all_known(crate::config::CAPABILITIES_spec()));
    assert(responder::capabilities::all_known(crate::config::CAPABILITIES_spec()));
    req_flags_valid(crate::config::CAPABILITIES_spec().len());
    rsp_flags_valid(crate::config::CAPABILITIES_spec().len());
    let m = requester::capabilities::request();
    let r = responder::capabilities::supported();
    behind(0x11, 0xe1, m.body());
    behind(0x11, 0x61, r.body());
    GetCapabilities::round_trip(m, Seq::empty());
    Capabilities::round_trip(r, Seq::empty());
    assert(m.body() + Seq::<u8>::empty() =~= m.body());
    assert(r.body() + Seq::<u8>::empty() =~= r.body());
}

// ---- ALGORITHMS
/// what a NEGOTIATE_ALGORITHMS of this requester looks like to the responder
pub open spec fn reads(b: Seq<u8>, q: NegotiateAlgorithms) -> bool {
    &&& NegotiateAlgorithms::accepts(b) && b[0] == 4 && b[4] == 1
    &&& crate::vx::rd32(b, 6) == 0x10 && crate::vx::rd32(b, 10) == crate::crypto::hashes()
    &&& forall|k: int| 0 <= k < 4 ==> responder::algorithms::offered(b, k) == algo_bits(#[trigger] q.algorithm_requests@[k]) && b[responder::algorithms::at(b, k)] == algo_type(q.algorithm_requests@[k])
}
/// the request can be negotiated
pub proof fn algorithms_requested(s: requester::algorithms::State, s1: requester::algorithms::State, req: Seq<u8>) //@C24
    requires requester::algorithms::sent(s, req, s1),
    ensures
        responder::hdr::<NegotiateAlgorithms>(req), req.len() == 48, reads(responder::rest(req), s1.negotiate_algorithms->Some_0), responder::algorithms::negotiable(responder::rest(req)),
{
    let q = s1.negotiate_algorithms->Some_0;
    let b = responder::rest(req);
    behind(0x11, 0xe3, q.body());
    algos_body_len(q.algorithm_requests@, 4);
    NegotiateAlgorithms::round_trip(q, Seq::empty(), q);
    assert(q.body() + Seq::<u8>::empty() =~= b);
    let h = crate::msgs::algorithms::neg_head(4, 48, q.measurement_spec.bits, q.base_asym_algo.bits, q.base_hash_algo.bits);
    let l = crate::msgs::algorithms::algos_body(q.algorithm_requests@, 4);
    assert(b == h + l);
    assert(h.len() == 30);
    assert(forall|i: int| 0 <= i < 30 ==> b[i] == h[i]);
    crate::vx::rd32_of(b, 6, q.base_asym_algo.bits);
    crate::vx::rd32_of(b, 10, q.base_hash_algo.bits);
    assert(b =~= h + l + Seq::<u8>::empty());
    crate::msgs::algorithms::algos_round_trip(h, q.algorithm_requests@, 4, Seq::empty(), b);
    assert(NegotiateAlgorithms::reqs_at(b) == 30);
    assert forall|k: int| 0 <= k < 4 implies responder::algorithms::offered(b, k) == algo_bits(#[trigger] q.algorithm_requests@[k])
        && b[responder::algorithms::at(b, k)] == algo_type(q.algorithm_requests@[k]) by {
        assert(crate::msgs::algorithms::algo_at(b, algos_off(b, 30, k as nat), q.algorithm_requests@[k]));
    }
    assert(7u32 & 7 != 0 && 1u32 & 1 != 0 && 0x10u32 & 0x10 != 0) by (bit_vector);
    assert forall|k: int| 0 <= k < 4 implies #[trigger] responder::algorithms::offered(b, k) != 0 by { let x = q.algorithm_requests@[k]; assert(algo_bits(x) != 0); }
}
/// a selection from the request is well formed
pub proof fn selection_wf(q: NegotiateAlgorithms, b: Seq<u8>, a: Algorithms)
    requires requester::algorithms::is_request(q), reads(b, q), responder::algorithms::chosen(b, a),
    ensures
        a.wf(), a.num_algorithm_responses == 4, a.measurement_spec_selected.bits == 1, a.measurement_hash_algo_selected == a.base_hash_algo_selected,
        requester::algorithms::only32(a.base_hash_algo_selected.bits, crate::crypto::hashes()), requester::algorithms::only32(a.base_asym_algo_selected.bits, 0x10),
        forall|k: int| 0 <= k < 4 ==> algo_type(#[trigger] a.algorithm_responses@[k]) == algo_type(q.algorithm_requests@[k])
            && requester::algorithms::only16(algo_bits(a.algorithm_responses@[k]), algo_bits(q.algorithm_requests@[k])),
{
    let x = a.base_hash_algo_selected.bits;
    let y = a.base_asym_algo_selected.bits;
    let hs = crate::crypto::hashes();
    assert(x & (hs & hs) == x ==> x & !0x3fu32 == 0 && x & hs == x) by (bit_vector) requires hs == 7 || hs == 1;
    assert(y & (0x10u32 & 0x10) == y ==> y & !0x1ffu32 == 0 && y & 0x10 == y) by (bit_vector);
    assert(1u8 & !1u8 == 0 && 1u8 & sub(1u8, 1) == 0) by (bit_vector);
    assert forall|k: int| 0 <= k < 4 implies algo_ok(#[trigger] a.algorithm_responses@[k]) && algo_one(a.algorithm_responses@[k])
        && algo_type(a.algorithm_responses@[k]) == algo_type(q.algorithm_requests@[k])
        && requester::algorithms::only16(algo_bits(a.algorithm_responses@[k]), algo_bits(q.algorithm_requests@[k])) by {
        let z = algo_bits(a.algorithm_responses@[k]);
        let w = algo_bits(q.algorithm_requests@[k]);
        assert(responder::algorithms::offered(b, k) == w);
        assert(algo_ok(q.algorithm_requests@[k]));
        assert(z & w == z ==> (w & !0x3fu16 == 0 ==> z & !0x3fu16 == 0) && (w & !0x7u16 == 0 ==> z & !0x7u16 == 0)
            && (w & !0x1ffu16 == 0 ==> z & !0x1ffu16 == 0) && (w & !0x1u16 == 0 ==> z & !0x1u16 == 0)) by (bit_vector);
    }
}
/// what the responder then answers selects what was offered, and both sides know the same selection
pub proof fn algorithms_agreed(s: requester::algorithms::State, s1: requester::algorithms::State, req: Seq<u8>, a: Algorithms, out: Seq<u8>) //@C24
    requires requester::algorithms::sent(s, req, s1), responder::algorithms::chosen(responder::rest(req), a), out == seq![0x11u8, 0x63] + a.body(),
    ensures
        out.len() == 52, responder::hdr::<Algorithms>(out), Algorithms::accepts(responder::rest(out)), requester::algorithms::accepted(s1, responder::rest(out)),
        forall|a2: Algorithms| #[trigger] Algorithms::parsed(responder::rest(out), a2) ==> Algorithms::same(a, a2),
{
    let q = s1.negotiate_algorithms->Some_0;
    let b = responder::rest(req);
    let r = responder::rest(out);
    algorithms_requested(s, s1, req);
    selection_wf(q, b, a);
    behind(0x11, 0x63, a.body());
    algos_body_len(a.algorithm_responses@, 4);
    Algorithms::round_trip(a, Seq::empty(), a);
    assert(a.body() + Seq::<u8>::empty() =~= r);
    assert forall|a2: Algorithms| #[trigger] Algorithms::parsed(r, a2) implies Algorithms::same(a, a2) by { Algorithms::round_trip(a, Seq::empty(), a2); }
    let x = a.base_hash_algo_selected.bits;
    let y = a.base_asym_algo_selected.bits;
    let g = crate::msgs::algorithms::alg_head(4, 52, a.measurement_spec_selected.bits, a.measurement_hash_algo_selected.bits, y, x);
    let l = crate::msgs::algorithms::algos_body(a.algorithm_responses@, 4);
    assert(r == g + l);
    assert(g.len() == 34);
    assert(forall|i: int| 0 <= i < 34 ==> r[i] == g[i]);
    crate::vx::rd32_of(r, 6, x);
    crate::vx::rd32_of(r, 10, y);
    crate::vx::rd32_of(r, 14, x);
    assert(r =~= g + l + Seq::<u8>::empty());
    crate::msgs::algorithms::algos_round_trip(g, a.algorithm_responses@, 4, Seq::empty(), r);
    assert forall|k: nat, i: int| 0 <= k < r[0] && 0 <= i < q.num_algorithm_requests && r[#[trigger] algos_off(r, 34, k)] == algo_type(#[trigger] q.algorithm_requests@[i])
        implies requester::algorithms::only16(crate::vx::rd16(r, algos_off(r, 34, k) + 2), algo_bits(q.algorithm_requests@[i])) by {
        assert(crate::msgs::algorithms::algo_at(r, algos_off(r, 34, k), a.algorithm_responses@[k as int]));
        assert(algo_type(q.algorithm_requests@[k as int]) == algo_type(a.algorithm_responses@[k as int]));
        assert(i == k);
    }
}

// ---- DIGESTS and CERTIFICATE
pub proof fn digests_agreed<'a, S: Signer>(s: requester::id_auth::State, p: responder::id_auth::State, slots: Seq<Option<FilledSlot<'a, S>>>, out: Seq<u8>) //@C24
    requires
        Algorithms::same(p.algorithms, s.algorithms), responder::id_auth::digests_out(p, responder::chains_of(slots), out),
    ensures responder::hdr::<Digests>(out), Digests::accepts(responder::rest(out), hash_len(s.algorithms.base_hash_algo_selected)),
{
}
pub proof fn certificate_agreed<'a, S: Signer>(slots: Seq<Option<FilledSlot<'a, S>>>, out: Seq<u8>) //@C24
    requires
        provisioned(slots), responder::id_auth::cert_out(responder::chains_of(slots), requester::id_auth::ask(0), out),
    ensures
        GetCertificate::accepts(responder::rest(requester::id_auth::ask(0))), responder::rest(requester::id_auth::ask(0))[0] == 0,
        responder::hdr::<Certificate>(out), Certificate::accepts(responder::rest(out)), responder::rest(out)[0] == 0,
        ({
            let b = responder::rest(out);
            b.subrange(6, 6 + crate::vx::rd16(b, 2)) == slots[0]->Some_0.cert_chain.bytes()
        }),
{
    asked();
    let c = slots[0]->Some_0.cert_chain;
    let b = responder::rest(out);
    let n = c.size() as u16;
    assert(responder::chains_of(slots)[0] == Some(c));
    assert(responder::id_auth::writable(responder::chains_of(slots)[0]));
    assert(responder::slot_ok(slots[0]->Some_0));
    crate::msgs::certificates::certs_body_len(c.intermediate_certs@, c.n());
    assert(c.bytes().len() == c.size());
    assert(b =~= seq![0u8, 0] + crate::vx::le16(n) + seq![0u8, 0] + c.bytes());
    crate::vx::rd16_of(b, 2, n);
    assert(b.subrange(6, 6 + n) =~= c.bytes());
}
pub proof fn asked()
    ensures
        responder::hdr::<GetCertificate>(requester::id_auth::ask(0)), requester::id_auth::ask(0).len() == 8,
        GetCertificate::accepts(responder::rest(requester::id_auth::ask(0))), responder::rest(requester::id_auth::ask(0))[0] == 0,
{
    let b = responder::rest(requester::id_auth::ask(0));
    assert(b =~= seq![0u8, 0u8] + crate::vx::le16(0) + crate::vx::le16(MAX_CERT_CHAIN_SIZE as u16));
    crate::vx::rd16_of(b, 2, 0);
    crate::vx::rd16_of(b, 4, MAX_CERT_CHAIN_SIZE as u16);
}

// ---- CHALLENGE
/// an honest CHALLENGE_AUTH is authentic
pub proof fn challenge_agreed<'a, S: Signer>(s: requester::challenge::State, p: responder::challenge::State, slots: Seq<Option<FilledSlot<'a, S>>>, t: Seq<u8>, req: Seq<u8>,
    s1: requester::challenge::State, out: Seq<u8>, t2: Seq<u8>, p2: Rsp, root: Seq<u8>) //@C24
    requires
        linked(Req::Challenge(s), Rsp::Challenge(p), slots, t, t), provisioned(slots), credible(slots[0]->Some_0, p.algorithms, root),
        requester::challenge::sent(s, req, s1), responder::challenge::step(p, slots, t, req, out, t2, p2),
    ensures requester::challenge::authentic(s1, t + req, out, root),
{
    let a = s.algorithms.base_hash_algo_selected;
    let d = hash_len(a);
    let b = responder::rest(out);
    let c = slots[0]->Some_0.cert_chain;
    let n = out.len() - 64;
    assert(responder::rest(req)[0] == 0 && req[2] == 0);
    assert(responder::chains_of(slots)[0] == Some(c));
    assert(0u8 & 15 == 0 && 0x80u8 & 15 == 0 && 0u8 | 0x80u8 == 0x80u8) by (bit_vector);
    assert(b[0] == out[2] && b[1] == out[3]);
    assert(slots[0] is Some);
    assert(mask_bit(out[3], 0));
    assert(b.subrange(2, 2 + d) =~= out.subrange(4, 4 + d));
    let o = 4 + NONCE + 2 * d;
    let z = out.subrange(o, n);
    assert(n == o + 6);
    assert(z[0] == out[o] && z[1] == out[o + 1] && z[2] == out[o + 2] && z[3] == out[o + 3] && z[4] == out[o + 4] && z[5] == out[o + 5]);
    assert(b[o - 2] == 4 && b[o - 1] == 0 && b[o] == 0 && b[o + 1] == 0 && b[o + 2] == 0 && b[o + 3] == 0);
    assert(4u16 | (0u16 << 8) == 4) by (bit_vector);
    assert(crate::vx::rd16(b, 2 + NONCE + 2 * d) == 4);
    assert(ChallengeAuth::opaque_off(d) == o);
    assert(OpaqueData::acc(b, o));
    assert(OpaqueData::end(b, o) == o + 4);
    let sig = b.subrange(o + 4, o + 4 + 64);
    assert(sig =~= out.skip(n));
    assert(t2 =~= (t + req) + out.take(n));
    let msg = hashed(a, (t + req) + out.take(n));
    assert(signed_bytes(slots[0]->Some_0.signer, msg, sig));
    CertificateChain::round_trip(c, d, c);
    crate::msgs::certificates::certs_body_len(c.intermediate_certs@, c.n());
    assert(responder::slot_ok(slots[0]->Some_0));
    assert(CertificateChain::parsed(c.bytes(), d, c));
    assert(s1.chain() == c.bytes());
    assert(requester::challenge::proven(s1, c, msg, sig, root, 1638316800));
    assert(responder::hdr::<ChallengeAuth>(out));
    assert(b[0] & 15 == 0);
    assert(ChallengeAuth::accepts(b, d, 64));
    assert(ChallengeAuth::sig_off(b, d) == o + 4);
    assert(b.subrange(2, 2 + d) == hashed(a, s1.chain()));
}

// ---- one exchange
/// an honest request is answered: the responder only fails when its signer does
pub proof fn request_granted<'a, S: Signer>(q: Req, q1: Req, p: Rsp, slots: Seq<Option<FilledSlot<'a, S>>>, tq: Seq<u8>, tq1: Seq<u8>, tp: Seq<u8>, req: Seq<u8>, room: int) //@C24
    requires
        linked(q, p, slots, tq, tp), !(q is NewSession), provisioned(slots), requester::sent(q, tq, req, tq1, q1),
        room >= rsp_size(q, p, slots), tq1.len() + rec_size(q, p, slots) <= TRANSCRIPT_SIZE,
    ensures responder::granted(p, slots, tp, req, room),
{
    match q {
        Req::Version(s) => { version_agreed(tp, req); }
        Req::Capabilities(s) => { capabilities_agreed(tp, s, q1->Capabilities_0, req); }
        Req::Algorithms(s) => { algorithms_requested(s, q1->Algorithms_0, req); }
        Req::IdAuth(s) => {
            if s.digests is None {
                assert(responder::rest(req) =~= seq![0u8, 0]);
            } else {
                asked();
                assert(responder::id_auth::writable(responder::chains_of(slots)[0]));
            }
        }
        Req::Challenge(s) => {
            let b = responder::rest(req);
            assert(b[0] == req[2] && b[1] == req[3]);
            assert(responder::chains_of(slots)[0] == Some(slots[0]->Some_0.cert_chain));
            assert(responder::id_auth::writable(responder::chains_of(slots)[0]));
        }
        _ => {}
    }
}
/// its response is accepted, leads both sides to the same point of the conversation, and one step nearer to the end
pub proof fn response_accepted<'a, S: Signer>(q: Req, q1: Req, p: Rsp, p2: Rsp, slots: Seq<Option<FilledSlot<'a, S>>>, tq: Seq<u8>, tq1: Seq<u8>, tp: Seq<u8>, tp2: Seq<u8>,
    req: Seq<u8>, room: int, out: Seq<u8>, root: Seq<u8>, tq2: Seq<u8>, q2: Req) //@C24
    requires
        linked(q, p, slots, tq, tp), !(q is NewSession), provisioned(slots), requester::sent(q, tq, req, tq1, q1), requester::live(q1),
        responder::handled(p, slots, tp, req, room, out, tp2, p2, Ok(())), tp2.len() <= TRANSCRIPT_SIZE,
        p is Challenge && q is Challenge ==> credible(slots[0]->Some_0, p->Challenge_0.algorithms, root),
    ensures
        requester::acceptable(q1, root, tq1, out),
        requester::step(q1, root, tq1, out, tq2, q2) && requester::inv(q2) ==> linked(q2, p2, slots, tq2, tp2) && rank(q2) < rank(q),
{
    match q {
        Req::Version(s) => {
            version_agreed(tp, req);
        }
        Req::Capabilities(s) => {
            capabilities_agreed(tp, s, q1->Capabilities_0, req);
            assert(Capabilities::accepts(responder::rest(out)));
            assert(tp2 =~= tq1 + out);
        }
        Req::Algorithms(s) => {
            assert(tp2 =~= tq1 + out);
            algorithms_agreed(s, q1->Algorithms_0, req, p2->IdAuth_0.algorithms, out);
        }
        Req::IdAuth(s) => {
            assert(tp2 =~= tq1 + out);
            if s.digests is None {
                digests_agreed(s, p->IdAuth_0, slots, out);
            } else {
                asked();
                certificate_agreed(slots, out);
                assert(responder::chains_of(slots)[0] == Some(slots[0]->Some_0.cert_chain));
            }
        }
        Req::Challenge(s) => {
            challenge_agreed(s, p->Challenge_0, slots, tp, req, q1->Challenge_0, out, tp2, p2, root);
            assert(tp2 =~= tq1 + out.take(out.len() - 64));
        }
        _ => {}
    }
}
}
