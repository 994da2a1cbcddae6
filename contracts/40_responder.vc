## The responder: one contract per state, composed into AllStates and Responder.
== inherent responder::algorithms::State@From<capabilities::State>
== inherent responder::id_auth::State@From<algorithms::State>

== mod responder
use crate::config::TRANSCRIPT_SIZE;
use crate::msgs::GetVersion;
/// the message starts with the version and code of `M`
pub open spec fn hdr<M: Msg>(b: Seq<u8>) -> bool { b.len() >= 2 && b[0] == M::ver() && b[1] == M::code() }
/// the message body
pub open spec fn rest(b: Seq<u8>) -> Seq<u8> { b.subrange(2, b.len() as int) }
/// a request and its response fit into a transcript holding `t`
pub open spec fn fits(t: Seq<u8>, n: int) -> bool { t.len() + n <= TRANSCRIPT_SIZE }

/// the one VERSION response: versions 1.0 and 1.1
pub open spec fn version_rsp() -> Seq<u8> { seq![0x10u8, 0x04, 0, 0, 0, 2, 0, 0x10, 0, 0x11] }
pub open spec fn gv(b: Seq<u8>) -> bool { hdr::<GetVersion>(b) && rest(b).len() >= 2 && crate::vx::zeros(rest(b), 0, 2) }
/// a GET_VERSION that is answered
pub open spec fn reset_ok(req: Seq<u8>, room: int) -> bool { gv(req) && room >= 10 && req.len() + 10 <= TRANSCRIPT_SIZE }
/// ... which restarts the protocol with a transcript of just this exchange
pub open spec fn reset(req: Seq<u8>, out: Seq<u8>, t2: Seq<u8>, st: AllStates) -> bool {
    out == version_rsp() && t2 == req + out && st == AllStates::Capabilities(capabilities::fresh())
}
/// states in which the responder still accepts requests, with usable selections
pub open spec fn live(st: AllStates) -> bool {
    match st {
        AllStates::Error => false,
        AllStates::IdAuth(s) => id_auth::selected(s.algorithms),
        AllStates::Challenge(s) => id_auth::selected(s.algorithms),
        _ => true,
    }
}
/// a provisioned slot: its chain can be serialized and its signer yields signatures of the only supported size
pub open spec fn slot_ok<'a, S: Signer>(s: FilledSlot<'a, S>) -> bool {
    crate::crypto::provider() && s.cert_chain.inv() && s.cert_chain.size() <= usize::MAX && s.signer.sig_size() == Some(64nat)
}
pub open spec fn slots_ok<'a, S: Signer>(s: Seq<Option<FilledSlot<'a, S>>>) -> bool {
    forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Some ==> slot_ok(s[i]->Some_0)
}
/// the certificate chains of the slots
pub open spec fn chains_of<'a, S: Signer>(s: Seq<Option<FilledSlot<'a, S>>>) -> Seq<Option<crate::msgs::CertificateChain<'a>>> {
    Seq::new(s.len(), |i: int| match s[i] { Some(x) => Some(x.cert_chain), None => None })
}
/// the output of a failed request: an ERROR message, or nothing when there is no room for one
pub open spec fn error_out(e: ResponderError, room: int, out: Seq<u8>) -> bool {
    let m = error::reported(e);
    let w = seq![0x12u8, 0x7f] + m.body();
    if room >= w.len() { out == w } else { out.len() == 0 }
}
/// why a message has no acceptable header where `m`, `n` and GET_VERSION are expected
pub open spec fn head_fault(req: Seq<u8>, m: u8, n: u8, e: ResponderError) -> bool {
    match e {
        ResponderError::ParseHeader => req.len() < 2 || (req[1] == 0x84 && req[0] != 0x10) || (req[1] != 0x84 && (req[1] == m || req[1] == n) && req[0] != 0x11),
        ResponderError::UnexpectedMsgCode { expected, got } => req.len() >= 2 && got == req[1] && req[1] != 0x84 && req[1] != m && req[1] != n,
        _ => false,
    }
}
/// why a GET_VERSION is refused
pub open spec fn gv_fault(req: Seq<u8>, room: int, e: ResponderError) -> bool {
    hdr::<GetVersion>(req) && match e {
        ResponderError::Read(x) => crate::msgs::empty_fault(rest(req), x),
        ResponderError::BufferFull => gv(req) && (room < 10 || req.len() + 10 > TRANSCRIPT_SIZE),
        _ => false,
    }
}
/// why a request is refused in a state
pub open spec fn fault<'a, S: Signer>(st: AllStates, slots: Seq<Option<FilledSlot<'a, S>>>, t: Seq<u8>, req: Seq<u8>, room: int, e: ResponderError) -> bool {
    gv_fault(req, room, e) || match st {
        AllStates::Version(s) => head_fault(req, 0x84, 0x84, e),
        AllStates::Capabilities(s) => head_fault(req, 0xe1, 0xe1, e) || capabilities::fault(t, req, room, e),
        AllStates::Algorithms(s) => head_fault(req, 0xe3, 0xe3, e) || algorithms::fault(t, req, room, e),
        AllStates::IdAuth(s) => head_fault(req, 0x81, 0x82, e) || id_auth::fault(s, chains_of(slots), t, req, room, e),
        AllStates::Challenge(s) => head_fault(req, 0x83, 0x83, e) || challenge::fault(s, slots, t, req, room, e),
        _ => false,
    }
}
/// exactly the requests that are answered in a state, unless the signer refuses
pub open spec fn granted<'a, S: Signer>(st: AllStates, slots: Seq<Option<FilledSlot<'a, S>>>, t: Seq<u8>, req: Seq<u8>, room: int) -> bool {
    if hdr::<GetVersion>(req) { reset_ok(req, room) } else {
        match st {
            AllStates::Capabilities(s) => capabilities::caps_ok(t, req, room),
            AllStates::Algorithms(s) => algorithms::alg_ok(t, req, room),
            AllStates::IdAuth(s) => id_auth::digests_ok(s, chains_of(slots), t, req, room) || id_auth::cert_ok(chains_of(slots), t, req, room),
            AllStates::Challenge(s) => challenge::chal_ok(s, slots, t, req, room),
            _ => false,
        }
    }
}
/// everything one call of the responder promises
pub open spec fn handled<'a, S: Signer>(st: AllStates, slots: Seq<Option<FilledSlot<'a, S>>>, t: Seq<u8>, req: Seq<u8>, room: int,
    out: Seq<u8>, t2: Seq<u8>, st2: AllStates, res: Result<(), ResponderError>) -> bool {
    &&& res is Err ==> st2 == AllStates::Error && error_out(res->Err_0, room, out) && fault(st, slots, t, req, room, res->Err_0)
    &&& res is Ok ==> live(st2)
    &&& res is Ok && hdr::<GetVersion>(req) ==> gv(req) && reset(req, out, t2, st2)
    &&& res is Ok && !hdr::<GetVersion>(req) ==> match st {
        AllStates::Capabilities(s) => capabilities::step(t, req, out, t2, st2),
        AllStates::Algorithms(s) => algorithms::step(s, t, req, out, t2, st2),
        AllStates::IdAuth(s) => id_auth::step(s, chains_of(slots), t, req, out, t2, st2),
        AllStates::Challenge(s) => challenge::step(s, slots, t, req, out, t2, st2),
        _ => false,
    }
    &&& reset_ok(req, room) ==> res is Ok
    &&& res is Ok ==> granted(st, slots, t, req, room)
    &&& granted(st, slots, t, req, room) && res is Err ==> st is Challenge && !hdr::<GetVersion>(req) && res->Err_0 is SigningFailed
}

== fn responder::expect (buf)
-- spec
    ensures
        r is Ok <==> hdr::<T>(buf@), //@C12
        r is Err ==> match r->Err_0 {
            ResponderError::ParseHeader => buf@.len() < 2 || (buf@[1] == T::code() && buf@[0] != T::ver()),
            ResponderError::UnexpectedMsgCode { expected, got } => buf@.len() >= 2 && buf@[1] != T::code() && got == buf@[1],
            _ => false,
        }, //@C20
        buf@.len() >= 2 && buf@[1] != T::code() ==> r == Err::<(), ResponderError>(ResponderError::UnexpectedMsgCode { expected: T::code(), got: buf@[1] }), //@C12
-- body
    T::consts();

== mod responder::version
pub proof fn version_bytes(v: Version)
    requires v.num_entries == 2, v.entries@[0] == (crate::msgs::version::VersionEntry { major: 1, minor: 0, update: 0, alpha: 0 }),
        v.entries@[1] == (crate::msgs::version::VersionEntry { major: 1, minor: 1, update: 0, alpha: 0 }),
    ensures seq![Version::ver(), Version::code()] + v.body() =~= super::version_rsp(),
{
    assert(0u8 | (0u8 << 4) == 0 && 0u8 | (1u8 << 4) == 0x10 && 1u8 | (1u8 << 4) == 0x11) by (bit_vector);
}

== fn responder::version::State::handle_get_version (self, req, rsp, transcript)
-- spec
    requires old(transcript).wf(), super::hdr::<GetVersion>(req@),
    ensures
        final(transcript).wf(), final(rsp)@.len() == old(rsp)@.len(),
        r is Err ==> super::gv_fault(req@, old(rsp)@.len() as int, r->Err_0), //@C20
        r is Ok <==> super::reset_ok(req@, old(rsp)@.len() as int), //@C16
        r is Ok ==> r->Ok_0.0 == 10 && super::reset(req@, final(rsp)@.take(10), final(transcript).bytes(), r->Ok_0.1), //@C16,C11
-- before let size = Version::default().write(rsp)?;
    assert forall|v: Version| v.num_entries == 2 && v.entries@[0] == (crate::msgs::version::VersionEntry { major: 1, minor: 0, update: 0, alpha: 0 })
        && v.entries@[1] == (crate::msgs::version::VersionEntry { major: 1, minor: 1, update: 0, alpha: 0 })
        implies seq![Version::ver(), Version::code()] + #[trigger] v.body() =~= super::version_rsp() by { version_bytes(v); }
-- after let size = Version::default().write(rsp)?;
    assert(rsp@.take(10) =~= super::version_rsp());

== fn responder::version::State::handle_msg (self, req, rsp, transcript)
-- spec
    requires old(transcript).wf(),
    ensures
        final(transcript).wf(), final(rsp)@.len() == old(rsp)@.len(),
        r is Err ==> super::gv_fault(req@, old(rsp)@.len() as int, r->Err_0) || super::head_fault(req@, 0x84, 0x84, r->Err_0), //@C20
        r is Ok <==> super::reset_ok(req@, old(rsp)@.len() as int), //@C12,C16
        r is Ok ==> r->Ok_0.0 == 10 && super::reset(req@, final(rsp)@.take(10), final(transcript).bytes(), r->Ok_0.1), //@C16,C11

== mod responder::capabilities
use crate::msgs::capabilities::rsp_flag;
pub open spec fn fresh() -> State { State { requester_ct_exponent: None, requester_cap: None, responder_ct_exponent: None, responder_cap: None } }
pub open spec fn full(s: State) -> bool {
    s.requester_ct_exponent is Some && s.requester_cap is Some && s.responder_ct_exponent is Some && s.responder_cap is Some
}
/// the union of the flags of the first `n` names
pub open spec fn flags_of(names: Seq<&str>, n: nat) -> u32 decreases n {
    if n == 0 { 0 } else {
        flags_of(names, (n - 1) as nat) | (match rsp_flag(names[n - 1]) { Some(f) => f.bits, None => 0 })
    }
}
pub open spec fn all_known(names: Seq<&str>) -> bool { forall|i: int| 0 <= i < names.len() ==> rsp_flag(#[trigger] names[i]) is Some }
/// what this responder advertises: exactly the configured capabilities
pub open spec fn supported() -> Capabilities {
    Capabilities { ct_exponent: 12, flags: RspFlags { bits: flags_of(config::CAPABILITIES_spec(), config::CAPABILITIES_spec().len()) } }
}
pub open spec fn caps_ok(t: Seq<u8>, req: Seq<u8>, room: int) -> bool {
    super::hdr::<GetCapabilities>(req) && GetCapabilities::accepts(super::rest(req)) && room >= 12 && super::fits(t, req.len() as int + 12)
}
/// why a GET_CAPABILITIES is refused
pub open spec fn fault(t: Seq<u8>, req: Seq<u8>, room: int, e: ResponderError) -> bool {
    super::hdr::<GetCapabilities>(req) && match e {
        ResponderError::ParseGetCapabilities(x) => GetCapabilities::fault(super::rest(req), x),
        ResponderError::BufferFull => room < 12 || !super::fits(t, req.len() as int + 12),
        _ => false,
    }
}
pub open spec fn step(t: Seq<u8>, req: Seq<u8>, out: Seq<u8>, t2: Seq<u8>, st2: AllStates) -> bool {
    let m = GetCapabilities::parsed(super::rest(req));
    &&& super::hdr::<GetCapabilities>(req) && GetCapabilities::accepts(super::rest(req))
    &&& out == seq![0x11u8, 0x61] + supported().body()
    &&& t2 == t + req + out
    &&& st2 == AllStates::Algorithms(algorithms::State {
        requester_ct_exponent: m.ct_exponent, requester_cap: m.flags, responder_ct_exponent: 12, responder_cap: supported().flags, algorithms: None })
}

== fn responder::capabilities::State::default@Default ()
-- spec
    ensures r == fresh(),

== fn responder::capabilities::State::new ()
-- spec
    ensures r == fresh(), //@C16

== fn responder::capabilities::config_to_capabilities_msg ()
-- spec
    ensures r is Ok && r->Ok_0 == supported(), //@C21
-- loop 0 it
    invariant
        flags.bits == flags_of(config::CAPABILITIES_spec(), it.index@ as nat), all_known(config::CAPABILITIES_spec()),
-- body
    assert(all_known(config::CAPABILITIES_spec()));

== fn responder::capabilities::State::handle_msg (self, req, rsp, transcript)
-- spec
    requires old(transcript).wf(),
    ensures
        final(transcript).wf(), final(rsp)@.len() == old(rsp)@.len(),
        r is Err ==> super::gv_fault(req@, old(rsp)@.len() as int, r->Err_0) || super::head_fault(req@, 0xe1, 0xe1, r->Err_0)
            || fault(old(transcript).bytes(), req@, old(rsp)@.len() as int, r->Err_0), //@C20
        super::hdr::<crate::msgs::GetVersion>(req@) ==> (r is Ok <==> super::reset_ok(req@, old(rsp)@.len() as int)), //@C16
        super::hdr::<crate::msgs::GetVersion>(req@) && r is Ok ==> r->Ok_0.0 == 10 && super::reset(req@, final(rsp)@.take(10), final(transcript).bytes(), r->Ok_0.1), //@C16,C11
        !super::hdr::<crate::msgs::GetVersion>(req@) ==> (r is Ok <==> caps_ok(old(transcript).bytes(), req@, old(rsp)@.len() as int)), //@C12
        !super::hdr::<crate::msgs::GetVersion>(req@) && r is Ok ==> r->Ok_0.0 == 12
            && step(old(transcript).bytes(), req@, final(rsp)@.take(12), final(transcript).bytes(), r->Ok_0.1), //@C11,C12,C21
-- after let size = supported.write(rsp)?;
    assert(rsp@.take(12) =~= seq![0x11u8, 0x61] + supported.body());

== mod responder::algorithms
use crate::vx::{one16, one32};
use crate::msgs::algorithms::{algo_type, algo_bits, algos_off, asym_name};
/// the k-th algorithm structure of a request body
pub open spec fn at(b: Seq<u8>, k: int) -> int { algos_off(b, NegotiateAlgorithms::reqs_at(b), k as nat) }
pub open spec fn offered(b: Seq<u8>, k: int) -> u16 { crate::vx::rd16(b, at(b, k) + 2) }
/// exactly one bit, and one that was offered
pub open spec fn one_of16(sel: u16, offer: u16) -> bool { one16(sel) && sel & offer == sel }
pub open spec fn one_of32(sel: u32, offer: u32) -> bool { one32(sel) && sel & offer == sel }
/// there is something to choose for every algorithm of the request: SHA-2 and ECDSA P-256 are what this responder supports
pub open spec fn negotiable(b: Seq<u8>) -> bool {
    &&& crate::vx::rd32(b, 10) & crate::crypto::hashes() != 0
    &&& crate::vx::rd32(b, 6) & 0x10 != 0
    &&& forall|k: int| 0 <= k < b[0] ==> #[trigger] offered(b, k) != 0
}
pub open spec fn chosen(b: Seq<u8>, a: Algorithms) -> bool {
    &&& a.measurement_spec_selected.bits == b[4]
    &&& one_of32(a.base_hash_algo_selected.bits, crate::vx::rd32(b, 10) & crate::crypto::hashes())
    &&& one_of32(a.base_asym_algo_selected.bits, crate::vx::rd32(b, 6) & 0x10)
    &&& a.measurement_hash_algo_selected == a.base_hash_algo_selected
    &&& a.num_algorithm_responses == b[0]
    &&& forall|k: int| 0 <= k < b[0] ==> algo_type(#[trigger] a.algorithm_responses@[k]) == b[at(b, k)]
            && one_of16(algo_bits(a.algorithm_responses@[k]), offered(b, k))
}
/// the same in terms of the decoded request
pub open spec fn chosen_k(q: NegotiateAlgorithms, a: Algorithms, k: int) -> bool {
    algo_type(a.algorithm_responses@[k]) == algo_type(q.algorithm_requests@[k])
        && one_of16(algo_bits(a.algorithm_responses@[k]), algo_bits(q.algorithm_requests@[k]))
}
pub open spec fn negotiable_m(q: NegotiateAlgorithms) -> bool {
    &&& q.base_hash_algo.bits & crate::crypto::hashes() != 0
    &&& q.base_asym_algo.bits & 0x10 != 0
    &&& forall|k: int| 0 <= k < q.num_algorithm_requests ==> algo_bits(#[trigger] q.algorithm_requests@[k]) != 0
}
pub open spec fn chosen_m(q: NegotiateAlgorithms, a: Algorithms) -> bool {
    &&& a.measurement_spec_selected == q.measurement_spec
    &&& one_of32(a.base_hash_algo_selected.bits, q.base_hash_algo.bits & crate::crypto::hashes())
    &&& one_of32(a.base_asym_algo_selected.bits, q.base_asym_algo.bits & 0x10)
    &&& a.measurement_hash_algo_selected == a.base_hash_algo_selected
    &&& a.num_algorithm_responses == q.num_algorithm_requests
    &&& forall|k: int| 0 <= k < q.num_algorithm_requests ==> #[trigger] chosen_k(q, a, k)
}
pub proof fn raw(b: Seq<u8>, q: NegotiateAlgorithms, a: Algorithms)
    requires NegotiateAlgorithms::accepts(b), NegotiateAlgorithms::parsed(b, q),
    ensures negotiable(b) == negotiable_m(q), chosen_m(q, a) ==> chosen(b, a),
{
    assert forall|k: int| 0 <= k < b[0] implies offered(b, k) == algo_bits(#[trigger] q.algorithm_requests@[k]) && algo_type(q.algorithm_requests@[k]) == b[at(b, k)] by {}
    if negotiable(b) {
        assert forall|k: int| 0 <= k < q.num_algorithm_requests implies algo_bits(#[trigger] q.algorithm_requests@[k]) != 0 by { assert(offered(b, k) != 0); }
    }
    if negotiable_m(q) {
        assert forall|k: int| 0 <= k < b[0] implies #[trigger] offered(b, k) != 0 by { assert(algo_bits(q.algorithm_requests@[k]) != 0); }
    }
    if chosen_m(q, a) {
        assert forall|k: int| 0 <= k < b[0] implies algo_type(#[trigger] a.algorithm_responses@[k]) == b[at(b, k)] && one_of16(algo_bits(a.algorithm_responses@[k]), offered(b, k)) by {
            assert(chosen_k(q, a, k));
            assert(offered(b, k) == algo_bits(q.algorithm_requests@[k]));
        }
    }
}
/// the lowest set bit is one of the set bits
pub proof fn low16(x: u16, k: u32)
    requires x != 0, k == vstd::std_specs::bits::u16_trailing_zeros(x),
    ensures k < 16, one_of16(1u16 << k, x),
        x & !0x3fu16 == 0 ==> (1u16 << k) & !0x3fu16 == 0, x & !0x7u16 == 0 ==> (1u16 << k) & !0x7u16 == 0,
        x & !0x1ffu16 == 0 ==> (1u16 << k) & !0x1ffu16 == 0, x & !0x1u16 == 0 ==> (1u16 << k) & !0x1u16 == 0,
{
    broadcast use vstd::std_specs::bits::axiom_u16_trailing_zeros;
    let k2 = k as u16;
    assert(k < 16);
    assert((x >> k2) & 1u16 == 1u16);
    assert(k < 16 && k2 == k as u16 && (x >> k2) & 1u16 == 1u16 ==> (1u16 << k) != 0 && (1u16 << k) & sub(1u16 << k, 1) == 0 && (1u16 << k) & x == (1u16 << k)
        && (x & !0x3fu16 == 0 ==> (1u16 << k) & !0x3fu16 == 0) && (x & !0x7u16 == 0 ==> (1u16 << k) & !0x7u16 == 0)
        && (x & !0x1ffu16 == 0 ==> (1u16 << k) & !0x1ffu16 == 0) && (x & !0x1u16 == 0 ==> (1u16 << k) & !0x1u16 == 0)) by (bit_vector);
}
pub proof fn low32(x: u32, k: u32)
    requires x != 0, k == vstd::std_specs::bits::u32_trailing_zeros(x),
    ensures k < 32, one_of32(1u32 << k, x), x & !0x3fu32 == 0 ==> (1u32 << k) & !0x3fu32 == 0, x & !0x1ffu32 == 0 ==> (1u32 << k) & !0x1ffu32 == 0,
{
    broadcast use vstd::std_specs::bits::axiom_u32_trailing_zeros;
    assert(k < 32);
    assert((x >> k) & 1u32 == 1u32);
    assert(k < 32 && (x >> k) & 1u32 == 1u32 ==> (1u32 << k) != 0 && (1u32 << k) & sub(1u32 << k, 1) == 0 && (1u32 << k) & x == (1u32 << k)
        && (x & !0x3fu32 == 0 ==> (1u32 << k) & !0x3fu32 == 0) && (x & !0x1ffu32 == 0 ==> (1u32 << k) & !0x1ffu32 == 0)) by (bit_vector);
}
/// a selection is one this library can compute with
pub proof fn sel_live(b: Seq<u8>, a: Algorithms)
    requires chosen(b, a),
    ensures id_auth::selected(a),
{
    let x = a.base_hash_algo_selected.bits;
    let y = a.base_asym_algo_selected.bits;
    let h = crate::vx::rd32(b, 10);
    let g = crate::vx::rd32(b, 6);
    let hs = crate::crypto::hashes();
    assert(x != 0 && x & sub(x, 1) == 0 && x & (h & hs) == x ==> x == 1 || x == 2 || x == 4) by (bit_vector) requires hs == 7 || hs == 1;
    assert(y != 0 && y & (g & 0x10) == y ==> y == 0x10) by (bit_vector);
}
pub open spec fn asym_of(names: Seq<&str>, n: nat) -> u32 decreases n {
    if n == 0 { 0 } else {
        asym_of(names, (n - 1) as nat) | (match asym_name(names[n - 1]) { Some(f) => f.bits, None => 0 })
    }
}
pub open spec fn alg_ok(t: Seq<u8>, req: Seq<u8>, room: int) -> bool {
    let b = super::rest(req);
    super::hdr::<NegotiateAlgorithms>(req) && NegotiateAlgorithms::accepts(b) && negotiable(b) && room >= 36 + 4 * b[0] && super::fits(t, req.len() as int + 36 + 4 * b[0])
}
/// why a NEGOTIATE_ALGORITHMS is refused
pub open spec fn fault(t: Seq<u8>, req: Seq<u8>, room: int, e: ResponderError) -> bool {
    let b = super::rest(req);
    super::hdr::<NegotiateAlgorithms>(req) && match e {
        ResponderError::ParseNegotiateAlgorithms(x) => NegotiateAlgorithms::fault(b, x),
        ResponderError::NoSupportedAlgorithm => NegotiateAlgorithms::accepts(b) && !negotiable(b),
        ResponderError::BufferFull => NegotiateAlgorithms::accepts(b) && (room < 36 + 4 * b[0] || !super::fits(t, req.len() as int + 36 + 4 * b[0])),
        _ => false,
    }
}
pub open spec fn step(s: State, t: Seq<u8>, req: Seq<u8>, out: Seq<u8>, t2: Seq<u8>, st2: AllStates) -> bool {
    let b = super::rest(req);
    &&& super::hdr::<NegotiateAlgorithms>(req) && NegotiateAlgorithms::accepts(b)
    &&& st2 is IdAuth && chosen(b, st2->IdAuth_0.algorithms)
    &&& st2->IdAuth_0 == id_auth::State { requester_ct_exponent: s.requester_ct_exponent, requester_cap: s.requester_cap,
            responder_ct_exponent: s.responder_ct_exponent, responder_cap: s.responder_cap, algorithms: st2->IdAuth_0.algorithms }
    &&& out == seq![0x11u8, 0x63] + st2->IdAuth_0.algorithms.body()
    &&& t2 == t + req + out
}

== fn responder::algorithms::State::from@From<capabilities::State> (s)
-- spec
    requires capabilities::full(s),
    ensures r == (State { requester_ct_exponent: s.requester_ct_exponent->Some_0, requester_cap: s.requester_cap->Some_0,
        responder_ct_exponent: s.responder_ct_exponent->Some_0, responder_cap: s.responder_cap->Some_0, algorithms: None }),

== fn responder::algorithms::config_to_base_asym_algo ()
-- spec
    ensures r is Ok && r->Ok_0.bits == 0x10, //@C08
-- loop 0 it
    invariant
        signing_algos.bits == asym_of(config::ALGORITHMS_ASYMMETRIC_SIGNING_spec(), it.index@ as nat),
        config::ALGORITHMS_ASYMMETRIC_SIGNING_spec().len() == 1, config::ALGORITHMS_ASYMMETRIC_SIGNING_spec()[0] == "ECDSA_ECC_NIST_P256",
-- end
    assert(0u32 | 0x10u32 == 0x10u32) by (bit_vector);
    reveal_with_fuel(asym_of, 2);

== fn responder::algorithms::State::choose_algorithms (self, req)
-- attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
-- spec
    requires req.wf(),
    ensures
        r is Ok <==> negotiable_m(req), //@C08
        r is Err ==> r->Err_0 is NoSupportedAlgorithm, //@C20
        r is Ok ==> chosen_m(req, r->Ok_0), //@C08
-- before #0 let first_bit_set = base_hash_algo.bits().trailing_zeros();
    ghost let rb = req.base_hash_algo.bits;
    ghost let hs = crate::crypto::hashes();
    assert(rb & !0x3fu32 == 0 ==> (rb & hs) & !0x3fu32 == 0) by (bit_vector);
    low32(base_hash_algo.bits, vstd::std_specs::bits::u32_trailing_zeros(base_hash_algo.bits));
-- before #0 let first_bit_set = base_asym_algo.bits().trailing_zeros();
    ghost let ra = req.base_asym_algo.bits;
    assert(ra & !0x1ffu32 == 0 ==> (ra & 0x10) & !0x1ffu32 == 0) by (bit_vector);
    low32(base_asym_algo.bits, vstd::std_specs::bits::u32_trailing_zeros(base_asym_algo.bits));
-- loop 0
    invariant
        req.wf(), rsp.num_algorithm_responses == req.num_algorithm_requests,
        rsp.measurement_spec_selected == req.measurement_spec,
        one_of32(rsp.base_hash_algo_selected.bits, req.base_hash_algo.bits & crate::crypto::hashes()),
        one_of32(rsp.base_asym_algo_selected.bits, req.base_asym_algo.bits & 0x10),
        rsp.measurement_hash_algo_selected == rsp.base_hash_algo_selected,
        req.base_hash_algo.bits & crate::crypto::hashes() != 0, req.base_asym_algo.bits & 0x10 != 0,
        forall|k: int| 0 <= k < i ==> #[trigger] chosen_k(req, rsp, k),
        forall|k: int| 0 <= k < i ==> algo_bits(#[trigger] req.algorithm_requests@[k]) != 0,
-- loopbody 0
    ghost let q = req.algorithm_requests@[i as int];
    ghost let x = algo_bits(q);
    ghost let rsp0 = rsp;
    assert(crate::msgs::algorithms::algo_ok(q));
    if x != 0 { low16(x, vstd::std_specs::bits::u16_trailing_zeros(x)); }
-- loopend 0
    assert(chosen_k(req, rsp, i as int));
    assert forall|k: int| 0 <= k < i implies #[trigger] chosen_k(req, rsp, k) by { assert(chosen_k(req, rsp0, k)); }

== fn responder::algorithms::State::handle_msg (self, req, rsp, transcript)
-- spec
    requires old(transcript).wf(),
    ensures
        final(transcript).wf(), final(rsp)@.len() == old(rsp)@.len(),
        r is Err ==> super::gv_fault(req@, old(rsp)@.len() as int, r->Err_0) || super::head_fault(req@, 0xe3, 0xe3, r->Err_0)
            || fault(old(transcript).bytes(), req@, old(rsp)@.len() as int, r->Err_0), //@C20
        super::hdr::<crate::msgs::GetVersion>(req@) ==> (r is Ok <==> super::reset_ok(req@, old(rsp)@.len() as int)), //@C16
        super::hdr::<crate::msgs::GetVersion>(req@) && r is Ok ==> r->Ok_0.0 == 10 && super::reset(req@, final(rsp)@.take(10), final(transcript).bytes(), r->Ok_0.1), //@C16,C11
        !super::hdr::<crate::msgs::GetVersion>(req@) ==> (r is Ok <==> alg_ok(old(transcript).bytes(), req@, old(rsp)@.len() as int)), //@C12,C08
        !super::hdr::<crate::msgs::GetVersion>(req@) && r is Ok ==> r->Ok_0.0 == 36 + 4 * req@[2]
            && step(self, old(transcript).bytes(), req@, final(rsp)@.take(r->Ok_0.0 as int), final(transcript).bytes(), r->Ok_0.1), //@C11,C12,C08
        r is Ok ==> super::live(r->Ok_0.1), //@C01
-- after transcript.extend(req)?;
    ghost let q0 = req_msg;
    NegotiateAlgorithms::parsed_wf(super::rest(req@), q0);
    raw(super::rest(req@), q0, arbitrary());
-- before let size = algorithms.write(rsp)?;
    raw(super::rest(req@), q0, algorithms);
    crate::msgs::algorithms::algos_body_len(algorithms.algorithm_responses@, algorithms.num_algorithm_responses as nat);
-- after let size = algorithms.write(rsp)?;
    assert(rsp@.take(size as int) =~= seq![0x11u8, 0x63] + algorithms.body());
    sel_live(super::rest(req@), algorithms);

== mod responder::id_auth
use crate::msgs::digest::mask_bit;
use crate::crypto::digest::{hash_ok, hashed};
/// the negotiated algorithms are ones this library can compute with
pub open spec fn selected(a: Algorithms) -> bool { hash_ok(a.base_hash_algo_selected) && a.base_asym_algo_selected.bits == 0x10 }
/// bit i of the mask <=> slot i is provisioned
pub open spec fn mask_is<T>(m: u8, s: Seq<Option<T>>) -> bool {
    forall|k: int| 0 <= k < 8 ==> #[trigger] mask_bit(m, k) == (k < s.len() && s[k] is Some)
}
pub open spec fn writable(c: Option<CertificateChain>) -> bool { c is Some ==> c->Some_0.size() <= MAX_CERT_CHAIN_SIZE && c->Some_0.size() <= 0xffff }
pub open spec fn chain_ok(c: Option<CertificateChain>) -> bool { c is Some ==> crate::crypto::provider() && c->Some_0.inv() && c->Some_0.size() <= usize::MAX }
pub open spec fn chains_ok(c: Seq<Option<CertificateChain>>) -> bool { forall|i: int| 0 <= i < c.len() ==> chain_ok(#[trigger] c[i]) }
pub open spec fn all_writable(c: Seq<Option<CertificateChain>>) -> bool { forall|i: int| 0 <= i < c.len() ==> writable(#[trigger] c[i]) }
/// the digests of the chains of the provisioned slots, in slot order
pub open spec fn digest_list(a: crate::msgs::algorithms::BaseHashAlgo, c: Seq<Option<CertificateChain>>, n: nat) -> Seq<u8> decreases n {
    if n == 0 { Seq::empty() } else {
        let p = digest_list(a, c, (n - 1) as nat);
        match c[n - 1] { Some(x) => p + hashed(a, x.bytes()), None => p }
    }
}
pub open spec fn digests_ok(s: State, c: Seq<Option<CertificateChain>>, t: Seq<u8>, req: Seq<u8>, room: int) -> bool {
    let l = digest_list(s.algorithms.base_hash_algo_selected, c, c.len()).len();
    super::hdr::<GetDigests>(req) && req.len() >= 4 && crate::vx::zeros(super::rest(req), 0, 2) && all_writable(c) && room >= 4 + l && super::fits(t, req.len() as int + 4 + l)
}
pub open spec fn digests_out(s: State, c: Seq<Option<CertificateChain>>, out: Seq<u8>) -> bool {
    &&& out.len() >= 4 && out[0] == 0x11 && out[1] == 0x01 && out[2] == 0
    &&& mask_is(out[3], c)
    &&& out.skip(4) == digest_list(s.algorithms.base_hash_algo_selected, c, c.len())
    &&& out.len() == 4 + crate::crypto::digest::hash_len(s.algorithms.base_hash_algo_selected) * crate::msgs::digest::digs_count(out[3], NUM_SLOTS as nat)
}
pub open spec fn cert_size(c: Option<CertificateChain>) -> int { match c { Some(x) => x.size(), None => 0 } }
pub open spec fn cert_bytes(c: Option<CertificateChain>) -> Seq<u8> { match c { Some(x) => x.bytes(), None => Seq::empty() } }
pub open spec fn cert_ok(c: Seq<Option<CertificateChain>>, t: Seq<u8>, req: Seq<u8>, room: int) -> bool {
    let b = super::rest(req);
    &&& super::hdr::<GetCertificate>(req) && GetCertificate::accepts(b)
    &&& b[0] < NUM_SLOTS && writable(c[b[0] as int])
    &&& room >= 8 + cert_size(c[b[0] as int]) && super::fits(t, req.len() as int + 8 + cert_size(c[b[0] as int]))
}
/// why a GET_DIGESTS or GET_CERTIFICATE is refused
pub open spec fn fault(s: State, c: Seq<Option<CertificateChain>>, t: Seq<u8>, req: Seq<u8>, room: int, e: ResponderError) -> bool {
    let b = super::rest(req);
    let l = digest_list(s.algorithms.base_hash_algo_selected, c, c.len()).len();
    ||| super::hdr::<GetDigests>(req) && match e {
        ResponderError::Read(x) => crate::msgs::empty_fault(b, x),
        ResponderError::WriteCertChain(_) => !all_writable(c),
        ResponderError::BufferFull => room < 4 + l || !super::fits(t, req.len() as int + 4 + l),
        _ => false,
    }
    ||| super::hdr::<GetCertificate>(req) && match e {
        ResponderError::Read(x) => GetCertificate::fault(b, x),
        ResponderError::InvalidSlot => b.len() >= 1 && b[0] >= NUM_SLOTS,
        ResponderError::WriteCertChain(_) => b.len() >= 1 && b[0] < NUM_SLOTS && !writable(c[b[0] as int]),
        ResponderError::BufferFull => b.len() >= 1 && b[0] < NUM_SLOTS
            && (room < 8 + cert_size(c[b[0] as int]) || !super::fits(t, req.len() as int + 8 + cert_size(c[b[0] as int]))),
        _ => false,
    }
}
pub open spec fn cert_out(c: Seq<Option<CertificateChain>>, req: Seq<u8>, out: Seq<u8>) -> bool {
    let k = super::rest(req)[0];
    out == seq![0x11u8, 0x02, k, 0] + crate::vx::le16(cert_size(c[k as int]) as u16) + seq![0u8, 0] + cert_bytes(c[k as int])
}
pub open spec fn step(s: State, c: Seq<Option<CertificateChain>>, t: Seq<u8>, req: Seq<u8>, out: Seq<u8>, t2: Seq<u8>, st2: AllStates) -> bool {
    &&& t2 == t + req + out
    &&& super::hdr::<GetDigests>(req) ==> digests_out(s, c, out) && st2 == AllStates::IdAuth(s)
    &&& !super::hdr::<GetDigests>(req) ==> super::hdr::<GetCertificate>(req) && GetCertificate::accepts(super::rest(req)) && super::rest(req)[0] < NUM_SLOTS
            && cert_out(c, req, out) && st2 == AllStates::Challenge(challenge::State { requester_ct_exponent: s.requester_ct_exponent,
                requester_cap: s.requester_cap, responder_ct_exponent: s.responder_ct_exponent, responder_cap: s.responder_cap, algorithms: s.algorithms })
}
pub proof fn mask_step(b: u8, k: u8)
    requires k < 8,
    ensures forall|i: int| 0 <= i < 8 ==> #[trigger] mask_bit(b | (1u8 << k), i) == (i == k || mask_bit(b, i)),
{
    assert forall|i: int| 0 <= i < 8 implies #[trigger] mask_bit(b | (1u8 << k), i) == (i == k || mask_bit(b, i)) by {
        let j = i as u8;
        assert(k < 8 && j < 8 ==> ((((b | (1u8 << k)) >> j) & 1 == 1) == (j == k || (b >> j) & 1 == 1))) by (bit_vector);
    }
}
pub proof fn mask_zero()
    ensures forall|i: int| 0 <= i < 8 ==> !#[trigger] mask_bit(0, i),
{
    assert forall|i: int| 0 <= i < 8 implies !#[trigger] mask_bit(0, i) by {
        let j = i as u8;
        assert(j < 8 ==> (0u8 >> j) & 1 == 0) by (bit_vector);
    }
}
/// the digests written by DIGESTS are the digests of the chains
pub proof fn lists(a: crate::msgs::algorithms::BaseHashAlgo, c: Seq<Option<CertificateChain>>, m: u8, d: Seq<Option<DigestBuf>>, n: nat)
    requires n <= c.len() <= 8, d.len() == c.len(), mask_is(m, c),
        forall|i: int| 0 <= i < n && c[i] is Some ==> #[trigger] d[i] is Some && d[i]->Some_0.bytes() == hashed(a, c[i]->Some_0.bytes()),
    ensures crate::msgs::digest::digs_body(m, d, n) == digest_list(a, c, n),
    decreases n,
{
    if n > 0 {
        lists(a, c, m, d, (n - 1) as nat);
        assert(mask_bit(m, n - 1) == c[n - 1] is Some);
        if c[n - 1] is Some { assert(d[n - 1] is Some); }
    }
}

== fn responder::id_auth::State::from@From<algorithms::State> (s)
-- spec
    requires s.algorithms is Some,
    ensures r == (State { requester_ct_exponent: s.requester_ct_exponent, requester_cap: s.requester_cap,
        responder_ct_exponent: s.responder_ct_exponent, responder_cap: s.responder_cap, algorithms: s.algorithms->Some_0 }),

== fn responder::id_auth::create_slot_mask (slots)
-- spec
    ensures mask_is(r, slots@), //@C17
-- body
    mask_zero();
-- loop 0
    invariant
        forall|k: int| 0 <= k < 8 ==> #[trigger] mask_bit(bits, k) == (k < i && slots@[k] is Some),
-- loopbody 0
    mask_step(bits, i as u8);
    ghost let b0 = bits;
    ghost let iu = i;
    assert(iu < 8 ==> 1u8 << iu == 1u8 << (iu as u8)) by (bit_vector);

== fn responder::id_auth::State::hash_cert_chains (self, cert_chains)
-- spec
    requires selected(self.algorithms), chains_ok(cert_chains@),
    ensures
        r is Ok <==> all_writable(cert_chains@), //@C17
        r is Err ==> r->Err_0 is WriteCertChain, //@C20
        r is Ok ==> forall|i: int| 0 <= i < NUM_SLOTS ==> (#[trigger] r->Ok_0@[i]) is Some == cert_chains@[i] is Some
            && (cert_chains@[i] is Some ==> r->Ok_0@[i]->Some_0.size.n() == crate::crypto::digest::hash_len(self.algorithms.base_hash_algo_selected)
                && r->Ok_0@[i]->Some_0.bytes() == hashed(self.algorithms.base_hash_algo_selected, cert_chains@[i]->Some_0.bytes())), //@C17
-- loop 0
    invariant
        selected(self.algorithms), chains_ok(cert_chains@),
        forall|j: int| 0 <= j < i ==> writable(#[trigger] cert_chains@[j]),
        forall|j: int| i <= j < NUM_SLOTS ==> (#[trigger] digests@[j]) is None,
        forall|j: int| 0 <= j < i ==> (#[trigger] digests@[j]) is Some == cert_chains@[j] is Some
            && (cert_chains@[j] is Some ==> digests@[j]->Some_0.size.n() == crate::crypto::digest::hash_len(self.algorithms.base_hash_algo_selected)
                && digests@[j]->Some_0.bytes() == hashed(self.algorithms.base_hash_algo_selected, cert_chains@[j]->Some_0.bytes())),
-- loopbody 0
    assert(chain_ok(cert_chains@[i as int]));
    if all_writable(cert_chains@) { assert(writable(cert_chains@[i as int])); }
    if cert_chains@[i as int] is Some { crate::msgs::certificates::certs_body_len(cert_chains@[i as int]->Some_0.intermediate_certs@, cert_chains@[i as int]->Some_0.n()); }
-- after let size = cert_chain.write(&mut w)?;
    reveal(Writer::out);
    assert(buf@.take(size as int) =~= cert_chain.bytes());

== fn responder::id_auth::State::handle_get_digests (self, cert_chains, req, rsp, transcript)
-- spec
    requires old(transcript).wf(), selected(self.algorithms), chains_ok(cert_chains@), super::hdr::<GetDigests>(req@),
    ensures
        final(transcript).wf(), final(rsp)@.len() == old(rsp)@.len(),
        r is Err ==> fault(self, cert_chains@, old(transcript).bytes(), req@, old(rsp)@.len() as int, r->Err_0), //@C20
        r is Ok <==> digests_ok(self, cert_chains@, old(transcript).bytes(), req@, old(rsp)@.len() as int), //@C17,C12
        r is Ok ==> r->Ok_0.0 <= final(rsp)@.len()
            && step(self, cert_chains@, old(transcript).bytes(), req@, final(rsp)@.take(r->Ok_0.0 as int), final(transcript).bytes(), r->Ok_0.1), //@C17,C11,C12
-- before let size = digests.write(rsp)?;
    lists(self.algorithms.base_hash_algo_selected, cert_chains@, digests.slot_mask, digests.digests@, NUM_SLOTS as nat);
    assert(digests.wf());
-- after let size = digests.write(rsp)?;
    assert(rsp@.take(size as int) =~= seq![0x11u8, 0x01] + digests.body());
    Digests::body_len(digests.slot_mask, digests.digests@, NUM_SLOTS as nat, crate::crypto::digest::hash_len(self.algorithms.base_hash_algo_selected));
    assert((seq![0x11u8, 0x01] + digests.body()).skip(4) =~= crate::msgs::digest::digs_body(digests.slot_mask, digests.digests@, NUM_SLOTS as nat));

== fn responder::id_auth::State::handle_get_certificate (self, cert_chains, req, rsp, transcript)
-- spec
    requires old(transcript).wf(), selected(self.algorithms), chains_ok(cert_chains@), super::hdr::<GetCertificate>(req@),
    ensures
        final(transcript).wf(), final(rsp)@.len() == old(rsp)@.len(),
        r is Err ==> fault(self, cert_chains@, old(transcript).bytes(), req@, old(rsp)@.len() as int, r->Err_0), //@C20
        r is Ok <==> cert_ok(cert_chains@, old(transcript).bytes(), req@, old(rsp)@.len() as int), //@C18,C12
        r is Ok ==> r->Ok_0.0 <= final(rsp)@.len()
            && step(self, cert_chains@, old(transcript).bytes(), req@, final(rsp)@.take(r->Ok_0.0 as int), final(transcript).bytes(), r->Ok_0.1), //@C18,C11,C12
-- before let mut cert_chain = [0u8; MAX_CERT_CHAIN_SIZE];
    assert(chain_ok(cert_chains@[get_cert.slot as int]));
    if cert_chains@[get_cert.slot as int] is Some { crate::msgs::certificates::certs_body_len(cert_chains@[get_cert.slot as int]->Some_0.intermediate_certs@, cert_chains@[get_cert.slot as int]->Some_0.n()); }
-- after portion_length = chain.write(&mut w)? as u16;
    reveal(Writer::out);
    assert(cert_chain@.take(portion_length as int) =~= chain.bytes());
-- after let size = cert.write(rsp)?;
    assert(rsp@.take(size as int) =~= seq![0x11u8, 0x02] + cert.body());
    assert(seq![0x11u8, 0x02] + cert.body() =~= seq![0x11u8, 0x02, cert.slot, 0] + crate::vx::le16(cert.portion_length) + seq![0u8, 0] + cert.chain()) by {
        assert(crate::vx::le16(0) =~= seq![0u8, 0]) by { assert(0u16 & 0xff == 0 && (0u16 >> 8) & 0xff == 0) by (bit_vector); }
    }
    assert(cert.chain() =~= cert_bytes(cert_chains@[cert.slot as int]));

== fn responder::id_auth::State::handle_msg (self, cert_chains, req, rsp, transcript)
-- spec
    requires old(transcript).wf(), selected(self.algorithms), chains_ok(cert_chains@),
    ensures
        final(transcript).wf(), final(rsp)@.len() == old(rsp)@.len(),
        r is Err ==> super::gv_fault(req@, old(rsp)@.len() as int, r->Err_0) || super::head_fault(req@, 0x81, 0x82, r->Err_0)
            || fault(self, cert_chains@, old(transcript).bytes(), req@, old(rsp)@.len() as int, r->Err_0), //@C20
        super::hdr::<crate::msgs::GetVersion>(req@) ==> (r is Ok <==> super::reset_ok(req@, old(rsp)@.len() as int)), //@C16
        super::hdr::<crate::msgs::GetVersion>(req@) && r is Ok ==> r->Ok_0.0 == 10 && super::reset(req@, final(rsp)@.take(10), final(transcript).bytes(), r->Ok_0.1), //@C16,C11
        !super::hdr::<crate::msgs::GetVersion>(req@) ==> (r is Ok <==> digests_ok(self, cert_chains@, old(transcript).bytes(), req@, old(rsp)@.len() as int)
            || cert_ok(cert_chains@, old(transcript).bytes(), req@, old(rsp)@.len() as int)), //@C12
        !super::hdr::<crate::msgs::GetVersion>(req@) && r is Ok ==> r->Ok_0.0 <= final(rsp)@.len()
            && step(self, cert_chains@, old(transcript).bytes(), req@, final(rsp)@.take(r->Ok_0.0 as int), final(transcript).bytes(), r->Ok_0.1), //@C11,C12,C17,C18

== mod responder::challenge
use crate::crypto::NONCE;
use crate::crypto::digest::{hash_len, hashed};
use crate::crypto::signing::signed_bytes;
pub open spec fn mutual(s: State) -> bool { s.requester_cap.bits & 0x100 == 0x100 && s.responder_cap.bits & 0x100 == 0x100 }
pub open spec fn chal_size(s: State) -> int { 4 + NONCE + 2 * hash_len(s.algorithms.base_hash_algo_selected) + 2 + 4 + 64 }
/// requests that can be answered: a filled slot with a chain that fits, and enough room
pub open spec fn chal_ok<'a, S: Signer>(s: State, slots: Seq<Option<FilledSlot<'a, S>>>, t: Seq<u8>, req: Seq<u8>, room: int) -> bool {
    let b = super::rest(req);
    &&& super::hdr::<Challenge>(req) && Challenge::accepts(b)
    &&& b[0] < NUM_SLOTS && slots[b[0] as int] is Some && slots[b[0] as int]->Some_0.cert_chain.size() <= MAX_CERT_CHAIN_SIZE && slots[b[0] as int]->Some_0.cert_chain.size() <= 0xffff
    &&& room >= chal_size(s) && super::fits(t, req.len() as int + chal_size(s) - 64)
}
/// why a CHALLENGE is refused
pub open spec fn fault<'a, S: Signer>(s: State, slots: Seq<Option<FilledSlot<'a, S>>>, t: Seq<u8>, req: Seq<u8>, room: int, e: ResponderError) -> bool {
    let b = super::rest(req);
    super::hdr::<Challenge>(req) && match e {
        ResponderError::ParseChallenge(x) => Challenge::fault(b, x),
        ResponderError::InvalidSlot => b.len() >= 1 && (b[0] >= NUM_SLOTS || slots[b[0] as int] is None),
        ResponderError::WriteCertChain(_) => b.len() >= 1 && b[0] < NUM_SLOTS && slots[b[0] as int] is Some
            && (slots[b[0] as int]->Some_0.cert_chain.size() > MAX_CERT_CHAIN_SIZE || slots[b[0] as int]->Some_0.cert_chain.size() > 0xffff),
        ResponderError::BufferFull => !super::fits(t, req.len() as int + chal_size(s) - 64),
        ResponderError::WriteChallengeAuth(x) => room < chal_size(s) && ChallengeAuth::full(x),
        ResponderError::SigningFailed => chal_ok(s, slots, t, req, room)
            && exists|h: Seq<u8>| h.len() == chal_size(s) - 64 && slots[b[0] as int]->Some_0.signer.refuses(hashed(s.algorithms.base_hash_algo_selected, #[trigger] (t + req + h))),
        _ => false,
    }
}
pub open spec fn step<'a, S: Signer>(s: State, slots: Seq<Option<FilledSlot<'a, S>>>, t: Seq<u8>, req: Seq<u8>, out: Seq<u8>, t2: Seq<u8>, st2: AllStates) -> bool {
    let a = s.algorithms.base_hash_algo_selected;
    let d = hash_len(a);
    let k = super::rest(req)[0];
    let n = out.len() - 64;
    &&& super::hdr::<Challenge>(req) && Challenge::accepts(super::rest(req))
    &&& st2 == AllStates::Challenge(s)
    &&& k < NUM_SLOTS && slots[k as int] is Some
    &&& out.len() == chal_size(s)
    &&& out[0] == 0x11 && out[1] == 0x03 && out[2] == (if mutual(s) { k | 0x80u8 } else { k }) && id_auth::mask_is(out[3], slots)
    &&& out.subrange(4, 4 + d) == hashed(a, slots[k as int]->Some_0.cert_chain.bytes())
    &&& crate::ext::rand::drawn(out.subrange(4 + d, 4 + NONCE + d))
    &&& out.subrange(4 + NONCE + d, 4 + NONCE + 2 * d) == crate::vx::zseq(d as nat)
    &&& out.subrange(4 + NONCE + 2 * d, n) == seq![4u8, 0, 0, 0, 0, 0]
    // the transcript has everything but the signature, and that is what is signed
    &&& t2 == t + req + out.take(n)
    &&& signed_bytes(slots[k as int]->Some_0.signer, hashed(a, t2), out.skip(n))
}

== fn responder::challenge::State::handle_msg (self, slots, req, rsp, transcript)
-- attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
-- spec
    requires old(transcript).wf(), id_auth::selected(self.algorithms), super::slots_ok(slots@),
    ensures
        final(transcript).wf(), final(rsp)@.len() == old(rsp)@.len(),
        r is Err ==> super::gv_fault(req@, old(rsp)@.len() as int, r->Err_0) || super::head_fault(req@, 0x83, 0x83, r->Err_0)
            || fault(self, slots@, old(transcript).bytes(), req@, old(rsp)@.len() as int, r->Err_0), //@C20
        super::hdr::<crate::msgs::GetVersion>(req@) ==> (r is Ok <==> super::reset_ok(req@, old(rsp)@.len() as int)), //@C16
        super::hdr::<crate::msgs::GetVersion>(req@) && r is Ok ==> r->Ok_0.0 == 10 && super::reset(req@, final(rsp)@.take(10), final(transcript).bytes(), r->Ok_0.1), //@C16,C11
        !super::hdr::<crate::msgs::GetVersion>(req@) && r is Ok ==> chal_ok(self, slots@, old(transcript).bytes(), req@, old(rsp)@.len() as int), //@C12,C15
        !super::hdr::<crate::msgs::GetVersion>(req@) && r is Err && chal_ok(self, slots@, old(transcript).bytes(), req@, old(rsp)@.len() as int)
            ==> r->Err_0 is SigningFailed, //@C12,C15
        !super::hdr::<crate::msgs::GetVersion>(req@) && r is Ok ==> crate::ext::rand::drawn(final(rsp)@.subrange(4 + hash_len(self.algorithms.base_hash_algo_selected), 4 + NONCE + hash_len(self.algorithms.base_hash_algo_selected))), //@C23
        !super::hdr::<crate::msgs::GetVersion>(req@) && r is Ok ==> r->Ok_0.0 == chal_size(self)
            && step(self, slots@, old(transcript).bytes(), req@, final(rsp)@.take(r->Ok_0.0 as int), final(transcript).bytes(), r->Ok_0.1), //@C15,C11
-- body
    assert(1u32 & !0x3fu32 == 0 && 1u32 & sub(1u32, 1) == 0 && 2u32 & !0x3fu32 == 0 && 2u32 & sub(2u32, 1) == 0 && 4u32 & !0x3fu32 == 0 && 4u32 & sub(4u32, 1) == 0) by (bit_vector);
    assert(crate::vx::le16(4) =~= seq![4u8, 0]) by { assert(4u16 & 0xff == 4 && (4u16 >> 8) & 0xff == 0) by (bit_vector); }
-- after let size = slot.cert_chain.write(&mut w)?;
    reveal(Writer::out);
    assert(buf@.take(size as int) =~= slot.cert_chain.bytes());
-- after let size = auth.write(rsp)?;
    ghost let w0 = seq![0x11u8, 0x03] + auth.body();
    ghost let h0 = seq![0x11u8, 0x03] + auth.head();
    assert(w0 =~= h0 + auth.signature.bytes());
    assert(rsp@.take(size as int) =~= w0);
    assert(size == chal_size(self));
-- after let sig_start = size - usize::from(signature_size);
    assert(rsp@.take(sig_start as int) =~= h0);
-- before let m1_hash = ProvidedDigests::digest(
    assert(transcript.bytes() =~= old(transcript).bytes() + req@ + h0);
-- end
    ghost let out = rsp@.take(size as int);
    ghost let d = hash_len(self.algorithms.base_hash_algo_selected);
    assert(out.take(sig_start as int) =~= h0);
    assert(out.subrange(4, 4 + d) =~= auth.cert_chain_hash.bytes());
    assert(out.subrange(4 + d, 4 + NONCE + d) =~= auth.nonce.bytes());
    assert(rsp@.subrange(4 + d, 4 + NONCE + d) =~= out.subrange(4 + d, 4 + NONCE + d));
    assert(out.subrange(4 + NONCE + d, 4 + NONCE + 2 * d) =~= auth.measurement_summary_hash.bytes());
    assert(out.subrange(4 + NONCE + 2 * d, sig_start as int) =~= crate::vx::le16(4) + seq![0u8, 0, 0, 0]);
    assert(crate::vx::le16(4) + seq![0u8, 0, 0, 0] =~= seq![4u8, 0, 0, 0, 0, 0]);
    ghost let t2 = transcript.bytes();
    assert(out.len() - 64 == sig_start);
    assert(t2 =~= old(transcript).bytes() + req@ + out.take(sig_start as int));
    assert(exists|b: &[u8]| #[trigger] crate::vx::AsRefSpec::<[u8]>::as_ref_ok(&signature, b) && b@ =~= out.skip(sig_start as int));
    assert(signed_bytes(slots@[req_msg.slot as int]->Some_0.signer, hashed(self.algorithms.base_hash_algo_selected, t2), out.skip(sig_start as int)));
    assert(out[0] == 0x11 && out[1] == 0x03);
    assert(out[2] == h0[2] && out[3] == h0[3]);
    assert(id_auth::mask_is(out[3], slots@));
    assert(out[2] == (if mutual(self) { req_msg.slot | 0x80u8 } else { req_msg.slot }));

== mod responder::error
pub open spec fn read_code(e: ReadError) -> msgs::Error {
    match e {
        ReadError::BufferEmpty => msgs::Error::RequestTooLarge,
        ReadError::ReservedByteNotZero => msgs::Error::InvalidRequest,
        _ => msgs::Error::Unspecified,
    }
}
/// the ERROR message that reports a failure
pub open spec fn reported(e: ResponderError) -> msgs::Error {
    match e {
        ResponderError::ParseHeader => msgs::Error::UnexpectedRequest,
        ResponderError::BufferFull => msgs::Error::LargeResponse(0),
        ResponderError::Read(x) => read_code(x),
        ResponderError::UnexpectedMsgCode { expected, got } => msgs::Error::UnexpectedRequest,
        ResponderError::InvalidSlot => msgs::Error::InvalidRequest,
        ResponderError::SigningFailed => msgs::Error::Unspecified,
        ResponderError::WriteCertChain(_) => msgs::Error::LargeResponse(0),
        ResponderError::NoSupportedAlgorithm => msgs::Error::InvalidRequest,
        ResponderError::ParseBaseAsymAlgo => msgs::Error::Unspecified,
        ResponderError::ParseCapability => msgs::Error::Unspecified,
        ResponderError::ParseGetCapabilities(ParseGetCapabilitiesError::InvalidBitsSet) => msgs::Error::InvalidRequest,
        ResponderError::ParseGetCapabilities(ParseGetCapabilitiesError::Read(x)) => read_code(x),
        ResponderError::ParseNegotiateAlgorithms(ParseNegotiateAlgorithmsError::Read(x)) => read_code(x),
        ResponderError::ParseNegotiateAlgorithms(ParseNegotiateAlgorithmsError::TooLarge) => msgs::Error::RequestTooLarge,
        ResponderError::ParseNegotiateAlgorithms(_) => msgs::Error::InvalidRequest,
        ResponderError::ParseChallenge(ParseChallengeError::InvalidMeasurementHashType) => msgs::Error::InvalidRequest,
        ResponderError::ParseChallenge(ParseChallengeError::Read(x)) => read_code(x),
        ResponderError::WriteChallengeAuth(WriteChallengeAuthError::BufferFull) => msgs::Error::ResponseTooLarge(0),
        ResponderError::WriteChallengeAuth(WriteChallengeAuthError::WriteOpaqueElement(crate::msgs::common::WriteOpaqueElementError::BufferFull)) => msgs::Error::ResponseTooLarge(0),
        ResponderError::WriteChallengeAuth(_) => msgs::Error::InvalidRequest,
    }
}

== from responder::error::Error@From<&ResponderError> (err)
    reported(*err)

== fn responder::error::read_error_to_msgs_error (err)
-- spec
    ensures r == read_code(*err), //@C20

== fn responder::AllStates::handle (self, req, rsp, transcript, slots)
-- attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
-- spec
    requires old(transcript).wf(), live(self), slots_ok(slots@),
    ensures
        final(transcript).wf(), final(rsp)@.len() == old(rsp)@.len(),
        handled(self, slots@, old(transcript).bytes(), req@, old(rsp)@.len() as int, r.0@, final(transcript).bytes(), r.1, r.2), //@C20,C12
-- loop 0
    invariant
        slots_ok(slots@),
        forall|j: int| 0 <= j < i ==> #[trigger] cert_chains@[j] == chains_of(slots@)[j],
-- loopbody 0
    assert(slots@[i as int] is Some ==> slot_ok(slots@[i as int]->Some_0));
-- before state.handle_msg(&cert_chains, req, rsp, transcript)
    assert(cert_chains@ =~= chains_of(slots@));
    assert forall|j: int| 0 <= j < cert_chains@.len() implies id_auth::chain_ok(#[trigger] cert_chains@[j]) by {
        assert(slots@[j] is Some ==> slot_ok(slots@[j]->Some_0));
    }

-- before (&rsp[..size], AllStates::Error, Err(responder_err))
    if size > 0 { assert(rsp@.take(size as int) =~= seq![0x12u8, 0x7f] + err_msg.body()); }

== impl responder::Responder
    pub open spec fn inv(&self) -> bool { self.state is Some && self.transcript.wf() && slots_ok(self.slots@) }

== fn responder::Responder::new (slots)
-- spec
    requires slots_ok(slots@),
    ensures r.inv(), r.slots == slots, r.state == Some(AllStates::Version(version::State {})), r.transcript.bytes() =~= Seq::<u8>::empty(), //@C12

== fn responder::Responder::handle_msg (self, req, rsp)
-- spec
    requires old(self).inv(), live(old(self).state->Some_0),
    ensures
        final(self).inv(), final(self).slots == old(self).slots, final(rsp)@.len() == old(rsp)@.len(),
        handled(old(self).state->Some_0, old(self).slots@, old(self).transcript.bytes(), req@, old(rsp)@.len() as int, r.0@, final(self).transcript.bytes(), final(self).state->Some_0, r.1), //@C20,C12,C11,C16
        granted(old(self).state->Some_0, old(self).slots@, old(self).transcript.bytes(), req@, old(rsp)@.len() as int) && r.1 is Err ==> r.1->Err_0 is SigningFailed, //@C24

== fn responder::Responder::state (self)
-- spec
    requires self.inv(),
    ensures *r == self.state->Some_0, //@C12

== fn responder::Responder::transcript (self)
-- spec
    ensures *r == self.transcript, //@C11

== fn responder::Responder::slots (self)
-- spec
    ensures *r == self.slots,

== fn responder::Responder::reset (self)
-- spec
    requires slots_ok(old(self).slots@),
    ensures final(self).inv(), final(self).slots == old(self).slots, final(self).state == Some(AllStates::Version(version::State {})),
        final(self).transcript.bytes() =~= Seq::<u8>::empty(), //@C16

== fn responder::AllStates::name (self)
-- spec
    ensures
        r@ == (match *self {
            AllStates::Error => "Error"@,
            AllStates::Version(_) => "Version"@,
            AllStates::Capabilities(_) => "Capabilities"@,
            AllStates::Algorithms(_) => "Algorithms"@,
            AllStates::IdAuth(_) => "IdAuth"@,
            AllStates::Challenge(_) => "Challenge"@,
        }),

== fn responder::algorithms::State::default@Default ()
-- spec
    ensures r.requester_ct_exponent == 0, r.requester_cap.bits == 0, r.responder_ct_exponent == 0, r.responder_cap.bits == 0, r.algorithms is None,

== fn responder::id_auth::State::default@Default ()
-- spec
    ensures r.requester_ct_exponent == 0, r.requester_cap.bits == 0, r.responder_ct_exponent == 0, r.responder_cap.bits == 0, r.algorithms.num_algorithm_responses == 0,

== fn responder::challenge::State::default@Default ()
-- spec
    ensures r.requester_ct_exponent == 0, r.requester_cap.bits == 0, r.responder_ct_exponent == 0, r.responder_cap.bits == 0, r.algorithms.num_algorithm_responses == 0,
