## The requester: one contract per state, composed into AllStates and RequesterInit.
== inherent requester::algorithms::State@From<capabilities::State>
== inherent requester::id_auth::State@From<algorithms::State>
== inherent requester::challenge::State@From<id_auth::State>

== mod requester
pub use crate::crypto::{NONCE, provider};
pub use crate::responder::{hdr, rest, fits};
/// what every reachable state satisfies
pub open spec fn inv(st: AllStates) -> bool {
    match st {
        AllStates::Capabilities(s) => s.requester_cap is Some ==> s.requester_cap->Some_0 == capabilities::request().flags,
        AllStates::Algorithms(s) => s.requester_cap == capabilities::request().flags && (s.negotiate_algorithms is Some ==> algorithms::is_request(s.negotiate_algorithms->Some_0)),
        AllStates::IdAuth(s) => provider() && algorithms::selected(s.algorithms),
        AllStates::Challenge(s) => provider() && algorithms::selected(s.algorithms) && s.cert_chain_size <= config::MAX_CERT_CHAIN_SIZE,
        _ => true,
    }
}
/// states in which there is a request to send
pub open spec fn live(st: AllStates) -> bool { inv(st) && !(st is Error) && !(st is NewSession) }
/// states in which the request of the current step has been generated
pub open spec fn pending(st: AllStates) -> bool {
    live(st) && match st {
        AllStates::Capabilities(s) => s.requester_ct_exponent is Some && s.requester_cap is Some,
        AllStates::Algorithms(s) => s.negotiate_algorithms is Some,
        _ => true,
    }
}
/// the request of each state, appended to the transcript
pub open spec fn sent(st: AllStates, t: Seq<u8>, out: Seq<u8>, t2: Seq<u8>, st2: AllStates) -> bool {
    match st {
        AllStates::Version(s) => st2 == st && out == seq![0x10u8, 0x84, 0, 0] && t2 == out,
        AllStates::Capabilities(s) => st2 is Capabilities && capabilities::sent(s, out, st2->Capabilities_0) && t2 == t + out,
        AllStates::Algorithms(s) => st2 is Algorithms && algorithms::sent(s, out, st2->Algorithms_0) && t2 == t + out,
        AllStates::IdAuth(s) => st2 == st && t2 == t + out
            && out == (if s.digests is None { seq![0x11u8, 0x81, 0, 0] } else { id_auth::ask(0) }),
        AllStates::Challenge(s) => st2 is Challenge && challenge::sent(s, out, st2->Challenge_0) && t2 == t + out,
        _ => false,
    }
}
/// the size of the request of each state
pub open spec fn req_size(st: AllStates) -> int {
    match st {
        AllStates::Version(s) => 4,
        AllStates::Capabilities(s) => 12,
        AllStates::Algorithms(s) => 48,
        AllStates::IdAuth(s) => if s.digests is None { 4 } else { 8 },
        _ => 4 + NONCE,
    }
}
pub open spec fn req_fits(st: AllStates, t: Seq<u8>, room: int) -> bool { room >= req_size(st) && (st is Version || fits(t, req_size(st))) }
/// a response is only accepted in the state that asked for it, and leads to the next state of the protocol
pub open spec fn step(st: AllStates, root: Seq<u8>, t: Seq<u8>, rsp: Seq<u8>, t2: Seq<u8>, st2: AllStates) -> bool {
    match st {
        AllStates::Version(s) => t2 == t + rsp && version::version_ok(t, rsp) && st2 == AllStates::Capabilities(capabilities::fresh(version::best(rest(rsp))->Some_0)),
        AllStates::Capabilities(s) => t2 == t + rsp && capabilities::caps_ok(t, rsp) && st2 == AllStates::Algorithms(capabilities::next(s, rest(rsp))),
        AllStates::Algorithms(s) => t2 == t + rsp && algorithms::alg_ok(s, t, rsp) && algorithms::advanced(s, rsp, st2),
        AllStates::IdAuth(s) => t2 == t + rsp && (
            if s.digests is None { id_auth::digests_ok(s, t, rsp) && st2 is IdAuth && id_auth::has_digests(s, rsp, st2->IdAuth_0) }
            else { id_auth::cert_ok(t, rsp) && id_auth::advanced(s, rsp, st2) }),
        AllStates::Challenge(s) => t2 == t + rsp.take(rsp.len() - 64) && st2 == AllStates::NewSession && challenge::authentic(s, t, rsp, root),
        _ => false,
    }
}
/// exactly the responses that are accepted in a state
pub open spec fn acceptable(st: AllStates, root: Seq<u8>, t: Seq<u8>, rsp: Seq<u8>) -> bool {
    match st {
        AllStates::Version(s) => version::version_ok(t, rsp),
        AllStates::Capabilities(s) => capabilities::caps_ok(t, rsp),
        AllStates::Algorithms(s) => algorithms::alg_ok(s, t, rsp),
        AllStates::IdAuth(s) => if s.digests is None { id_auth::digests_ok(s, t, rsp) } else { id_auth::cert_ok(t, rsp) },
        AllStates::Challenge(s) => challenge::authentic(s, t, rsp, root) && fits(t, rsp.len() - 64),
        _ => false,
    }
}

== fn requester::expect (buf)
-- spec
    ensures
        r is Ok <==> hdr::<T>(buf@), //@C13
        buf@.len() >= 2 && buf@[1] != T::code() ==> r == Err::<(), RequesterError>(RequesterError::UnexpectedMsgCode { expected: T::code(), got: buf@[1] }), //@C13
-- body
    T::consts();

== mod requester::version
use crate::msgs::version::{ent_read, ent_zero};
pub open spec fn v10() -> VersionEntry { VersionEntry { major: 1, minor: 0, update: 0, alpha: 0 } }
pub open spec fn v11() -> VersionEntry { VersionEntry { major: 1, minor: 1, update: 0, alpha: 0 } }
/// the k-th version of a VERSION body
pub open spec fn entry(b: Seq<u8>, k: int) -> VersionEntry { ent_read(b[4 + 2 * k], b[5 + 2 * k]) }
pub open spec fn offers(b: Seq<u8>, e: VersionEntry) -> bool { exists|k: int| 0 <= k < b[3] && #[trigger] entry(b, k) == e }
/// the highest version both sides support
pub open spec fn best(b: Seq<u8>) -> Option<VersionEntry> {
    if offers(b, v11()) { Some(v11()) } else if offers(b, v10()) { Some(v10()) } else { None }
}
/// the same over decoded entries
pub open spec fn has(v: Version, n: int, e: VersionEntry) -> bool { exists|k: int| 0 <= k < n && #[trigger] v.entries@[k] == e }
pub open spec fn top(v: Version, n: int) -> Option<VersionEntry> {
    if has(v, n, v11()) { Some(v11()) } else if has(v, n, v10()) { Some(v10()) } else { None }
}
pub proof fn same_top(b: Seq<u8>, v: Version)
    requires Version::accepts(b), Version::parsed(b, v),
    ensures top(v, v.num_entries as int) == best(b),
{
    assert forall|e: VersionEntry| has(v, v.num_entries as int, e) == #[trigger] offers(b, e) by {
        if has(v, v.num_entries as int, e) {
            let k = choose|k: int| 0 <= k < v.num_entries && #[trigger] v.entries@[k] == e;
            assert(entry(b, k) == e);
        }
        if offers(b, e) {
            let k = choose|k: int| 0 <= k < b[3] && #[trigger] entry(b, k) == e;
            assert(v.entries@[k] == e);
        }
    }
    let x = (offers(b, v11()), offers(b, v10()));
}
pub open spec fn version_ok(t: Seq<u8>, rsp: Seq<u8>) -> bool {
    super::hdr::<Version>(rsp) && Version::accepts(super::rest(rsp)) && best(super::rest(rsp)) is Some && super::fits(t, rsp.len() as int)
}

== fn requester::version::State::write_get_version (self, buf, transcript)
-- spec
    requires old(transcript).wf(),
    ensures
        final(transcript).wf(),
        r is Ok <==> old(buf)@.len() >= 4, //@C04
        r is Ok ==> r->Ok_0@ == seq![0x10u8, 0x84, 0, 0] && final(transcript).bytes() == r->Ok_0@, //@C11,C16
-- after let size = GetVersion {}.write(buf)?;
    assert(buf@.take(size as int) =~= seq![0x10u8, 0x84, 0, 0]);

== fn requester::version::State::find_max_matching_version (version)
-- spec
    requires version.num_entries <= 2,
    ensures r == top(*version, version.num_entries as int), //@C07
-- loop 0
    invariant
        version.num_entries <= 2,
        expected.num_entries == 2, expected.entries@[0] == v10(), expected.entries@[1] == v11(),
        found == (match top(*version, i as int) { Some(e) => e, None => ent_zero() }),
-- loopbody 0
    ghost let f0 = found;
    assert(has(*version, i + 1, v11()) == (has(*version, i as int, v11()) || version.entries@[i as int] == v11()));
    assert(has(*version, i + 1, v10()) == (has(*version, i as int, v10()) || version.entries@[i as int] == v10()));
-- loop 1
    invariant
        i < version.num_entries <= 2,
        expected.num_entries == 2, expected.entries@[0] == v10(), expected.entries@[1] == v11(),
        found == (if j > 0 && version.entries@[i as int] == v10() || j > 1 && version.entries@[i as int] == v11() { version.entries@[i as int] } else { f0 }),

== fn requester::version::State::handle_msg (self, buf, transcript)
-- spec
    requires old(transcript).wf(),
    ensures
        final(transcript).wf(),
        r is Ok <==> version_ok(old(transcript).bytes(), buf@), //@C07,C13
        r is Ok ==> r->Ok_0 == capabilities::fresh(best(super::rest(buf@))->Some_0), //@C07
        r is Ok ==> final(transcript).bytes() == old(transcript).bytes() + buf@, //@C11
-- after let version
    same_top(super::rest(buf@), version);

== mod requester::capabilities
use crate::msgs::capabilities::req_flag;
pub open spec fn fresh(v: VersionEntry) -> State {
    State { version: v, requester_ct_exponent: None, requester_cap: None, responder_ct_exponent: None, responder_cap: None }
}
/// the union of the flags of the first `n` names
pub open spec fn flags_of(names: Seq<&str>, n: nat) -> u32 decreases n {
    if n == 0 { 0 } else {
        flags_of(names, (n - 1) as nat) | (match req_flag(names[n - 1]) { Some(f) => f.bits, None => 0 })
    }
}
pub open spec fn all_known(names: Seq<&str>) -> bool { forall|i: int| 0 <= i < names.len() ==> req_flag(#[trigger] names[i]) is Some }
/// what this requester advertises: exactly the configured capabilities
pub open spec fn request() -> GetCapabilities {
    GetCapabilities { ct_exponent: 12, flags: ReqFlags { bits: flags_of(config::CAPABILITIES_spec(), config::CAPABILITIES_spec().len()) } }
}
pub open spec fn sent(s: State, out: Seq<u8>, s2: State) -> bool {
    out == seq![0x11u8, 0xe1] + request().body()
        && s2 == (State { requester_ct_exponent: Some(12), requester_cap: Some(request().flags), ..s })
}
pub open spec fn caps_ok(t: Seq<u8>, rsp: Seq<u8>) -> bool {
    super::hdr::<Capabilities>(rsp) && Capabilities::accepts(super::rest(rsp)) && super::fits(t, rsp.len() as int)
}
/// the state after the CAPABILITIES body `b`
pub open spec fn next(s: State, b: Seq<u8>) -> algorithms::State {
    let m = Capabilities::parsed(b);
    algorithms::State { version: s.version, requester_ct_exponent: s.requester_ct_exponent->Some_0, requester_cap: s.requester_cap->Some_0,
        responder_ct_exponent: m.ct_exponent, responder_cap: m.flags, negotiate_algorithms: None, algorithms: None }
}

== fn requester::capabilities::State::default@Default ()
-- spec
    ensures r == fresh(crate::msgs::version::ent_zero()),

== fn requester::capabilities::State::new (version)
-- spec
    ensures r == fresh(version), //@C07

== fn requester::capabilities::config_to_get_capabilities_msg ()
-- spec
    ensures r is Ok && r->Ok_0 == request(), //@C21
-- loop 0 it
    invariant
        flags.bits == flags_of(config::CAPABILITIES_spec(), it.index@ as nat), all_known(config::CAPABILITIES_spec()),
-- body
    assert(all_known(config::CAPABILITIES_spec()));

== fn requester::capabilities::State::write_msg (self, buf, transcript)
-- spec
    requires old(transcript).wf(),
    ensures
        final(transcript).wf(),
        r is Ok <==> old(buf)@.len() >= 12 && super::fits(old(transcript).bytes(), 12), //@C04
        r is Ok ==> sent(*old(self), r->Ok_0@, *final(self)), //@C21
        final(self).requester_cap == old(self).requester_cap || final(self).requester_cap == Some(request().flags), //@C21
        r is Ok ==> final(transcript).bytes() == old(transcript).bytes() + r->Ok_0@, //@C11
-- after let size = msg.write(buf)?;
    assert(buf@.take(12) =~= seq![0x11u8, 0xe1] + msg.body());

== fn requester::capabilities::State::handle_msg (self, buf, transcript)
-- into algorithms::State
-- spec
    requires old(transcript).wf(), self.requester_ct_exponent is Some, self.requester_cap is Some,
    ensures
        final(transcript).wf(),
        r is Ok <==> caps_ok(old(transcript).bytes(), buf@), //@C13
        r is Ok ==> r->Ok_0 == next(self, super::rest(buf@)), //@C21
        r is Ok ==> final(transcript).bytes() == old(transcript).bytes() + buf@, //@C11

== mod requester::algorithms
use crate::msgs::algorithms::{algo_type, algo_bits};
pub use crate::responder::id_auth::selected;
/// the request of this requester: SHA-2, ECDSA P-256, and the algorithm structures of four types
pub open spec fn is_request(q: NegotiateAlgorithms) -> bool {
    &&& q.wf() && q.measurement_spec.bits == 1 && q.base_asym_algo.bits == 0x10 && q.base_hash_algo.bits == crate::crypto::hashes()
    &&& q.num_algorithm_requests == 4
    &&& algo_type(q.algorithm_requests@[0]) == 2 && algo_bits(q.algorithm_requests@[0]) == 0x12
    &&& algo_type(q.algorithm_requests@[1]) == 3 && algo_bits(q.algorithm_requests@[1]) == 0x6
    &&& algo_type(q.algorithm_requests@[2]) == 4 && algo_bits(q.algorithm_requests@[2]) == 0x90
    &&& algo_type(q.algorithm_requests@[3]) == 5 && algo_bits(q.algorithm_requests@[3]) == 0x1
}
/// an algorithm response selects nothing that was not offered for its type
pub open spec fn offered(q: NegotiateAlgorithms, a: AlgorithmRequest, n: int) -> bool {
    forall|i: int| 0 <= i < n && algo_type(#[trigger] q.algorithm_requests@[i]) == algo_type(a) ==> algo_bits(q.algorithm_requests@[i]) & algo_bits(a) != 0
}
pub open spec fn valid(q: NegotiateAlgorithms, a: Algorithms) -> bool {
    &&& q.measurement_spec == a.measurement_spec_selected
    &&& q.base_asym_algo.bits & a.base_asym_algo_selected.bits != 0
    &&& q.base_hash_algo.bits & a.base_hash_algo_selected.bits != 0
    &&& q.base_hash_algo.bits & a.measurement_hash_algo_selected.bits != 0
    &&& forall|k: int| 0 <= k < a.num_algorithm_responses ==> offered(q, #[trigger] a.algorithm_responses@[k], q.num_algorithm_requests as int)
}
pub open spec fn sent(s: State, out: Seq<u8>, s2: State) -> bool {
    &&& s2.negotiate_algorithms is Some && is_request(s2.negotiate_algorithms->Some_0)
    &&& s2 == (State { negotiate_algorithms: s2.negotiate_algorithms, ..s })
    &&& out == seq![0x11u8, 0xe3] + s2.negotiate_algorithms->Some_0.body()
}
/// exactly the one selection bit of the response, and it was offered
pub open spec fn only32(x: u32, offer: u32) -> bool { crate::vx::one32(x) && x & offer == x }
pub open spec fn only16(x: u16, offer: u16) -> bool { crate::vx::one16(x) && x & offer == x }
pub open spec fn accepted(s: State, b: Seq<u8>) -> bool {
    let q = s.negotiate_algorithms->Some_0;
    &&& b[4] == q.measurement_spec.bits
    &&& only32(crate::vx::rd32(b, 6), q.base_hash_algo.bits)
    &&& only32(crate::vx::rd32(b, 10), q.base_asym_algo.bits)
    &&& only32(crate::vx::rd32(b, 14), q.base_hash_algo.bits)
    &&& forall|k: nat, i: int| 0 <= k < b[0] && 0 <= i < q.num_algorithm_requests && b[#[trigger] crate::msgs::algorithms::algos_off(b, 34, k)] == algo_type(#[trigger] q.algorithm_requests@[i])
            ==> only16(crate::vx::rd16(b, crate::msgs::algorithms::algos_off(b, 34, k) + 2), algo_bits(q.algorithm_requests@[i]))
}
pub open spec fn alg_ok(s: State, t: Seq<u8>, rsp: Seq<u8>) -> bool {
    super::hdr::<Algorithms>(rsp) && Algorithms::accepts(super::rest(rsp)) && accepted(s, super::rest(rsp)) && super::fits(t, rsp.len() as int)
}
/// the negotiated algorithms are those of the response
pub open spec fn has_algorithms(s: State, rsp: Seq<u8>, s2: State) -> bool {
    &&& s2.algorithms is Some && Algorithms::parsed(super::rest(rsp), s2.algorithms->Some_0) && selected(s2.algorithms->Some_0)
    &&& s2 == (State { algorithms: s2.algorithms, ..s })
}
pub open spec fn both_cert(s: State) -> bool { s.requester_cap.bits & 0x2 == 0x2 && s.responder_cap.bits & 0x2 == 0x2 }
/// without a crypto provider this requester advertises no capability that would need one
pub proof fn needs_provider() //@C02
    ensures super::capabilities::request().flags.bits & 0x2 == 0x2 ==> super::provider(),
{
##if crypto
##else
    reveal_with_fuel(super::capabilities::flags_of, 1);
    assert(0u32 & 0x2 == 0) by (bit_vector);
##end
}
/// identification is only skipped when one of the sides has no certificates
pub open spec fn advanced(s: State, rsp: Seq<u8>, st2: super::AllStates) -> bool {
    if both_cert(s) {
        st2 is IdAuth && Algorithms::parsed(super::rest(rsp), st2->IdAuth_0.algorithms) && selected(st2->IdAuth_0.algorithms)
            && st2->IdAuth_0 == super::id_auth::next(s, st2->IdAuth_0.algorithms)
    } else { st2 == super::AllStates::NewSession }
}
pub proof fn bits32(x: u32, y: u32)
    ensures crate::vx::one32(x) ==> (only32(x, y) <==> y & x != 0), x != 0 && x & crate::crypto::hashes() == x && crate::vx::one32(x) ==> x == 1 || x == 2 || x == 4, x != 0 && x & 0x10 == x ==> x == 0x10,
{
    let hs = crate::crypto::hashes();
    assert(x != 0 && x & sub(x, 1) == 0 ==> ((x & y == x) == (y & x != 0))) by (bit_vector);
    assert(x != 0 && x & hs == x && x & sub(x, 1) == 0 ==> x == 1 || x == 2 || x == 4) by (bit_vector) requires hs == 7 || hs == 1;
    assert(x != 0 && x & 0x10 == x ==> x == 0x10) by (bit_vector);
}
pub proof fn bits16(x: u16, y: u16)
    ensures crate::vx::one16(x) ==> (only16(x, y) <==> y & x != 0),
{
    assert(x != 0 && x & sub(x, 1) == 0 ==> ((x & y == x) == (y & x != 0))) by (bit_vector);
}
/// for a decoded response, the checks amount to: every selection is one offered bit
pub proof fn checked(s: State, b: Seq<u8>, a: Algorithms)
    requires s.negotiate_algorithms is Some, is_request(s.negotiate_algorithms->Some_0), Algorithms::accepts(b), Algorithms::parsed(b, a),
    ensures valid(s.negotiate_algorithms->Some_0, a) <==> accepted(s, b), accepted(s, b) ==> selected(a),
{
    let q = s.negotiate_algorithms->Some_0;
    bits32(crate::vx::rd32(b, 6), q.base_hash_algo.bits);
    bits32(crate::vx::rd32(b, 10), q.base_asym_algo.bits);
    bits32(crate::vx::rd32(b, 14), q.base_hash_algo.bits);
    assert forall|k: nat| k < b[0] implies crate::vx::one16(crate::vx::rd16(b, #[trigger] crate::msgs::algorithms::algos_off(b, 34, k) + 2))
        && crate::msgs::algorithms::algo_at(b, crate::msgs::algorithms::algos_off(b, 34, k), a.algorithm_responses@[k as int]) by {}
    if valid(q, a) {
        assert forall|k: nat, i: int| 0 <= k < b[0] && 0 <= i < q.num_algorithm_requests && b[#[trigger] crate::msgs::algorithms::algos_off(b, 34, k)] == algo_type(#[trigger] q.algorithm_requests@[i])
            implies only16(crate::vx::rd16(b, crate::msgs::algorithms::algos_off(b, 34, k) + 2), algo_bits(q.algorithm_requests@[i])) by {
            assert(offered(q, a.algorithm_responses@[k as int], q.num_algorithm_requests as int));
            bits16(algo_bits(a.algorithm_responses@[k as int]), algo_bits(q.algorithm_requests@[i]));
        }
    }
    if accepted(s, b) {
        assert forall|k: int| 0 <= k < a.num_algorithm_responses implies offered(q, #[trigger] a.algorithm_responses@[k], q.num_algorithm_requests as int) by {
            assert forall|i: int| 0 <= i < q.num_algorithm_requests && algo_type(#[trigger] q.algorithm_requests@[i]) == algo_type(a.algorithm_responses@[k])
                implies algo_bits(q.algorithm_requests@[i]) & algo_bits(a.algorithm_responses@[k]) != 0 by {
                let o = crate::msgs::algorithms::algos_off(b, 34, k as nat);
                assert(b[o] == algo_type(q.algorithm_requests@[i]));
                bits16(algo_bits(a.algorithm_responses@[k]), algo_bits(q.algorithm_requests@[i]));
            }
        }
    }
}

== fn requester::algorithms::State::from@From<capabilities::State> (s)
-- spec
    requires s.requester_ct_exponent is Some, s.requester_cap is Some, s.responder_ct_exponent is Some, s.responder_cap is Some,
    ensures r == (State { version: s.version, requester_ct_exponent: s.requester_ct_exponent->Some_0, requester_cap: s.requester_cap->Some_0,
        responder_ct_exponent: s.responder_ct_exponent->Some_0, responder_cap: s.responder_cap->Some_0, negotiate_algorithms: None, algorithms: None }),

== fn requester::algorithms::config_to_negotiate_algorithms_msg ()
-- spec
    ensures r is Ok && is_request(r->Ok_0), //@C09
-- body
    reveal_with_fuel(crate::responder::algorithms::asym_of, 2);
    assert(0u32 | 0x10u32 == 0x10u32) by (bit_vector);
    assert(0x2u16 | 0x10u16 == 0x12u16 && 0x2u16 | 0x4u16 == 0x6u16 && 0x80u16 | 0x10u16 == 0x90u16 && 0x12u16 & !0x3fu16 == 0 && 0x6u16 & !0x7u16 == 0 && 0x90u16 & !0x1ffu16 == 0 && 1u16 & !1u16 == 0) by (bit_vector);
    assert(1u8 & !1u8 == 0 && 0x10u32 & !0x1ffu32 == 0 && 7u32 & !0x3fu32 == 0 && 1u32 & !0x3fu32 == 0) by (bit_vector);
-- loop 0 it
    invariant
        signing_algos.bits == crate::responder::algorithms::asym_of(config::ALGORITHMS_ASYMMETRIC_SIGNING_spec(), it.index@ as nat),
        config::ALGORITHMS_ASYMMETRIC_SIGNING_spec().len() == 1, config::ALGORITHMS_ASYMMETRIC_SIGNING_spec()[0] == "ECDSA_ECC_NIST_P256",

== fn requester::algorithms::State::write_msg (self, buf, transcript)
-- spec
    requires old(transcript).wf(),
    ensures
        final(transcript).wf(),
        r is Ok <==> old(buf)@.len() >= 48 && super::fits(old(transcript).bytes(), 48), //@C04
        *final(self) == (State { negotiate_algorithms: final(self).negotiate_algorithms, ..*old(self) }),
        final(self).negotiate_algorithms is Some ==> final(self).negotiate_algorithms == old(self).negotiate_algorithms || is_request(final(self).negotiate_algorithms->Some_0),
        r is Ok ==> sent(*old(self), r->Ok_0@, *final(self)), //@C09
        r is Ok ==> final(transcript).bytes() == old(transcript).bytes() + r->Ok_0@, //@C11
-- before let size = msg.write(buf)?;
    crate::msgs::algorithms::algos_body_len(msg.algorithm_requests@, 4);
-- after let size = msg.write(buf)?;
    assert(size == 48);
    assert(buf@.take(48) =~= seq![0x11u8, 0xe3] + msg.body());

== fn requester::algorithms::State::ensure_algorithm_response_is_valid (self, response)
-- spec
    requires self.negotiate_algorithms is Some, is_request(self.negotiate_algorithms->Some_0),
    ensures r is Ok <==> offered(self.negotiate_algorithms->Some_0, *response, 4), //@C09
-- loop 0
    invariant
        requested.num_algorithm_requests == 4, *requested == self.negotiate_algorithms->Some_0, response is Dhe, response->Dhe_0 == *rsp,
        err is Err, offered(*requested, *response, i as int),
-- loop 1
    invariant
        requested.num_algorithm_requests == 4, *requested == self.negotiate_algorithms->Some_0, response is Aead, response->Aead_0 == *rsp,
        err is Err, offered(*requested, *response, i as int),
-- loop 2
    invariant
        requested.num_algorithm_requests == 4, *requested == self.negotiate_algorithms->Some_0, response is ReqBaseAsym, response->ReqBaseAsym_0 == *rsp,
        err is Err, offered(*requested, *response, i as int),
-- loop 3
    invariant
        requested.num_algorithm_requests == 4, *requested == self.negotiate_algorithms->Some_0, response is KeySchedule, response->KeySchedule_0 == *rsp,
        err is Err, offered(*requested, *response, i as int),
-- loopbody 0
    ghost let q = requested.algorithm_requests@[i as int];
-- loopbody 1
    ghost let q = requested.algorithm_requests@[i as int];
-- loopbody 2
    ghost let q = requested.algorithm_requests@[i as int];
-- loopbody 3
    ghost let q = requested.algorithm_requests@[i as int];

== fn requester::algorithms::State::ensure_valid_algorithms_selected (self, algorithms)
-- spec
    requires self.negotiate_algorithms is Some, is_request(self.negotiate_algorithms->Some_0), algorithms.num_algorithm_responses <= MAX_ALGORITHM_REQUESTS,
    ensures r is Ok <==> valid(self.negotiate_algorithms->Some_0, *algorithms), //@C09
-- loop 0
    invariant
        self.negotiate_algorithms is Some, is_request(self.negotiate_algorithms->Some_0), algorithms.num_algorithm_responses <= MAX_ALGORITHM_REQUESTS,
        forall|k: int| 0 <= k < i ==> offered(self.negotiate_algorithms->Some_0, #[trigger] algorithms.algorithm_responses@[k], 4),
-- loopbody 0
    assert(valid(self.negotiate_algorithms->Some_0, *algorithms) ==> offered(self.negotiate_algorithms->Some_0, algorithms.algorithm_responses@[i as int], 4));

== fn requester::algorithms::State::handle_msg (self, buf, transcript)
-- spec
    requires old(transcript).wf(), old(self).negotiate_algorithms is Some, is_request(old(self).negotiate_algorithms->Some_0),
    ensures
        final(transcript).wf(),
        r is Ok <==> alg_ok(*old(self), old(transcript).bytes(), buf@), //@C09,C13
        r is Ok ==> has_algorithms(*old(self), buf@, *final(self)), //@C09
        r is Ok ==> final(transcript).bytes() == old(transcript).bytes() + buf@, //@C11
-- after let algorithms
    ghost let a0 = algorithms;
    checked(*self, super::rest(buf@), a0);

== mod requester::id_auth
/// GET_CERTIFICATE for the whole chain of a slot
pub open spec fn ask(slot: u8) -> Seq<u8> {
    seq![0x11u8, 0x82, slot] + seq![0u8] + crate::vx::le16(0) + crate::vx::le16(MAX_CERT_CHAIN_SIZE as u16)
}
use crate::crypto::digest::hash_len;
pub open spec fn next(s: algorithms::State, a: Algorithms) -> State {
    State { version: s.version, requester_ct_exponent: s.requester_ct_exponent, requester_cap: s.requester_cap,
        responder_ct_exponent: s.responder_ct_exponent, responder_cap: s.responder_cap, algorithms: a, digests: None, cert_chain: None }
}
pub open spec fn digests_ok(s: State, t: Seq<u8>, rsp: Seq<u8>) -> bool {
    super::hdr::<Digests>(rsp) && Digests::accepts(super::rest(rsp), hash_len(s.algorithms.base_hash_algo_selected)) && super::fits(t, rsp.len() as int)
}
pub open spec fn has_digests(s: State, rsp: Seq<u8>, s2: State) -> bool {
    &&& s2.digests is Some && Digests::parsed(super::rest(rsp), hash_len(s.algorithms.base_hash_algo_selected), s2.digests->Some_0)
    &&& s2 == (State { digests: s2.digests, ..s })
}
pub open spec fn cert_ok(t: Seq<u8>, rsp: Seq<u8>) -> bool {
    super::hdr::<Certificate>(rsp) && Certificate::accepts(super::rest(rsp)) && super::fits(t, rsp.len() as int)
}
pub open spec fn has_cert(s: State, rsp: Seq<u8>, s2: State) -> bool {
    &&& s2.cert_chain is Some && Certificate::parsed(super::rest(rsp), s2.cert_chain->Some_0) && s2.cert_chain->Some_0.wf()
    &&& s2 == (State { cert_chain: s2.cert_chain, ..s })
}
pub open spec fn both_chal(s: State) -> bool { s.requester_cap.bits & 0x4 == 0x4 && s.responder_cap.bits & 0x4 == 0x4 }
/// authentication is only skipped when one of the sides does not support it
pub open spec fn advanced(s: State, rsp: Seq<u8>, st2: super::AllStates) -> bool {
    let b = super::rest(rsp);
    if both_chal(s) {
        st2 is Challenge && {
            let c = st2->Challenge_0;
            &&& c.cert_slot == b[0] && c.cert_chain_size == crate::vx::rd16(b, 2) && c.cert_chain_size <= MAX_CERT_CHAIN_SIZE
            &&& c.chain() =~= b.subrange(6, 6 + c.cert_chain_size)
            &&& c == super::challenge::State { version: s.version, requester_ct_exponent: s.requester_ct_exponent, requester_cap: s.requester_cap,
                responder_ct_exponent: s.responder_ct_exponent, responder_cap: s.responder_cap, algorithms: s.algorithms,
                cert_slot: c.cert_slot, cert_chain: c.cert_chain, cert_chain_size: c.cert_chain_size, nonce: None }
        }
    } else { st2 == super::AllStates::NewSession }
}

== fn requester::id_auth::State::from@From<algorithms::State> (s)
-- spec
    requires s.algorithms is Some,
    ensures r == next(s, s.algorithms->Some_0),

== fn requester::id_auth::State::write_get_digests_msg (self, buf, transcript)
-- spec
    requires old(transcript).wf(),
    ensures
        final(transcript).wf(), *final(self) == *old(self),
        r is Ok <==> old(buf)@.len() >= 4 && super::fits(old(transcript).bytes(), 4), //@C04
        r is Ok ==> r->Ok_0@ == seq![0x11u8, 0x81, 0, 0], //@C13
        r is Ok ==> final(transcript).bytes() == old(transcript).bytes() + r->Ok_0@, //@C11
-- after let size = GetDigests {}.write(buf)?;
    assert(buf@.take(size as int) =~= seq![0x11u8, 0x81, 0, 0]);

== fn requester::id_auth::State::handle_digests (self, buf, transcript)
-- spec
    requires old(transcript).wf(), algorithms::selected(old(self).algorithms),
    ensures
        final(transcript).wf(),
        r is Ok <==> digests_ok(*old(self), old(transcript).bytes(), buf@), //@C13,C17
        r is Ok ==> has_digests(*old(self), buf@, *final(self)), //@C17
        r is Ok ==> final(transcript).bytes() == old(transcript).bytes() + buf@, //@C11
-- body
    assert(1u32 & !0x3fu32 == 0 && 1u32 & sub(1u32, 1) == 0 && 2u32 & !0x3fu32 == 0 && 2u32 & sub(2u32, 1) == 0 && 4u32 & !0x3fu32 == 0 && 4u32 & sub(4u32, 1) == 0) by (bit_vector);

== fn requester::id_auth::State::write_get_certificate_msg (self, slot, buf, transcript)
-- spec
    requires old(transcript).wf(), slot < NUM_SLOTS,
    ensures
        final(transcript).wf(), *final(self) == *old(self),
        r is Ok <==> old(buf)@.len() >= 8 && super::fits(old(transcript).bytes(), 8), //@C04
        r is Ok ==> r->Ok_0@ == ask(slot), //@C13
        r is Ok ==> final(transcript).bytes() == old(transcript).bytes() + r->Ok_0@, //@C11
-- after let size = msg.write(buf)?;
    assert(0u16 & 0xff == 0 && (0u16 >> 8) & 0xff == 0) by (bit_vector);
    assert(buf@.take(size as int) =~= ask(slot));

== fn requester::id_auth::State::handle_certificate (self, buf, transcript)
-- spec
    requires old(transcript).wf(),
    ensures
        final(transcript).wf(),
        r is Ok <==> cert_ok(old(transcript).bytes(), buf@), //@C13
        r is Ok ==> has_cert(*old(self), buf@, *final(self)), //@C13,C14
        r is Ok ==> final(transcript).bytes() == old(transcript).bytes() + buf@, //@C11

== mod requester::challenge
use crate::crypto::NONCE;
use crate::crypto::digest::{hash_len, hashed};
use crate::crypto::pki::{sig_good, chain_good};
impl State {
    /// the certificate chain received from the responder
    pub open spec fn chain(&self) -> Seq<u8> { self.cert_chain@.take(self.cert_chain_size as int) }
}
pub open spec fn sent(s: State, out: Seq<u8>, s2: State) -> bool {
    &&& s2.nonce is Some && s2 == (State { nonce: s2.nonce, ..s })
    &&& out == seq![0x11u8, 0x83, s.cert_slot, 0] + s2.nonce->Some_0.bytes()
    &&& crate::ext::rand::drawn(out.skip(4))
}
/// the chain verifies up to the root certificate, and `sig` is a signature of `msg` by its leaf
pub open spec fn proven(s: State, c: CertificateChain, msg: Seq<u8>, sig: Seq<u8>, root: Seq<u8>, time: u64) -> bool {
    &&& CertificateChain::accepts(s.chain(), hash_len(s.algorithms.base_hash_algo_selected))
    &&& CertificateChain::parsed(s.chain(), hash_len(s.algorithms.base_hash_algo_selected), c)
    &&& crate::ext::webpki::parses(c.leaf_cert@)
    &&& chain_good(c.leaf_cert@, s.algorithms.base_asym_algo_selected, crate::ext::webpki::contents(c.inters()), root, time)
    &&& sig_good(c.leaf_cert@, s.algorithms.base_asym_algo_selected, msg, sig)
}
/// the response proves possession of the leaf key of a trusted chain, over the whole conversation
pub open spec fn authentic(s: State, t: Seq<u8>, rsp: Seq<u8>, root: Seq<u8>) -> bool {
    let a = s.algorithms.base_hash_algo_selected;
    let d = hash_len(a);
    let b = super::rest(rsp);
    let g = ChallengeAuth::sig_off(b, d);
    &&& super::hdr::<ChallengeAuth>(rsp) && ChallengeAuth::accepts(b, d, 64)
    &&& b[0] & 15 == s.cert_slot && crate::msgs::digest::mask_bit(b[1], s.cert_slot as int)
    &&& b.subrange(2, 2 + d) == hashed(a, s.chain())
    &&& exists|c: CertificateChain| #[trigger] proven(s, c, hashed(a, t + rsp.take(rsp.len() - 64)), b.subrange(g, g + 64), root, 1638316800)
}

== fn requester::challenge::State::from@From<id_auth::State> (s)
-- spec
    requires s.cert_chain is Some, s.cert_chain->Some_0.wf(),
    ensures r == (State { version: s.version, requester_ct_exponent: s.requester_ct_exponent, requester_cap: s.requester_cap,
        responder_ct_exponent: s.responder_ct_exponent, responder_cap: s.responder_cap, algorithms: s.algorithms,
        cert_slot: s.cert_chain->Some_0.slot, cert_chain: s.cert_chain->Some_0.cert_chain, cert_chain_size: s.cert_chain->Some_0.portion_length, nonce: None }), //@C14

== fn requester::challenge::State::write_msg (self, buf, transcript)
-- spec
    requires old(transcript).wf(),
    ensures
        final(transcript).wf(), *final(self) == (State { nonce: final(self).nonce, ..*old(self) }),
        r is Ok <==> old(buf)@.len() >= 4 + NONCE && super::fits(old(transcript).bytes(), 4 + NONCE), //@C04
        r is Ok ==> crate::ext::rand::drawn(r->Ok_0@.skip(4)), //@C23
        r is Ok ==> sent(*old(self), r->Ok_0@, *final(self)), //@C13,C23
        r is Ok ==> final(transcript).bytes() == old(transcript).bytes() + r->Ok_0@, //@C11
-- before transcript.extend(&buf[..size])?;
    assert(buf@.take(size as int) =~= seq![0x11u8, 0x83, challenge.slot, 0] + challenge.nonce.bytes());
    assert(buf@.take(size as int).skip(4) =~= challenge.nonce.bytes());

== fn requester::challenge::State::verify_cert_chain_and_signature (self, digest_size, m2_hash, signature, root_cert, seconds_since_unix_epoch)
-- spec
    requires
        super::provider(), super::algorithms::selected(self.algorithms), self.cert_chain_size <= MAX_CERT_CHAIN_SIZE,
        digest_size.n() == hash_len(self.algorithms.base_hash_algo_selected), 2 <= signature@.len() <= crate::config::MAX_SIGNATURE_SIZE,
    ensures
        r is Ok ==> exists|c: CertificateChain| #[trigger] proven(*self, c, m2_hash@, signature@, root_cert@, seconds_since_unix_epoch), //@C14
        (exists|c: CertificateChain| #[trigger] proven(*self, c, m2_hash@, signature@, root_cert@, seconds_since_unix_epoch)) ==> r is Ok, //@C24
-- after let cert_chain =
    ghost let o = 4 + hash_len(self.algorithms.base_hash_algo_selected);
    assert forall|c: CertificateChain| #[trigger] proven(*self, c, m2_hash@, signature@, root_cert@, seconds_since_unix_epoch)
        implies c.leaf_cert@ == cert_chain.leaf_cert@ && crate::ext::webpki::contents(c.inters()) == crate::ext::webpki::contents(cert_chain.inters()) by {
        CertificateChain::unique(self.chain(), o, c, cert_chain);
        assert(c.leaf_cert@ =~= cert_chain.leaf_cert@);
        assert forall|i: int| 0 <= i < c.n() implies #[trigger] c.inters()[i]@ == cert_chain.inters()[i]@ by { assert(c.intermediate_certs@[i]@ == cert_chain.intermediate_certs@[i]@); }
        assert(crate::ext::webpki::contents(c.inters()) =~= crate::ext::webpki::contents(cert_chain.inters()));
    }
-- end
    assert(proven(*self, cert_chain, m2_hash@, signature@, root_cert@, seconds_since_unix_epoch));

== fn requester::challenge::State::handle_msg (self, buf, transcript, root_cert)
-- spec
    requires old(transcript).wf(), super::provider(), super::algorithms::selected(self.algorithms), self.cert_chain_size <= MAX_CERT_CHAIN_SIZE,
    ensures
        final(transcript).wf(),
        r is Ok ==> authentic(*self, old(transcript).bytes(), buf@, root_cert@), //@C14,C13
        authentic(*self, old(transcript).bytes(), buf@, root_cert@) && super::fits(old(transcript).bytes(), buf@.len() - 64) ==> r is Ok, //@C24
        r is Ok ==> super::fits(old(transcript).bytes(), buf@.len() - 64),
        r is Ok ==> final(transcript).bytes() == old(transcript).bytes() + buf@.take(buf@.len() - 64), //@C11
-- body
    assert(1u32 & !0x3fu32 == 0 && 1u32 & sub(1u32, 1) == 0 && 2u32 & !0x3fu32 == 0 && 2u32 & sub(2u32, 1) == 0 && 4u32 & !0x3fu32 == 0 && 4u32 & sub(4u32, 1) == 0) by (bit_vector);
-- after let rsp
    ghost let sl = rsp.slot;
    ghost let mk = rsp.slot_mask;
    assert(sl < 8 ==> sl != 15 && ((mk & (1u8 << sl) != 0) == ((mk >> sl) & 1 == 1))) by (bit_vector);

== fn requester::AllStates::write_req (self, buf, transcript)
-- spec
    requires old(transcript).wf(), live(*old(self)),
    ensures
        final(transcript).wf(), live(*final(self)),
        r is Ok <==> req_fits(*old(self), old(transcript).bytes(), old(buf)@.len() as int), //@C13
        r is Ok ==> pending(*final(self)) && sent(*old(self), old(transcript).bytes(), r->Ok_0@, final(transcript).bytes(), *final(self)), //@C13,C11

== fn requester::AllStates::handle_msg (self, rsp, transcript, root_cert)
-- spec
    requires old(transcript).wf(), pending(self),
    ensures
        final(transcript).wf(),
        r is Ok ==> acceptable(self, root_cert@, old(transcript).bytes(), rsp@), //@C13
        acceptable(self, root_cert@, old(transcript).bytes(), rsp@) ==> r is Ok, //@C13,C24
        r is Ok ==> inv(r->Ok_0) && !(r->Ok_0 is Error) && step(self, root_cert@, old(transcript).bytes(), rsp@, final(transcript).bytes(), r->Ok_0), //@C13,C14,C11
-- body
    algorithms::needs_provider();

== impl requester::RequesterInit
    pub open spec fn ok(&self) -> bool { self.data.state is Some && self.data.transcript.wf() && inv(self.data.state->Some_0) }
    pub open spec fn st(&self) -> AllStates { self.data.state->Some_0 }
    pub open spec fn tr(&self) -> Seq<u8> { self.data.transcript.bytes() }

== fn requester::RequesterInit::new (root_cert, slots)
-- spec
    ensures r.ok(), r.st() == AllStates::Version(version::State {}), r.tr() =~= Seq::<u8>::empty(), r.data.root_cert == root_cert, r.data.slots == slots, //@C13

== fn requester::RequesterInit::next_request (self, buf)
-- spec
    requires old(self).ok(), !(old(self).st() is Error),
    ensures
        final(self).ok(), final(self).data.root_cert == old(self).data.root_cert, !(final(self).st() is Error),
        old(self).st() is NewSession ==> r == Err::<&[u8], RequesterError>(RequesterError::InitializationComplete) && final(self).st() is NewSession && final(self).tr() == old(self).tr(), //@C13
        !(old(self).st() is NewSession) && r is Ok ==> req_fits(old(self).st(), old(self).tr(), old(buf)@.len() as int), //@C13
        !(old(self).st() is NewSession) && req_fits(old(self).st(), old(self).tr(), old(buf)@.len() as int) ==> r is Ok, //@C13,C24
        r is Ok ==> pending(final(self).st()) && sent(old(self).st(), old(self).tr(), r->Ok_0@, final(self).tr(), final(self).st()), //@C13,C11

== fn requester::RequesterInit::handle_msg (self, rsp)
-- spec
    requires old(self).ok(), pending(old(self).st()),
    ensures
        final(self).ok(), final(self).data.root_cert == old(self).data.root_cert,
        r is Err <==> final(self).st() is Error, //@C13
        r is Ok ==> acceptable(old(self).st(), old(self).data.root_cert@, old(self).tr(), rsp@), //@C13
        acceptable(old(self).st(), old(self).data.root_cert@, old(self).tr(), rsp@) ==> r is Ok, //@C13,C24
        r is Ok ==> (r->Ok_0 <==> final(self).st() is NewSession), //@C13
        r is Ok ==> step(old(self).st(), old(self).data.root_cert@, old(self).tr(), rsp@, final(self).tr(), final(self).st()), //@C13,C14,C11

== fn requester::RequesterInit::state (self)
-- spec
    requires self.ok(),
    ensures *r == self.st(), //@C13

== fn requester::RequesterInit::transcript (self)
-- spec
    ensures *r == self.data.transcript, //@C11

== fn requester::RequesterInit::slots (self)
-- spec
    ensures *r == self.data.slots,

== fn requester::RequesterInit::begin_session (self)
-- into RequesterSession
-- spec
    ensures r._data == self.data,

== fn requester::AllStates::name (self)
-- spec
    ensures
        r@ == (match *self {
            AllStates::Error => "Error"@,
            AllStates::Version(_) => "Version"@,
            AllStates::Capabilities(_) => "Capabilities"@,
            AllStates::Algorithms(_) => "Algorithms"@,
            AllStates::IdAuth(_) => "IdAuth"@,
            AllStates::Challenge(_) => "Challenge"@,
            AllStates::NewSession => "NewSession"@,
        }),

== fn requester::algorithms::State::default@Default ()
-- spec
    ensures r.version == crate::msgs::version::ent_zero(), r.requester_ct_exponent == 0, r.requester_cap.bits == 0, r.responder_ct_exponent == 0, r.responder_cap.bits == 0,
        r.negotiate_algorithms is None, r.algorithms is None,

== fn requester::id_auth::State::default@Default ()
-- spec
    ensures r.version == crate::msgs::version::ent_zero(), r.requester_ct_exponent == 0, r.requester_cap.bits == 0, r.responder_ct_exponent == 0, r.responder_cap.bits == 0,
        r.digests is None, r.cert_chain is None,
