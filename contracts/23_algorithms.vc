== mod msgs::algorithms
/// the configuration names of the algorithms
pub open spec fn asym_name(s: &str) -> Option<BaseAsymAlgo> {
    if s == "RSASSA_2048" { Some(BaseAsymAlgo { bits: 0x1 }) } else
    if s == "RSAPSS_2048" { Some(BaseAsymAlgo { bits: 0x2 }) } else
    if s == "RSASSA_3072" { Some(BaseAsymAlgo { bits: 0x4 }) } else
    if s == "RSAPSS_3072" { Some(BaseAsymAlgo { bits: 0x8 }) } else
    if s == "ECDSA_ECC_NIST_P256" { Some(BaseAsymAlgo { bits: 0x10 }) } else
    if s == "RSASSA_4096" { Some(BaseAsymAlgo { bits: 0x20 }) } else
    if s == "RSAPSS_4096" { Some(BaseAsymAlgo { bits: 0x40 }) } else
    if s == "ECDSA_ECC_NIST_P384" { Some(BaseAsymAlgo { bits: 0x80 }) } else
    if s == "ECDSA_ECC_NIST_P521" { Some(BaseAsymAlgo { bits: 0x100 }) } else
    { None }
}
pub open spec fn hash_name(s: &str) -> Option<BaseHashAlgo> {
    if s == "SHA_256" { Some(BaseHashAlgo { bits: 0x1 }) } else
    if s == "SHA_384" { Some(BaseHashAlgo { bits: 0x2 }) } else
    if s == "SHA_512" { Some(BaseHashAlgo { bits: 0x4 }) } else
    if s == "SHA3_256" { Some(BaseHashAlgo { bits: 0x8 }) } else
    if s == "SHA3_384" { Some(BaseHashAlgo { bits: 0x10 }) } else
    if s == "SHA3_512" { Some(BaseHashAlgo { bits: 0x20 }) } else
    { None }
}
// no undefined bit
pub open spec fn mspec_valid(x: u8) -> bool { x & !1u8 == 0 }
pub open spec fn asym_valid(x: u32) -> bool { x & !0x1ffu32 == 0 }
pub open spec fn hash_valid(x: u32) -> bool { x & !0x3fu32 == 0 }
pub open spec fn dhe_valid(x: u16) -> bool { x & !0x3fu16 == 0 }
pub open spec fn aead_valid(x: u16) -> bool { x & !0x7u16 == 0 }
pub open spec fn req_asym_valid(x: u16) -> bool { x & !0x1ffu16 == 0 }
pub open spec fn key_sched_valid(x: u16) -> bool { x & !0x1u16 == 0 }

// ---- algorithm request structures: type, counts, 16-bit bitmap
pub open spec fn algo_type(a: AlgorithmRequest) -> u8 {
    match a { AlgorithmRequest::Dhe(_) => 2, AlgorithmRequest::Aead(_) => 3, AlgorithmRequest::ReqBaseAsym(_) => 4, AlgorithmRequest::KeySchedule(_) => 5 }
}
pub open spec fn algo_bits(a: AlgorithmRequest) -> u16 {
    match a {
        AlgorithmRequest::Dhe(x) => x.supported.bits,
        AlgorithmRequest::Aead(x) => x.supported.bits,
        AlgorithmRequest::ReqBaseAsym(x) => x.supported.bits,
        AlgorithmRequest::KeySchedule(x) => x.supported.bits,
    }
}
pub open spec fn algo_bits_valid(t: u8, x: u16) -> bool {
    if t == 2 { dhe_valid(x) } else if t == 3 { aead_valid(x) } else if t == 4 { req_asym_valid(x) } else if t == 5 { key_sched_valid(x) } else { false }
}
pub open spec fn algo_ok(a: AlgorithmRequest) -> bool { algo_bits_valid(algo_type(a), algo_bits(a)) }
pub open spec fn algo_bytes(a: AlgorithmRequest) -> Seq<u8> { seq![algo_type(a), 0x20u8] + crate::vx::le16(algo_bits(a)) }
pub open spec fn algo_acc(b: Seq<u8>, o: int) -> bool {
    &&& 0 <= o && o + 4 <= b.len()
    &&& (b[o + 1] >> 4) & 15 == 2
    &&& algo_bits_valid(b[o], crate::vx::rd16(b, o + 2))
    &&& algo_end(b, o) <= b.len()
}
pub open spec fn algo_end(b: Seq<u8>, o: int) -> int { o + 4 + 4 * (b[o + 1] & 15) }
pub open spec fn algo_at(b: Seq<u8>, o: int, a: AlgorithmRequest) -> bool { algo_type(a) == b[o] && algo_bits(a) == crate::vx::rd16(b, o + 2) }
/// offset of the n-th structure of a list starting at `o`
pub open spec fn algos_off(b: Seq<u8>, o: int, n: nat) -> int decreases n {
    if n == 0 { o } else { algo_end(b, algos_off(b, o, (n - 1) as nat)) }
}
pub open spec fn algos_acc(b: Seq<u8>, o: int, n: nat) -> bool {
    forall|i: nat| i < n ==> #[trigger] algo_acc(b, algos_off(b, o, i))
}
pub open spec fn algos_at(b: Seq<u8>, o: int, n: nat, s: Seq<AlgorithmRequest>) -> bool {
    forall|i: int| 0 <= i < n ==> algo_at(b, algos_off(b, o, i as nat), #[trigger] s[i])
}
pub open spec fn algos_body(s: Seq<AlgorithmRequest>, n: nat) -> Seq<u8> decreases n {
    if n == 0 { Seq::empty() } else { algos_body(s, (n - 1) as nat) + algo_bytes(s[n - 1]) }
}
pub proof fn algos_body_len(s: Seq<AlgorithmRequest>, n: nat)
    ensures algos_body(s, n).len() == 4 * n,
    decreases n,
{
    if n > 0 { algos_body_len(s, (n - 1) as nat); }
}
/// a list read back where it was written
pub proof fn algos_round_trip(p: Seq<u8>, s: Seq<AlgorithmRequest>, n: nat, t: Seq<u8>, b: Seq<u8>)
    requires b == p + algos_body(s, n) + t, n <= s.len(), forall|i: int| 0 <= i < n ==> algo_ok(#[trigger] s[i]),
    ensures
        algos_off(b, p.len() as int, n) == p.len() + 4 * n,
        algos_acc(b, p.len() as int, n),
        algos_at(b, p.len() as int, n, s),
    decreases n,
{
    algos_body_len(s, n);
    if n > 0 {
        let m = (n - 1) as nat;
        algos_body_len(s, m);
        assert(b =~= p + algos_body(s, m) + (algo_bytes(s[m as int]) + t));
        algos_round_trip(p, s, m, algo_bytes(s[m as int]) + t, b);
        let o = algos_off(b, p.len() as int, m);
        assert(o == p.len() + 4 * m);
        assert(b.subrange(o, o + 4) =~= algo_bytes(s[m as int]));
        assert(b[o] == algo_bytes(s[m as int])[0] && b[o + 1] == algo_bytes(s[m as int])[1] && b[o + 2] == algo_bytes(s[m as int])[2]
            && b[o + 3] == algo_bytes(s[m as int])[3]);
        crate::vx::rd16_of(b, o + 2, algo_bits(s[m as int]));
        assert(0x20u8 & 15 == 0 && (0x20u8 >> 4) & 15 == 2) by (bit_vector);
        assert(algo_ok(s[m as int]));
        assert(algo_acc(b, o));
    }
}
/// equal type and bitmap means equal structure
pub proof fn algo_inj(a: AlgorithmRequest, b: AlgorithmRequest)
    requires algo_type(a) == algo_type(b), algo_bits(a) == algo_bits(b),
    ensures a == b,
{
}

// ---- NEGOTIATE_ALGORITHMS
pub open spec fn neg_head(n: u8, len: u16, spec: u8, asym: u32, hash: u32) -> Seq<u8> {
    seq![n, 0u8] + crate::vx::le16(len) + seq![spec, 0u8] + crate::vx::le32(asym) + crate::vx::le32(hash) + crate::vx::zseq(16)
}
impl NegotiateAlgorithms {
    pub open spec fn wf(&self) -> bool {
        &&& self.num_algorithm_requests <= MAX_ALGORITHM_REQUESTS
        &&& mspec_valid(self.measurement_spec.bits) && asym_valid(self.base_asym_algo.bits) && hash_valid(self.base_hash_algo.bits)
        &&& forall|i: int| 0 <= i < self.num_algorithm_requests ==> algo_ok(#[trigger] self.algorithm_requests@[i])
    }
    pub open spec fn reqs_at(b: Seq<u8>) -> int { 30 + 4 * b[26] + 4 * b[27] }
    /// why a body is refused
    pub open spec fn fault(b: Seq<u8>, e: ParseNegotiateAlgorithmsError) -> bool {
        match e {
            ParseNegotiateAlgorithmsError::MaxAlgorithmRequestsExceeded => b.len() >= 1 && b[0] > MAX_ALGORITHM_REQUESTS,
            ParseNegotiateAlgorithmsError::TooLarge => b.len() >= 4 && crate::vx::rd16(b, 2) > 128,
            ParseNegotiateAlgorithmsError::InvalidMeasurementSpec => b.len() >= 5 && !mspec_valid(b[4]),
            ParseNegotiateAlgorithmsError::InvalidBaseAsymAlgo => b.len() >= 10 && !asym_valid(crate::vx::rd32(b, 6)),
            ParseNegotiateAlgorithmsError::InvalidBaseHashAlgo => b.len() >= 14 && !hash_valid(crate::vx::rd32(b, 10)),
            ParseNegotiateAlgorithmsError::Read(ReadError::BufferEmpty) => b.len() < 30 || Self::reqs_at(b) > b.len(),
            ParseNegotiateAlgorithmsError::Read(ReadError::ReservedByteNotZero) =>
                crate::vx::dirty(b, 1, 1) || crate::vx::dirty(b, 5, 1) || crate::vx::dirty(b, 14, 12) || crate::vx::dirty(b, 28, 2),
            ParseNegotiateAlgorithmsError::Read(_) => false,
            ParseNegotiateAlgorithmsError::AlgorithmRequest(_) => b.len() >= 30 && Self::reqs_at(b) <= b.len() && !algos_acc(b, Self::reqs_at(b), b[0] as nat),
        }
    }
    pub open spec fn accepts(b: Seq<u8>) -> bool {
        &&& b.len() >= 30 && b[0] <= MAX_ALGORITHM_REQUESTS && b[1] == 0
        &&& crate::vx::rd16(b, 2) <= 128
        &&& mspec_valid(b[4]) && b[5] == 0
        &&& asym_valid(crate::vx::rd32(b, 6)) && hash_valid(crate::vx::rd32(b, 10))
        &&& crate::vx::zeros(b, 14, 12) && crate::vx::zeros(b, 28, 2)
        &&& Self::reqs_at(b) <= b.len()
        &&& algos_acc(b, Self::reqs_at(b), b[0] as nat)
    }
    pub open spec fn parsed(b: Seq<u8>, m: Self) -> bool {
        &&& m.num_algorithm_requests == b[0]
        &&& m.measurement_spec.bits == b[4]
        &&& m.base_asym_algo.bits == crate::vx::rd32(b, 6)
        &&& m.base_hash_algo.bits == crate::vx::rd32(b, 10)
        &&& algos_at(b, Self::reqs_at(b), b[0] as nat, m.algorithm_requests@)
    }
    pub open spec fn same(m: Self, m2: Self) -> bool {
        &&& m2.num_algorithm_requests == m.num_algorithm_requests
        &&& m2.measurement_spec == m.measurement_spec && m2.base_asym_algo == m.base_asym_algo && m2.base_hash_algo == m.base_hash_algo
        &&& forall|i: int| 0 <= i < m.num_algorithm_requests ==> m2.algorithm_requests@[i] == #[trigger] m.algorithm_requests@[i]
    }
    pub proof fn round_trip(m: Self, t: Seq<u8>, m2: Self) //@C03
        requires m.wf(),
        ensures Self::accepts(m.body() + t), Self::parsed(m.body() + t, m2) ==> Self::same(m, m2),
    {
        let n = m.num_algorithm_requests as nat;
        let s = m.algorithm_requests@;
        let b = m.body() + t;
        algos_body_len(s, n);
        let len = (32 + 4 * n) as u16;
        let h = neg_head(m.num_algorithm_requests, len, m.measurement_spec.bits, m.base_asym_algo.bits, m.base_hash_algo.bits);
        assert(h.len() == 30);
        assert(b =~= h + algos_body(s, n) + t);
        assert(forall|i: int| 0 <= i < 30 ==> b[i] == h[i]);
        crate::vx::rd16_of(b, 2, len);
        crate::vx::rd32_of(b, 6, m.base_asym_algo.bits);
        crate::vx::rd32_of(b, 10, m.base_hash_algo.bits);
        algos_round_trip(h, s, n, t, b);
        if Self::parsed(b, m2) {
            assert forall|i: int| 0 <= i < n implies m2.algorithm_requests@[i] == #[trigger] s[i] by {
                assert(algo_at(b, algos_off(b, 30, i as nat), s[i]));
                assert(algo_at(b, algos_off(b, 30, i as nat), m2.algorithm_requests@[i]));
                algo_inj(s[i], m2.algorithm_requests@[i]);
            }
        }
    }
    pub proof fn parsed_wf(b: Seq<u8>, m: Self)
        requires Self::accepts(b), Self::parsed(b, m),
        ensures m.wf(),
    {
        assert forall|i: int| 0 <= i < m.num_algorithm_requests implies algo_ok(#[trigger] m.algorithm_requests@[i]) by {
            assert(algo_acc(b, algos_off(b, Self::reqs_at(b), i as nat)));
        }
    }
}

// ---- ALGORITHMS
pub open spec fn alg_head(n: u8, len: u16, spec: u8, mhash: u32, asym: u32, hash: u32) -> Seq<u8> {
    seq![n, 0u8] + crate::vx::le16(len) + seq![spec, 0u8] + crate::vx::le32(mhash) + crate::vx::le32(asym) + crate::vx::le32(hash) + crate::vx::zseq(16)
}
pub open spec fn algo_one(a: AlgorithmRequest) -> bool { crate::vx::one16(algo_bits(a)) }
pub open spec fn one_valid32(x: u32) -> bool { crate::vx::one32(x) }
impl Algorithms {
    /// exactly one bit selected everywhere, and every selected bit defined
    pub open spec fn wf(&self) -> bool {
        &&& self.num_algorithm_responses <= MAX_ALGORITHM_REQUESTS
        &&& mspec_valid(self.measurement_spec_selected.bits) && crate::vx::one8(self.measurement_spec_selected.bits)
        &&& hash_valid(self.measurement_hash_algo_selected.bits) && crate::vx::one32(self.measurement_hash_algo_selected.bits)
        &&& asym_valid(self.base_asym_algo_selected.bits) && crate::vx::one32(self.base_asym_algo_selected.bits)
        &&& hash_valid(self.base_hash_algo_selected.bits) && crate::vx::one32(self.base_hash_algo_selected.bits)
        &&& forall|i: int| 0 <= i < self.num_algorithm_responses ==> algo_ok(#[trigger] self.algorithm_responses@[i]) && algo_one(self.algorithm_responses@[i])
    }
    pub open spec fn accepts(b: Seq<u8>) -> bool {
        &&& b.len() >= 34 && b[0] <= MAX_ALGORITHM_REQUESTS && b[1] == 0
        &&& mspec_valid(b[4]) && crate::vx::one8(b[4]) && b[5] == 0
        &&& hash_valid(crate::vx::rd32(b, 6)) && crate::vx::one32(crate::vx::rd32(b, 6))
        &&& asym_valid(crate::vx::rd32(b, 10)) && crate::vx::one32(crate::vx::rd32(b, 10))
        &&& hash_valid(crate::vx::rd32(b, 14)) && crate::vx::one32(crate::vx::rd32(b, 14))
        &&& crate::vx::zeros(b, 18, 16)
        &&& algos_acc(b, 34, b[0] as nat)
        &&& forall|i: nat| i < b[0] ==> crate::vx::one16(crate::vx::rd16(b, #[trigger] algos_off(b, 34, i) + 2))
    }
    pub open spec fn parsed(b: Seq<u8>, m: Self) -> bool {
        &&& m.num_algorithm_responses == b[0]
        &&& m.measurement_spec_selected.bits == b[4]
        &&& m.measurement_hash_algo_selected.bits == crate::vx::rd32(b, 6)
        &&& m.base_asym_algo_selected.bits == crate::vx::rd32(b, 10)
        &&& m.base_hash_algo_selected.bits == crate::vx::rd32(b, 14)
        &&& algos_at(b, 34, b[0] as nat, m.algorithm_responses@)
    }
    pub open spec fn same(m: Self, m2: Self) -> bool {
        &&& m2.num_algorithm_responses == m.num_algorithm_responses
        &&& m2.measurement_spec_selected == m.measurement_spec_selected
        &&& m2.measurement_hash_algo_selected == m.measurement_hash_algo_selected
        &&& m2.base_asym_algo_selected == m.base_asym_algo_selected && m2.base_hash_algo_selected == m.base_hash_algo_selected
        &&& forall|i: int| 0 <= i < m.num_algorithm_responses ==> m2.algorithm_responses@[i] == #[trigger] m.algorithm_responses@[i]
    }
    pub proof fn round_trip(m: Self, t: Seq<u8>, m2: Self) //@C03
        requires m.wf(),
        ensures Self::accepts(m.body() + t), Self::parsed(m.body() + t, m2) ==> Self::same(m, m2),
    {
        let n = m.num_algorithm_responses as nat;
        let s = m.algorithm_responses@;
        let b = m.body() + t;
        algos_body_len(s, n);
        let len = (36 + 4 * n) as u16;
        let h = alg_head(m.num_algorithm_responses, len, m.measurement_spec_selected.bits, m.measurement_hash_algo_selected.bits,
            m.base_asym_algo_selected.bits, m.base_hash_algo_selected.bits);
        assert(h.len() == 34);
        assert(b =~= h + algos_body(s, n) + t);
        assert(forall|i: int| 0 <= i < 34 ==> b[i] == h[i]);
        crate::vx::rd32_of(b, 6, m.measurement_hash_algo_selected.bits);
        crate::vx::rd32_of(b, 10, m.base_asym_algo_selected.bits);
        crate::vx::rd32_of(b, 14, m.base_hash_algo_selected.bits);
        assert forall|i: int| 0 <= i < n implies algo_ok(#[trigger] s[i]) by { assert(algo_ok(m.algorithm_responses@[i])); }
        algos_round_trip(h, s, n, t, b);
        assert forall|i: nat| i < n implies crate::vx::one16(crate::vx::rd16(b, #[trigger] algos_off(b, 34, i) + 2)) by {
            assert(algo_at(b, algos_off(b, 34, i), s[i as int]));
            assert(algo_one(m.algorithm_responses@[i as int]));
        }
        if Self::parsed(b, m2) {
            assert forall|i: int| 0 <= i < n implies m2.algorithm_responses@[i] == #[trigger] s[i] by {
                assert(algo_at(b, algos_off(b, 34, i as nat), s[i]));
                assert(algo_at(b, algos_off(b, 34, i as nat), m2.algorithm_responses@[i]));
                algo_inj(s[i], m2.algorithm_responses@[i]);
            }
        }
    }
    /// what is accepted has exactly one bit selected everywhere
    pub proof fn parsed_wf(b: Seq<u8>, m: Self) //@C09
        requires Self::accepts(b), Self::parsed(b, m),
        ensures m.wf(),
    {
        assert forall|i: int| 0 <= i < m.num_algorithm_responses implies algo_ok(#[trigger] m.algorithm_responses@[i]) && algo_one(m.algorithm_responses@[i]) by {
            let o = algos_off(b, 34, i as nat);
            assert(algo_acc(b, o));
            assert(algo_at(b, o, m.algorithm_responses@[i]));
        }
    }
}

== impl msgs::algorithms::NegotiateAlgorithms@Msg
    open spec fn ver() -> u8 { 0x11 }
    open spec fn code() -> u8 { 0xe3 }
    open spec fn full(e: Self::WriteError) -> bool { true }
    proof fn full_from(e: Self::WriteError) {}
    proof fn consts() {} //@C03,C05
    open spec fn msg_wf(&self) -> bool { self.num_algorithm_requests <= MAX_ALGORITHM_REQUESTS }
    open spec fn writable(&self) -> bool { true }
    open spec fn body(&self) -> Seq<u8> {
        neg_head(self.num_algorithm_requests, (32 + 4 * self.num_algorithm_requests) as u16, self.measurement_spec.bits, self.base_asym_algo.bits, self.base_hash_algo.bits)
            + algos_body(self.algorithm_requests@, self.num_algorithm_requests as nat)
    }

== impl msgs::algorithms::Algorithms@Msg
    open spec fn ver() -> u8 { 0x11 }
    open spec fn code() -> u8 { 0x63 }
    open spec fn full(e: Self::WriteError) -> bool { true }
    proof fn full_from(e: Self::WriteError) {}
    proof fn consts() {} //@C03,C05
    open spec fn msg_wf(&self) -> bool { self.num_algorithm_responses <= MAX_ALGORITHM_REQUESTS }
    open spec fn writable(&self) -> bool { true }
    open spec fn body(&self) -> Seq<u8> {
        alg_head(self.num_algorithm_responses, (36 + 4 * self.num_algorithm_responses) as u16, self.measurement_spec_selected.bits,
            self.measurement_hash_algo_selected.bits, self.base_asym_algo_selected.bits, self.base_hash_algo_selected.bits)
            + algos_body(self.algorithm_responses@, self.num_algorithm_responses as nat)
    }

== fn msgs::algorithms::BaseAsymAlgo::get_signature_size (self)
-- spec
    requires self.bits == 0x10,
    ensures r.n() == 64,

== fn msgs::algorithms::BaseHashAlgo::get_digest_size (self)
-- spec
    requires hash_valid(self.bits), crate::vx::one32(self.bits),
    ensures r.n() == (if self.bits == 1 || self.bits == 8 { 32int } else if self.bits == 2 || self.bits == 16 { 48int } else { 64int }),
-- body
    let x = self.bits;
    assert(x & !0x3fu32 == 0 && x != 0 && x & sub(x, 1) == 0 ==> x == 1 || x == 2 || x == 4 || x == 8 || x == 16 || x == 32) by (bit_vector);

== fn msgs::algorithms::BaseAsymAlgo::from_str@FromStr (s)
-- spec
    ensures
        r is Ok <==> asym_name(s) is Some,
        r is Ok ==> Some(r->Ok_0) == asym_name(s),

== fn msgs::algorithms::BaseHashAlgo::from_str@FromStr (s)
-- spec
    ensures
        r is Ok <==> hash_name(s) is Some,
        r is Ok ==> Some(r->Ok_0) == hash_name(s),

== fn msgs::algorithms::AlgorithmRequest::default@Default ()
-- spec
    ensures r == AlgorithmRequest::Dhe(DheAlgorithm { supported: DheFixedAlgorithms { bits: 0 } }),

== fn msgs::algorithms::Algorithms::default@Default ()
-- spec
    ensures
        r.num_algorithm_responses == 0, r.measurement_spec_selected.bits == 0, r.measurement_hash_algo_selected.bits == 0,
        r.base_asym_algo_selected.bits == 0, r.base_hash_algo_selected.bits == 0,

== fn msgs::algorithms::AlgorithmRequest::fixed_algo_count (self)
-- spec
    ensures r == 2,

== fn msgs::algorithms::AlgorithmRequest::write (self, w)
-- spec
    requires old(w).wf(),
    ensures
        r is Ok <==> old(w).room() >= 4, //@C04
        r is Ok ==> Writer::app(*old(w), *final(w), algo_bytes(*self)) && r->Ok_0 == final(w).offset, //@C03,C04
        r is Err ==> Writer::pre(*old(w), *final(w)), //@C04
-- body
    assert(2u8 << 4 == 0x20) by (bit_vector);

== fn msgs::algorithms::AlgorithmRequest::read (r)
-- ret res
-- spec
    requires old(r).wf(), old(r).al(),
    ensures
        res is Ok <==> algo_acc(old(r).b(), old(r).o()), //@C05
        res is Ok ==> final(r).at(old(r).b(), algo_end(old(r).b(), old(r).o())) && algo_at(old(r).b(), old(r).o(), res->Ok_0), //@C03
        Reader::frame(*old(r), *final(r)),
-- body
    let b = r.b();
    let o = r.o();
    if o + 1 < b.len() {
        let x = b[o + 1];
        assert(x & 15 <= 15) by (bit_vector);
    }

== fn msgs::algorithms::NegotiateAlgorithms::msg_length (self)
-- spec
    requires self.msg_wf(),
    ensures r == 32 + 4 * self.num_algorithm_requests,
-- loop 0 it
    invariant
        self.msg_wf(),
        it.index@ <= self.num_algorithm_requests,
        acc == 32 + 4 * it.index@,

== fn msgs::algorithms::Algorithms::msg_length (self)
-- spec
    requires self.msg_wf(),
    ensures r == 36 + 4 * self.num_algorithm_responses,
-- loop 0 it
    invariant
        self.msg_wf(),
        it.index@ <= self.num_algorithm_responses,
        acc == 36 + 4 * it.index@,

== fn msgs::algorithms::NegotiateAlgorithms::write_algorithm_requests (self, w)
-- spec
    requires old(w).wf(), self.msg_wf(),
    ensures
        r is Ok <==> old(w).room() >= 4 * self.num_algorithm_requests, //@C04
        r is Ok ==> Writer::app(*old(w), *final(w), algos_body(self.algorithm_requests@, self.num_algorithm_requests as nat)) && r->Ok_0 == final(w).offset, //@C03,C04
        r is Err ==> Writer::pre(*old(w), *final(w)), //@C04
-- loop 0
    invariant
        self.msg_wf(),
        Writer::app(*old(w), *w, algos_body(self.algorithm_requests@, i as nat)),
-- loopbody 0
    algos_body_len(self.algorithm_requests@, i as nat);
-- end
    algos_body_len(self.algorithm_requests@, self.num_algorithm_requests as nat);

== fn msgs::algorithms::Algorithms::write_algorithm_responses (self, w)
-- spec
    requires old(w).wf(), self.msg_wf(),
    ensures
        r is Ok <==> old(w).room() >= 4 * self.num_algorithm_responses, //@C04
        r is Ok ==> Writer::app(*old(w), *final(w), algos_body(self.algorithm_responses@, self.num_algorithm_responses as nat)) && r->Ok_0 == final(w).offset, //@C03,C04
        r is Err ==> Writer::pre(*old(w), *final(w)), //@C04
-- loop 0
    invariant
        self.msg_wf(),
        Writer::app(*old(w), *w, algos_body(self.algorithm_responses@, i as nat)),
-- loopbody 0
    algos_body_len(self.algorithm_responses@, i as nat);
-- end
    algos_body_len(self.algorithm_responses@, self.num_algorithm_responses as nat);

== fn msgs::algorithms::NegotiateAlgorithms::write_body@Msg (self, w)
-- attr #[verifier::spinoff_prover] #[verifier::rlimit(40)]
-- body
    algos_body_len(self.algorithm_requests@, self.num_algorithm_requests as nat);
-- end
    assert(w.out() =~= old(w).out() + neg_head(self.num_algorithm_requests, (32 + 4 * self.num_algorithm_requests) as u16, self.measurement_spec.bits, self.base_asym_algo.bits, self.base_hash_algo.bits));

== fn msgs::algorithms::Algorithms::write_body@Msg (self, w)
-- attr #[verifier::spinoff_prover] #[verifier::rlimit(40)]
-- body
    algos_body_len(self.algorithm_responses@, self.num_algorithm_responses as nat);
-- end
    assert(w.out() =~= old(w).out() + alg_head(self.num_algorithm_responses, (36 + 4 * self.num_algorithm_responses) as u16, self.measurement_spec_selected.bits,
        self.measurement_hash_algo_selected.bits, self.base_asym_algo_selected.bits, self.base_hash_algo_selected.bits));

== fn msgs::algorithms::NegotiateAlgorithms::read_algorithm_requests (r, num_requests, requests)
-- ret res
-- spec
    requires old(r).wf(), old(r).al(), num_requests <= MAX_ALGORITHM_REQUESTS,
    ensures
        res is Ok <==> algos_acc(old(r).b(), old(r).o(), num_requests as nat), //@C05
        res is Err ==> res->Err_0 is AlgorithmRequest, //@C20
        res is Ok ==> algos_at(old(r).b(), old(r).o(), num_requests as nat, final(requests)@), //@C03
-- loop 0
    invariant
        num_requests <= MAX_ALGORITHM_REQUESTS,
        r.at(old(r).b(), algos_off(old(r).b(), old(r).o(), i as nat)),
        algos_acc(old(r).b(), old(r).o(), i as nat),
        algos_at(old(r).b(), old(r).o(), i as nat, requests@),
-- loopbody 0
    assert(algos_acc(old(r).b(), old(r).o(), num_requests as nat) ==> algo_acc(old(r).b(), algos_off(old(r).b(), old(r).o(), i as nat)));

== fn msgs::algorithms::Algorithms::read_algorithm_responses (r, num_responses, responses)
-- ret res
-- spec
    requires old(r).wf(), old(r).al(), num_responses <= MAX_ALGORITHM_REQUESTS,
    ensures
        res is Ok <==> algos_acc(old(r).b(), old(r).o(), num_responses as nat)
            && forall|i: nat| i < num_responses ==> crate::vx::one16(crate::vx::rd16(old(r).b(), #[trigger] algos_off(old(r).b(), old(r).o(), i) + 2)), //@C05
        res is Ok ==> algos_at(old(r).b(), old(r).o(), num_responses as nat, final(responses)@), //@C03
-- loop 0
    invariant
        num_responses <= MAX_ALGORITHM_REQUESTS,
        r.at(old(r).b(), algos_off(old(r).b(), old(r).o(), i as nat)),
        algos_acc(old(r).b(), old(r).o(), i as nat),
        algos_at(old(r).b(), old(r).o(), i as nat, responses@),
        forall|j: nat| j < i ==> crate::vx::one16(crate::vx::rd16(old(r).b(), #[trigger] algos_off(old(r).b(), old(r).o(), j) + 2)),
-- loopbody 0
    assert(algos_acc(old(r).b(), old(r).o(), num_responses as nat) ==> algo_acc(old(r).b(), algos_off(old(r).b(), old(r).o(), i as nat)));
    assert(algos_off(old(r).b(), old(r).o(), i as nat) == r.o());

== fn msgs::algorithms::Algorithms::ensure_only_one_bit_set (response)
-- spec
    ensures r is Ok <==> algo_one(*response), //@C09

== fn msgs::algorithms::NegotiateAlgorithms::parse_body (buf)
-- ret res
-- spec
    ensures
        res is Ok <==> Self::accepts(buf@), //@C05
        res is Err ==> Self::fault(buf@, res->Err_0), //@C20
        res is Ok ==> Self::parsed(buf@, res->Ok_0), //@C03

== fn msgs::algorithms::Algorithms::parse_body (buf)
-- ret res
-- spec
    ensures
        res is Ok <==> Self::accepts(buf@), //@C05
        res is Ok ==> Self::parsed(buf@, res->Ok_0), //@C03

== mod msgs::algorithms
/// the bit every named flag stands for
pub proof fn flag_values()
    ensures
        BaseAsymAlgo::RSASSA_2048.bits == 0x1, //@C03
        BaseAsymAlgo::RSAPSS_2048.bits == 0x2, //@C03
        BaseAsymAlgo::RSASSA_3072.bits == 0x4, //@C03
        BaseAsymAlgo::RSAPSS_3072.bits == 0x8, //@C03
        BaseAsymAlgo::ECDSA_ECC_NIST_P256.bits == 0x10, //@C03
        BaseAsymAlgo::RSASSA_4096.bits == 0x20, //@C03
        BaseAsymAlgo::RSAPSS_4096.bits == 0x40, //@C03
        BaseAsymAlgo::ECDSA_ECC_NIST_P384.bits == 0x80, //@C03
        BaseAsymAlgo::ECDSA_ECC_NIST_P521.bits == 0x100, //@C03
        BaseHashAlgo::SHA_256.bits == 0x1, //@C03
        BaseHashAlgo::SHA_384.bits == 0x2, //@C03
        BaseHashAlgo::SHA_512.bits == 0x4, //@C03
        BaseHashAlgo::SHA3_256.bits == 0x8, //@C03
        BaseHashAlgo::SHA3_384.bits == 0x10, //@C03
        BaseHashAlgo::SHA3_512.bits == 0x20, //@C03
        MeasurementSpec::DMTF.bits == 0x1, //@C03
        DheFixedAlgorithms::FFDHE_2048.bits == 0x1, //@C03
        DheFixedAlgorithms::FFDHE_3072.bits == 0x2, //@C03
        DheFixedAlgorithms::FFDHE_4096.bits == 0x4, //@C03
        DheFixedAlgorithms::SECP_256_R1.bits == 0x8, //@C03
        DheFixedAlgorithms::SECP_384_R1.bits == 0x10, //@C03
        DheFixedAlgorithms::SECP_521_R1.bits == 0x20, //@C03
        AeadFixedAlgorithms::AES_128_GCM.bits == 0x1, //@C03
        AeadFixedAlgorithms::AES_256_GCM.bits == 0x2, //@C03
        AeadFixedAlgorithms::CHACHA20_POLY1305.bits == 0x4, //@C03
        ReqBaseAsymFixedAlgorithms::RSASSA_2048.bits == 0x1, //@C03
        ReqBaseAsymFixedAlgorithms::RSAPSS_2048.bits == 0x2, //@C03
        ReqBaseAsymFixedAlgorithms::RSASSA_3072.bits == 0x4, //@C03
        ReqBaseAsymFixedAlgorithms::RSAPSS_3072.bits == 0x8, //@C03
        ReqBaseAsymFixedAlgorithms::ECDSA_ECC_NIST_P256.bits == 0x10, //@C03
        ReqBaseAsymFixedAlgorithms::RSASSA_4096.bits == 0x20, //@C03
        ReqBaseAsymFixedAlgorithms::RSAPSS_4096.bits == 0x40, //@C03
        ReqBaseAsymFixedAlgorithms::ECDSA_ECC_NIST_P384.bits == 0x80, //@C03
        ReqBaseAsymFixedAlgorithms::ECDSA_ECC_NIST_P521.bits == 0x100, //@C03
        KeyScheduleFixedAlgorithms::SPDM.bits == 0x1, //@C03
{
}

== fn msgs::algorithms::DheAlgorithm::default@Default ()
-- spec
    ensures r.supported.bits == 0,

== fn msgs::algorithms::AeadAlgorithm::default@Default ()
-- spec
    ensures r.supported.bits == 0,

== fn msgs::algorithms::ReqBaseAsymAlgorithm::default@Default ()
-- spec
    ensures r.supported.bits == 0,

== fn msgs::algorithms::KeyScheduleAlgorithm::default@Default ()
-- spec
    ensures r.supported.bits == 0,
