== mod msgs::challenge
use crate::crypto::NONCE;
pub open spec fn mht_num(x: MeasurementHashType) -> u8 {
    match x { MeasurementHashType::None => 0, MeasurementHashType::Tcb => 1, MeasurementHashType::All => 0xff }
}
pub open spec fn mht_of(x: u8) -> MeasurementHashType {
    if x == 0 { MeasurementHashType::None } else if x == 1 { MeasurementHashType::Tcb } else { MeasurementHashType::All }
}
impl Challenge {
    pub open spec fn accepts(b: Seq<u8>) -> bool { b.len() >= 2 + NONCE && (b[1] == 0 || b[1] == 1 || b[1] == 0xff) }
    /// why a body is refused
    pub open spec fn fault(b: Seq<u8>, e: ParseChallengeError) -> bool {
        match e {
            ParseChallengeError::InvalidMeasurementHashType => b.len() >= 2 && !(b[1] == 0 || b[1] == 1 || b[1] == 0xff),
            ParseChallengeError::Read(ReadError::BufferEmpty) => b.len() < 2 + NONCE,
            ParseChallengeError::Read(_) => false,
        }
    }
    pub open spec fn parsed(b: Seq<u8>, m: Self) -> bool {
        m.slot == b[0] && mht_num(m.measurement_hash_type) == b[1] && m.nonce.bytes() =~= b.subrange(2, 2 + NONCE)
    }
    pub proof fn round_trip(m: Self, t: Seq<u8>, m2: Self) //@C03
        ensures
            Self::accepts(m.body() + t),
            Self::parsed(m.body() + t, m2) ==> m2.slot == m.slot && m2.measurement_hash_type == m.measurement_hash_type
                && m2.nonce.bytes() == m.nonce.bytes(),
    {
        let b = m.body() + t;
        assert(b.subrange(2, 2 + NONCE) =~= m.nonce.bytes());
    }
}
impl ChallengeAuth {
    pub open spec fn wf(&self) -> bool { self.opaque_data.wf() && self.cert_chain_hash.wf() && self.measurement_summary_hash.wf() && self.signature.wf() }
    /// everything before the signature
    pub open spec fn head(&self) -> Seq<u8> {
        seq![if self.use_mutual_auth { self.slot | 0x80u8 } else { self.slot }, self.slot_mask] + self.cert_chain_hash.bytes() + self.nonce.bytes()
            + self.measurement_summary_hash.bytes() + crate::vx::le16(self.opaque_data.size() as u16) + self.opaque_data.bytes()
    }
    pub open spec fn opaque_off(ds: int) -> int { 4 + NONCE + 2 * ds }
    pub open spec fn sig_off(b: Seq<u8>, ds: int) -> int { OpaqueData::end(b, Self::opaque_off(ds)) }
    pub open spec fn accepts(b: Seq<u8>, ds: int, ss: int) -> bool {
        &&& b.len() >= 4 + NONCE + 2 * ds && (b[0] & 15) < NUM_SLOTS
        &&& crate::vx::rd16(b, 2 + NONCE + 2 * ds) <= 1024
        &&& OpaqueData::acc(b, Self::opaque_off(ds))
        &&& Self::sig_off(b, ds) + ss <= b.len()
    }
    pub open spec fn parsed(b: Seq<u8>, ds: int, ss: int, m: Self) -> bool {
        &&& m.slot == b[0] & 15 && m.slot_mask == b[1] && m.use_mutual_auth == ((b[0] >> 7) & 1 == 1)
        &&& m.cert_chain_hash.size.n() == ds && m.cert_chain_hash.bytes() =~= b.subrange(2, 2 + ds)
        &&& m.nonce.bytes() =~= b.subrange(2 + ds, 2 + NONCE + ds)
        &&& m.measurement_summary_hash.size.n() == ds && m.measurement_summary_hash.bytes() =~= b.subrange(2 + NONCE + ds, 2 + NONCE + 2 * ds)
        &&& OpaqueData::is_at(b, Self::opaque_off(ds), m.opaque_data)
        &&& m.signature.size.n() == ss && m.signature.bytes() =~= b.subrange(Self::sig_off(b, ds), Self::sig_off(b, ds) + ss)
    }
    pub open spec fn same(a: Self, b: Self) -> bool {
        &&& a.slot == b.slot && a.slot_mask == b.slot_mask && a.use_mutual_auth == b.use_mutual_auth
        &&& a.cert_chain_hash.bytes() == b.cert_chain_hash.bytes() && a.nonce.bytes() == b.nonce.bytes()
        &&& a.measurement_summary_hash.bytes() == b.measurement_summary_hash.bytes()
        &&& OpaqueData::same(a.opaque_data, b.opaque_data) && a.signature.bytes() == b.signature.bytes()
    }
    pub proof fn round_trip(m: Self, ds: int, ss: int, t: Seq<u8>, m2: Self) //@C03
        requires m.wf(), m.writable(), m.cert_chain_hash.size.n() == ds, m.measurement_summary_hash.size.n() == ds, m.signature.size.n() == ss,
        ensures
            Self::accepts(m.body() + t, ds, ss),
            Self::parsed(m.body() + t, ds, ss, m2) ==> Self::same(m, m2),
    {
        let b = m.body() + t;
        let s0 = m.slot;
        m.opaque_data.len();
        let p = seq![if m.use_mutual_auth { m.slot | 0x80u8 } else { m.slot }, m.slot_mask] + m.cert_chain_hash.bytes() + m.nonce.bytes()
            + m.measurement_summary_hash.bytes() + crate::vx::le16(m.opaque_data.size() as u16);
        assert(p.len() == 4 + NONCE + 2 * ds);
        assert(b =~= p + m.opaque_data.bytes() + (m.signature.bytes() + t));
        OpaqueData::round_trip(p, m.opaque_data, m.signature.bytes() + t, b);
        let l = crate::vx::le16(m.opaque_data.size() as u16);
        assert(b[2 + NONCE + 2 * ds] == l[0] && b[3 + NONCE + 2 * ds] == l[1]);
        crate::vx::rd16_of(b, 2 + NONCE + 2 * ds, m.opaque_data.size() as u16);
        assert((s0 | 0x80u8) & 15 == s0 && ((s0 | 0x80u8) >> 7) & 1 == 1 && s0 & 15 == s0 && (s0 >> 7) & 1 == 0) by (bit_vector) requires s0 < 8;
        assert(b.subrange(2, 2 + ds) =~= m.cert_chain_hash.bytes());
        assert(b.subrange(2 + ds, 2 + NONCE + ds) =~= m.nonce.bytes());
        assert(b.subrange(2 + NONCE + ds, 2 + NONCE + 2 * ds) =~= m.measurement_summary_hash.bytes());
        let so = p.len() + m.opaque_data.size();
        assert(b.subrange(so, so + ss) =~= m.signature.bytes());
    }
}

== impl msgs::challenge::Challenge@Msg
    open spec fn ver() -> u8 { 0x11 }
    open spec fn code() -> u8 { 0x83 }
    open spec fn full(e: Self::WriteError) -> bool { true }
    proof fn full_from(e: Self::WriteError) {}
    proof fn consts() {} //@C03,C05
    open spec fn msg_wf(&self) -> bool { true }
    open spec fn writable(&self) -> bool { true }
    open spec fn body(&self) -> Seq<u8> { seq![self.slot, mht_num(self.measurement_hash_type)] + self.nonce.bytes() }

== impl msgs::challenge::ChallengeAuth@Msg
    open spec fn ver() -> u8 { 0x11 }
    open spec fn code() -> u8 { 0x03 }
    open spec fn full(e: Self::WriteError) -> bool { e is BufferFull || e == WriteChallengeAuthError::WriteOpaqueElement(WriteOpaqueElementError::BufferFull) }
    proof fn full_from(e: Self::WriteError) {}
    proof fn consts() {} //@C03,C05
    open spec fn msg_wf(&self) -> bool { self.wf() }
    open spec fn writable(&self) -> bool { self.slot < NUM_SLOTS && self.opaque_data.writable() && self.opaque_data.size() <= 1024 }
    open spec fn body(&self) -> Seq<u8> { self.head() + self.signature.bytes() }

== from msgs::challenge::MeasurementHashType@TryFrom<u8> (v)
    if v == 0 || v == 1 || v == 0xff { Ok(mht_of(v)) } else { Err(ParseMeasurementHashTypeError) }

== fn msgs::challenge::Challenge::new (slot, measurement_hash_type)
-- spec
    ensures r.slot == slot, r.measurement_hash_type == measurement_hash_type,
        crate::ext::rand::drawn(r.nonce.bytes()), //@C23

== fn msgs::challenge::Challenge::parse_body (buf)
-- ret res
-- spec
    ensures
        res is Ok <==> Self::accepts(buf@), //@C05
        res is Err ==> Self::fault(buf@, res->Err_0), //@C20
        res is Ok ==> Self::parsed(buf@, res->Ok_0), //@C03

== fn msgs::challenge::ChallengeAuth::validate (self)
-- spec
    requires self.opaque_data.wf(),
    ensures r is Ok <==> self.slot < NUM_SLOTS && self.opaque_data.size() <= 1024,
        

== fn msgs::challenge::ChallengeAuth::new (slot, slot_mask, use_mutual_auth, cert_chain_digest, nonce, measurement_summary_digest, opaque_data, sig)
-- spec
    requires
        cert_chain_digest@.len() <= crate::config::MAX_DIGEST_SIZE, measurement_summary_digest@.len() <= crate::config::MAX_DIGEST_SIZE,
        sig@.len() <= crate::config::MAX_SIGNATURE_SIZE,
    ensures
        r.slot == slot, r.slot_mask == slot_mask, r.use_mutual_auth == use_mutual_auth, r.nonce == nonce, r.opaque_data == opaque_data,
        r.cert_chain_hash.wf(), r.cert_chain_hash.bytes() == cert_chain_digest@,
        r.measurement_summary_hash.wf(), r.measurement_summary_hash.bytes() == measurement_summary_digest@,
        r.signature.wf(), r.signature.bytes() == sig@,

== fn msgs::challenge::ChallengeAuth::write_body@Msg (self, w)
-- attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
-- body
    assert(1u8 << 7 == 0x80u8) by (bit_vector);
    self.opaque_data.len();

== fn msgs::challenge::ChallengeAuth::parse_body (buf, digest_size, signature_size)
-- ret res
-- spec
    ensures
        res is Ok <==> Self::accepts(buf@, digest_size.n() as int, signature_size.n() as int), //@C05
        res is Ok ==> Self::parsed(buf@, digest_size.n() as int, signature_size.n() as int, res->Ok_0), //@C03
        res is Ok ==> res->Ok_0.wf(),
