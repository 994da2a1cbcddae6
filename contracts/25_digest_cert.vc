== mod msgs::digest
pub open spec fn mask_bit(m: u8, k: int) -> bool { (m >> (k as u8)) & 1 == 1 }
/// the digests of the slots below `k` whose mask bit is set, in slot order
pub open spec fn digs_body(m: u8, d: Seq<Option<DigestBuf>>, k: nat) -> Seq<u8> decreases k {
    if k == 0 { Seq::empty() } else {
        let p = digs_body(m, d, (k - 1) as nat);
        if mask_bit(m, k - 1) { p + d[k - 1]->Some_0.bytes() } else { p }
    }
}
/// number of mask bits below `k`
pub open spec fn digs_count(m: u8, k: nat) -> nat decreases k {
    if k == 0 { 0 } else { digs_count(m, (k - 1) as nat) + if mask_bit(m, k - 1) { 1nat } else { 0 } }
}
pub proof fn digs_count_le(m: u8, k: nat)
    ensures digs_count(m, k) <= k,
    decreases k,
{
    if k > 0 { digs_count_le(m, (k - 1) as nat); }
}
pub open spec fn digs_at(b: Seq<u8>, o: int, size: int, m: u8, k: nat, d: Seq<Option<DigestBuf>>) -> bool {
    forall|i: int| 0 <= i < k ==> (mask_bit(m, i) <==> #[trigger] d[i] is Some)
        && (mask_bit(m, i) ==> d[i]->Some_0.size.n() == size
            && d[i]->Some_0.bytes() =~= b.subrange(o + size * digs_count(m, i as nat), o + size * digs_count(m, i as nat) + size))
}
impl Digests {
    /// a digest for every slot in the mask
    pub open spec fn wf(&self) -> bool {
        forall|k: int| 0 <= k < NUM_SLOTS && mask_bit(self.slot_mask, k) ==> #[trigger] self.digests@[k] is Some
    }
    pub open spec fn sized(&self, n: int) -> bool {
        forall|k: int| 0 <= k < NUM_SLOTS && mask_bit(self.slot_mask, k) ==> (#[trigger] self.digests@[k]) is Some && self.digests@[k]->Some_0.size.n() == n
    }
    pub open spec fn accepts(b: Seq<u8>, size: int) -> bool {
        b.len() >= 2 && b[0] == 0 && 2 + size * digs_count(b[1], NUM_SLOTS as nat) <= b.len()
    }
    pub open spec fn parsed(b: Seq<u8>, size: int, m: Self) -> bool {
        m.slot_mask == b[1] && digs_at(b, 2, size, b[1], NUM_SLOTS as nat, m.digests@)
    }
    pub open spec fn same(m: Self, m2: Self) -> bool {
        m2.slot_mask == m.slot_mask
            && forall|k: int| 0 <= k < NUM_SLOTS && mask_bit(m.slot_mask, k) ==> (#[trigger] m2.digests@[k]) is Some && m2.digests@[k]->Some_0.bytes() == m.digests@[k]->Some_0.bytes()
    }
    pub proof fn body_len(m: u8, d: Seq<Option<DigestBuf>>, k: nat, n: int)
        requires forall|i: int| 0 <= i < k && mask_bit(m, i) ==> (#[trigger] d[i]) is Some && d[i]->Some_0.size.n() == n, 0 <= n <= crate::config::MAX_DIGEST_SIZE, k <= d.len(),
        ensures digs_body(m, d, k).len() == n * digs_count(m, k),
        decreases k,
    {
        if k > 0 {
            Self::body_len(m, d, (k - 1) as nat, n);
            assert(n * (digs_count(m, (k - 1) as nat) + 1) == n * digs_count(m, (k - 1) as nat) + n) by (nonlinear_arith);
            if mask_bit(m, k - 1) {
                assert(d[k - 1] is Some);
                assert(d[k - 1]->Some_0.bytes().len() == n);
            }
        } else {
            assert(n * digs_count(m, k) == 0) by (nonlinear_arith) requires digs_count(m, k) == 0;
        }
    }
    pub proof fn list_round_trip(p: Seq<u8>, m: u8, d: Seq<Option<DigestBuf>>, k: nat, n: int, t: Seq<u8>, b: Seq<u8>, d2: Seq<Option<DigestBuf>>)
        requires
            b == p + digs_body(m, d, k) + t, k <= d.len(), 0 <= n <= crate::config::MAX_DIGEST_SIZE,
            forall|i: int| 0 <= i < k && mask_bit(m, i) ==> (#[trigger] d[i]) is Some && d[i]->Some_0.size.n() == n,
            digs_at(b, p.len() as int, n, m, k, d2),
        ensures forall|i: int| 0 <= i < k && mask_bit(m, i) ==> (#[trigger] d2[i]) is Some && d2[i]->Some_0.bytes() == d[i]->Some_0.bytes(),
        decreases k,
    {
        if k > 0 {
            let j = (k - 1) as nat;
            let q = digs_body(m, d, j);
            Self::body_len(m, d, j, n);
            if mask_bit(m, j as int) {
                let e = d[j as int]->Some_0.bytes();
                assert(b =~= p + q + (e + t));
                Self::list_round_trip(p, m, d, j, n, e + t, b, d2);
                let o = p.len() + n * digs_count(m, j);
                assert(b.subrange(o, o + n) =~= e);
                assert(d2[j as int] is Some);
            } else {
                assert(b =~= p + q + t);
                Self::list_round_trip(p, m, d, j, n, t, b, d2);
            }
        }
    }
    pub proof fn round_trip(m: Self, n: int, t: Seq<u8>, m2: Self) //@C03
        requires m.sized(n), 0 <= n <= crate::config::MAX_DIGEST_SIZE,
        ensures
            Self::accepts(m.body() + t, n),
            Self::parsed(m.body() + t, n, m2) ==> Self::same(m, m2),
    {
        let b = m.body() + t;
        let h = seq![0u8, m.slot_mask];
        Self::body_len(m.slot_mask, m.digests@, NUM_SLOTS as nat, n);
        assert(b =~= h + digs_body(m.slot_mask, m.digests@, NUM_SLOTS as nat) + t);
        assert(b[0] == 0 && b[1] == m.slot_mask);
        if Self::parsed(b, n, m2) {
            Self::list_round_trip(h, m.slot_mask, m.digests@, NUM_SLOTS as nat, n, t, b, m2.digests@);
        }
    }
}
pub open spec fn capped(k: int) -> nat { if k < NUM_SLOTS { k as nat } else { NUM_SLOTS as nat } }
/// `bits` is the mask with every bit below `k` cleared
pub open spec fn walk(m: u8, bits: u8, k: int) -> bool {
    &&& 0 <= k <= 8
    &&& forall|i: int| 0 <= i < k ==> !#[trigger] mask_bit(bits, i)
    &&& forall|i: int| k <= i < 8 ==> #[trigger] mask_bit(bits, i) == mask_bit(m, i)
}
pub proof fn xor_step(b: u8, k: u8)
    requires k < 8,
    ensures forall|i: int| 0 <= i < 8 ==> #[trigger] mask_bit(b ^ (1u8 << k), i) == (if i == k { !mask_bit(b, i) } else { mask_bit(b, i) }),
{
    assert forall|i: int| 0 <= i < 8 implies #[trigger] mask_bit(b ^ (1u8 << k), i) == (if i == k { !mask_bit(b, i) } else { mask_bit(b, i) }) by {
        let j = i as u8;
        assert(k < 8 && j < 8 ==> ((((b ^ (1u8 << k)) >> j) & 1 == 1) == (if j == k { !((b >> j) & 1 == 1) } else { (b >> j) & 1 == 1 }))) by (bit_vector);
    }
}
pub proof fn tz(b: u8)
    ensures
        vstd::std_specs::bits::u8_trailing_zeros(b) <= 8,
        forall|i: int| 0 <= i < vstd::std_specs::bits::u8_trailing_zeros(b) ==> !#[trigger] mask_bit(b, i),
        vstd::std_specs::bits::u8_trailing_zeros(b) < 8 ==> mask_bit(b, vstd::std_specs::bits::u8_trailing_zeros(b) as int),
{
    broadcast use vstd::std_specs::bits::axiom_u8_trailing_zeros;
    let k = vstd::std_specs::bits::u8_trailing_zeros(b);
    assert forall|i: int| 0 <= i < k implies !#[trigger] mask_bit(b, i) by {
        let j = i as u8;
        assert((b >> j) & 1u8 == 0u8);
    }
    if k < 8 {
        let j = k as u8;
        assert((b >> j) & 1u8 == 1u8);
    }
}
/// advancing from `k` to the next set bit `n` skips only clear bits
pub proof fn walk_next(m: u8, bits: u8, k: int)
    requires walk(m, bits, k),
    ensures walk(m, bits, vstd::std_specs::bits::u8_trailing_zeros(bits) as int), k <= vstd::std_specs::bits::u8_trailing_zeros(bits),
        forall|i: int| k <= i < vstd::std_specs::bits::u8_trailing_zeros(bits) ==> !#[trigger] mask_bit(m, i),
        vstd::std_specs::bits::u8_trailing_zeros(bits) < 8 ==> mask_bit(m, vstd::std_specs::bits::u8_trailing_zeros(bits) as int),
{
    tz(bits);
    let n = vstd::std_specs::bits::u8_trailing_zeros(bits) as int;
    if n < k { assert(mask_bit(bits, n)); }
    assert forall|i: int| k <= i < n implies !#[trigger] mask_bit(m, i) by { assert(!mask_bit(bits, i)); }
}
pub proof fn walk_step(m: u8, bits: u8, k: u8)
    requires walk(m, bits, k as int), k < 8, mask_bit(bits, k as int),
    ensures walk(m, bits ^ (1u8 << k), k + 1),
{
    xor_step(bits, k);
}
pub proof fn digs_skip(m: u8, d: Seq<Option<DigestBuf>>, a: nat, b: nat)
    requires a <= b, forall|i: int| a <= i < b ==> !#[trigger] mask_bit(m, i),
    ensures digs_body(m, d, b) == digs_body(m, d, a), digs_count(m, b) == digs_count(m, a),
    decreases b,
{
    if a < b { assert(!mask_bit(m, b - 1)); digs_skip(m, d, a, (b - 1) as nat); }
}
pub proof fn digs_mono(m: u8, d: Seq<Option<DigestBuf>>, a: nat, b: nat)
    requires a <= b,
    ensures digs_body(m, d, a).len() <= digs_body(m, d, b).len(), digs_count(m, a) <= digs_count(m, b),
    decreases b,
{
    if a < b { digs_mono(m, d, a, (b - 1) as nat); }
}

== impl msgs::digest::GetDigests@Msg
    open spec fn ver() -> u8 { 0x11 }
    open spec fn code() -> u8 { 0x81 }
    open spec fn full(e: Self::WriteError) -> bool { true }
    proof fn full_from(e: Self::WriteError) {}
    proof fn consts() {} //@C03,C05
    open spec fn msg_wf(&self) -> bool { true }
    open spec fn writable(&self) -> bool { true }
    open spec fn body(&self) -> Seq<u8> { crate::vx::zseq(2) }

== fn msgs::digest::GetDigests::parse_body (buf)
-- spec
    ensures
        r is Ok <==> buf@.len() >= 2 && crate::vx::zeros(buf@, 0, 2), //@C05
        r is Err ==> crate::msgs::empty_fault(buf@, r->Err_0), //@C20

== impl msgs::digest::Digests@Msg
    open spec fn ver() -> u8 { 0x11 }
    open spec fn code() -> u8 { 0x01 }
    open spec fn full(e: Self::WriteError) -> bool { true }
    proof fn full_from(e: Self::WriteError) {}
    proof fn consts() {} //@C03,C05
    open spec fn msg_wf(&self) -> bool { self.wf() }
    open spec fn writable(&self) -> bool { true }
    open spec fn body(&self) -> Seq<u8> { seq![0u8, self.slot_mask] + digs_body(self.slot_mask, self.digests@, NUM_SLOTS as nat) }

== fn msgs::digest::Digests::write_digests (self, w)
-- spec
    requires old(w).wf(), self.wf(),
    ensures
        r is Ok <==> old(w).room() >= digs_body(self.slot_mask, self.digests@, NUM_SLOTS as nat).len(), //@C04
        r is Ok ==> Writer::app(*old(w), *final(w), digs_body(self.slot_mask, self.digests@, NUM_SLOTS as nat)) && r->Ok_0 == final(w).offset, //@C03,C04
        r is Err ==> Writer::pre(*old(w), *final(w)), //@C04
-- body
    walk_next(self.slot_mask, self.slot_mask, 0);
    digs_skip(self.slot_mask, self.digests@, 0, capped(vstd::std_specs::bits::u8_trailing_zeros(self.slot_mask) as int));
-- loop 0
    invariant
        self.wf(),
        walk(self.slot_mask, bits, k as int), k < 8 ==> mask_bit(bits, k as int),
        Writer::app(*old(w), *w, digs_body(self.slot_mask, self.digests@, capped(k as int))),
        offset == w.offset,
    decreases 8 - k,
-- loopbody 0
    ghost let k0 = k;
    assert(mask_bit(self.slot_mask, k as int));
    assert(self.digests@[k as int] is Some);
    digs_mono(self.slot_mask, self.digests@, (k + 1) as nat, NUM_SLOTS as nat);
    walk_step(self.slot_mask, bits, k as u8);
-- loopend 0
    walk_next(self.slot_mask, bits, k0 + 1);
    digs_skip(self.slot_mask, self.digests@, (k0 + 1) as nat, capped(k as int));

== fn msgs::digest::Digests::parse_body (digest_size, buf)
-- spec
    ensures
        r is Ok <==> Self::accepts(buf@, digest_size.n() as int), //@C05
        r is Ok ==> Self::parsed(buf@, digest_size.n() as int, r->Ok_0), //@C03

== fn msgs::digest::Digests::read_digests (slot_mask, digest_size, r)
-- ret res
-- spec
    requires old(r).wf(), old(r).al(),
    ensures
        res is Ok <==> old(r).o() + digest_size.n() * digs_count(slot_mask, NUM_SLOTS as nat) <= old(r).b().len(), //@C05
        res is Ok ==> res->Ok_0.slot_mask == slot_mask
            && digs_at(old(r).b(), old(r).o(), digest_size.n() as int, slot_mask, NUM_SLOTS as nat, res->Ok_0.digests@), //@C03
-- body
    walk_next(slot_mask, slot_mask, 0);
    digs_skip(slot_mask, Seq::empty(), 0, capped(vstd::std_specs::bits::u8_trailing_zeros(slot_mask) as int));
    use_type_invariant(&digest_size);
    assert(digest_size.n() * digs_count(slot_mask, 0) == 0) by (nonlinear_arith) requires digs_count(slot_mask, 0) == 0;
-- loop 0
    invariant
        0 <= digest_size.n() <= crate::config::MAX_DIGEST_SIZE,
        walk(slot_mask, bits, k as int), k < 8 ==> mask_bit(bits, k as int),
        r.at(old(r).b(), old(r).o() + digest_size.n() * digs_count(slot_mask, capped(k as int))),
        digs_at(old(r).b(), old(r).o(), digest_size.n() as int, slot_mask, capped(k as int), digests@),
        forall|i: int| k <= i < NUM_SLOTS ==> (#[trigger] digests@[i]) is None,
    decreases 8 - k,
-- loopbody 0
    ghost let k0 = k;
    ghost let d0 = digests@;
    assert(mask_bit(slot_mask, k as int));
    digs_mono(slot_mask, Seq::empty(), (k + 1) as nat, NUM_SLOTS as nat);
    assert(digest_size.n() * digs_count(slot_mask, (k + 1) as nat) <= digest_size.n() * digs_count(slot_mask, NUM_SLOTS as nat)) by (nonlinear_arith)
        requires digs_count(slot_mask, (k + 1) as nat) <= digs_count(slot_mask, NUM_SLOTS as nat), 0 <= digest_size.n();
    assert(digest_size.n() * (digs_count(slot_mask, k as nat) + 1) == digest_size.n() * digs_count(slot_mask, k as nat) + digest_size.n()) by (nonlinear_arith);
    walk_step(slot_mask, bits, k as u8);
-- loopend 0
    walk_next(slot_mask, bits, k0 + 1);
    digs_skip(slot_mask, Seq::empty(), (k0 + 1) as nat, capped(k as int));
    assert forall|i: int| 0 <= i < capped(k as int) implies (mask_bit(slot_mask, i) <==> #[trigger] digests@[i] is Some) by {
        if i < k0 { assert(digests@[i] == d0[i]); }
        if k0 < i { assert(d0[i] is None); assert(digests@[i] == d0[i]); }
    }

== mod msgs::certificates
impl GetCertificate {
    /// why a body is refused
    pub open spec fn fault(b: Seq<u8>, e: ReadError) -> bool {
        match e {
            ReadError::BufferEmpty => b.len() < 6,
            ReadError::ReservedByteNotZero => crate::vx::dirty(b, 1, 1),
            _ => false,
        }
    }
    pub open spec fn accepts(b: Seq<u8>) -> bool { b.len() >= 6 && b[1] == 0 }
    pub open spec fn parsed(b: Seq<u8>) -> Self { GetCertificate { slot: b[0], offset: crate::vx::rd16(b, 2), length: crate::vx::rd16(b, 4) } }
    pub proof fn round_trip(m: Self, t: Seq<u8>) //@C03
        ensures Self::accepts(m.body() + t), Self::parsed(m.body() + t) == m,
    {
        crate::vx::rd16_of(m.body() + t, 2, m.offset);
        crate::vx::rd16_of(m.body() + t, 4, m.length);
    }
}
impl Certificate {
    pub open spec fn wf(&self) -> bool { self.portion_length <= MAX_CERT_CHAIN_SIZE }
    pub open spec fn chain(&self) -> Seq<u8> { self.cert_chain@.take(self.portion_length as int) }
    pub open spec fn accepts(b: Seq<u8>) -> bool {
        b.len() >= 6 && b[1] == 0 && crate::vx::rd16(b, 2) <= MAX_CERT_CHAIN_SIZE && 6 + crate::vx::rd16(b, 2) <= b.len()
    }
    pub open spec fn parsed(b: Seq<u8>, m: Self) -> bool {
        &&& m.slot == b[0] && m.portion_length == crate::vx::rd16(b, 2) && m.remainder_length == crate::vx::rd16(b, 4)
        &&& m.chain() =~= b.subrange(6, 6 + m.portion_length)
    }
    pub proof fn round_trip(m: Self, t: Seq<u8>, m2: Self) //@C03
        requires m.wf(),
        ensures
            Self::accepts(m.body() + t),
            Self::parsed(m.body() + t, m2) ==> m2.slot == m.slot && m2.portion_length == m.portion_length && m2.remainder_length == m.remainder_length
                && m2.chain() == m.chain(),
    {
        let b = m.body() + t;
        crate::vx::rd16_of(b, 2, m.portion_length);
        crate::vx::rd16_of(b, 4, m.remainder_length);
        assert(b.subrange(6, 6 + m.portion_length) =~= m.chain());
    }
}
// ---- DER headers of the certificates in a chain
pub open spec fn der_ok(b: Seq<u8>, o: int) -> bool {
    &&& 0 <= o && o + 2 <= b.len() && b[o] == 0x30
    &&& b[o + 1] < 128 || (b[o + 1] == 0x81 && o + 3 <= b.len() && b[o + 2] >= 128)
        || (b[o + 1] == 0x82 && o + 4 <= b.len() && b[o + 2] >= 1)
}
pub open spec fn der_hdr(b: Seq<u8>, o: int) -> int { if b[o + 1] < 128 { 2 } else if b[o + 1] == 0x81 { 3 } else { 4 } }
pub open spec fn der_len(b: Seq<u8>, o: int) -> int {
    if b[o + 1] < 128 { b[o + 1] as int } else if b[o + 1] == 0x81 { b[o + 2] as int } else { 256 * b[o + 2] + b[o + 3] }
}
pub open spec fn der_end(b: Seq<u8>, o: int) -> int { o + der_hdr(b, o) + der_len(b, o) }
/// certificates from offset `o` to the end of `b`, at most `k` before the last one
pub open spec fn chain_acc(b: Seq<u8>, o: int, k: nat) -> bool decreases k {
    &&& der_ok(b, o) && der_end(b, o) <= b.len()
    &&& der_end(b, o) == b.len() || (k > 0 && chain_acc(b, der_end(b, o), (k - 1) as nat))
}
pub open spec fn cert_off(b: Seq<u8>, o: int, i: nat) -> int decreases i {
    if i == 0 { o } else { der_end(b, cert_off(b, o, (i - 1) as nat)) }
}
/// one complete DER sequence
pub open spec fn is_cert(c: Seq<u8>) -> bool { der_ok(c, 0) && der_end(c, 0) == c.len() }
pub open spec fn certs_len(s: Seq<&[u8]>, n: nat) -> int decreases n {
    if n == 0 { 0 } else { certs_len(s, (n - 1) as nat) + s[n - 1]@.len() }
}
pub open spec fn certs_body(s: Seq<&[u8]>, n: nat) -> Seq<u8> decreases n {
    if n == 0 { Seq::empty() } else { certs_body(s, (n - 1) as nat) + s[n - 1]@ }
}
pub proof fn certs_body_len(s: Seq<&[u8]>, n: nat)
    ensures certs_body(s, n).len() == certs_len(s, n), certs_len(s, n) >= 0,
    decreases n,
{
    if n > 0 { certs_body_len(s, (n - 1) as nat); }
}
pub proof fn certs_len_mono(s: Seq<&[u8]>, i: nat, n: nat)
    requires i <= n,
    ensures certs_len(s, i) <= certs_len(s, n),
    decreases n,
{
    if i < n { certs_len_mono(s, i, (n - 1) as nat); }
}
impl<'a> CertificateChain<'a> {
    pub open spec fn inv(self) -> bool { self.num_intermediate_certs <= MAX_CERT_CHAIN_DEPTH }
    pub open spec fn n(&self) -> nat { self.num_intermediate_certs as nat }
    pub open spec fn inters(&self) -> Seq<&'a [u8]> { self.intermediate_certs@.take(self.num_intermediate_certs as int) }
    pub open spec fn size(&self) -> int { 4 + self.root_hash@.len() + certs_len(self.intermediate_certs@, self.n()) + self.leaf_cert@.len() }
    pub open spec fn bytes(&self) -> Seq<u8> {
        crate::vx::le16(self.size() as u16) + seq![0u8, 0] + self.root_hash@ + certs_body(self.intermediate_certs@, self.n()) + self.leaf_cert@
    }
    pub open spec fn same(a: Self, b: Self) -> bool {
        &&& a.root_hash@ == b.root_hash@ && a.leaf_cert@ == b.leaf_cert@
        &&& a.num_intermediate_certs == b.num_intermediate_certs
        &&& forall|i: int| 0 <= i < a.num_intermediate_certs ==> #[trigger] a.intermediate_certs@[i]@ == b.intermediate_certs@[i]@
    }
    pub open spec fn accepts(b: Seq<u8>, ds: int) -> bool {
        &&& b.len() >= 4 + ds && crate::vx::rd16(b, 0) == b.len() && crate::vx::zeros(b, 2, 2)
        &&& chain_acc(b, 4 + ds, MAX_CERT_CHAIN_DEPTH as nat)
    }
    /// an exact split of `b`: digest, then consecutive DER sequences, the last of which ends with `b`
    pub open spec fn parsed(b: Seq<u8>, ds: int, c: Self) -> bool {
        &&& c.inv()
        &&& c.root_hash@ =~= b.subrange(4, 4 + ds)
        &&& forall|i: nat| i < c.num_intermediate_certs ==> piece(b, #[trigger] cert_off(b, 4 + ds, i), c.intermediate_certs@[i as int]@)
        &&& last(b, cert_off(b, 4 + ds, c.n()))
        &&& c.leaf_cert@ =~= b.skip(cert_off(b, 4 + ds, c.n()))
    }
}
/// `c` is the complete DER sequence at `s`, and it is not the last of `b`
pub open spec fn piece(b: Seq<u8>, s: int, c: Seq<u8>) -> bool {
    der_ok(b, s) && s < der_end(b, s) < b.len() && c == b.subrange(s, der_end(b, s))
}
/// the DER sequence at `s` ends with `b`
pub open spec fn last(b: Seq<u8>, s: int) -> bool { der_ok(b, s) && der_end(b, s) == b.len() }
pub proof fn der_shift(c: Seq<u8>, b: Seq<u8>, o: int)
    requires is_cert(c), 0 <= o, o + c.len() <= b.len(), b.subrange(o, o + c.len()) == c,
    ensures der_ok(b, o), der_end(b, o) == o + c.len(),
{
    let x = b.subrange(o, o + c.len());
    assert(x[0] == b[o] && x[1] == b[o + 1]);
    if c[1] >= 128 {
        assert(b[o + 2] == x[2]);
        if c[1] == 0x82 { assert(b[o + 3] == x[3]); }
    }
}
/// offsets of the certificates of a written chain
pub proof fn offs(p: Seq<u8>, s: Seq<&[u8]>, n: nat, t: Seq<u8>, b: Seq<u8>, i: nat)
    requires b == p + certs_body(s, n) + t, i <= n <= s.len(), forall|j: int| 0 <= j < n ==> is_cert(#[trigger] s[j]@), t.len() > 0,
    ensures
        cert_off(b, p.len() as int, i) == p.len() + certs_len(s, i),
        i < n ==> piece(b, cert_off(b, p.len() as int, i), s[i as int]@),
        i < n ==> der_end(b, cert_off(b, p.len() as int, i)) == p.len() + certs_len(s, i + 1),
    decreases i,
{
    certs_body_len(s, n);
    certs_len_mono(s, i, n);
    if i > 0 { offs(p, s, n, t, b, (i - 1) as nat); }
    if i < n {
        part(s, n, i);
        certs_len_mono(s, i + 1, n);
        let o = p.len() + certs_len(s, i);
        let e = p.len() + certs_len(s, i + 1);
        assert(b.subrange(o, e) =~= certs_body(s, n).subrange(certs_len(s, i), certs_len(s, i + 1)));
        assert(is_cert(s[i as int]@));
        der_shift(s[i as int]@, b, o);
    }
}
/// the i-th piece of a concatenation
pub proof fn part(s: Seq<&[u8]>, n: nat, i: nat)
    requires i < n <= s.len(),
    ensures
        0 <= certs_len(s, i) <= certs_len(s, i + 1) <= certs_body(s, n).len(),
        certs_body(s, n).subrange(certs_len(s, i), certs_len(s, i + 1)) == s[i as int]@,
    decreases n,
{
    certs_body_len(s, n);
    certs_body_len(s, i);
    certs_body_len(s, (n - 1) as nat);
    certs_len_mono(s, i + 1, n);
    if i + 1 == n {
        assert(certs_body(s, n).subrange(certs_len(s, i), certs_len(s, i + 1)) =~= s[i as int]@);
    } else {
        part(s, (n - 1) as nat, i);
        certs_len_mono(s, i + 1, (n - 1) as nat);
        assert(certs_body(s, n).subrange(certs_len(s, i), certs_len(s, i + 1))
            =~= certs_body(s, (n - 1) as nat).subrange(certs_len(s, i), certs_len(s, i + 1)));
    }
}
pub proof fn chain_acc_from(b: Seq<u8>, o: int, n: nat, i: nat, k: nat)
    requires
        i <= n, k >= n - i,
        forall|j: nat| j < n ==> der_ok(b, #[trigger] cert_off(b, o, j)) && der_end(b, cert_off(b, o, j)) <= b.len(),
        last(b, cert_off(b, o, n)),
    ensures chain_acc(b, cert_off(b, o, i), k),
    decreases n - i,
{
    if i < n {
        assert(der_ok(b, cert_off(b, o, i)));
        assert(cert_off(b, o, i + 1) == der_end(b, cert_off(b, o, i)));
        chain_acc_from(b, o, n, i + 1, (k - 1) as nat);
    }
}
impl<'a> CertificateChain<'a> {
    /// decoding an encoded chain of complete certificates gives back the chain
    pub proof fn round_trip(c: Self, ds: int, c2: Self) //@C18
        requires
            c.inv(), c.root_hash@.len() == ds, c.size() <= 65535,
            is_cert(c.leaf_cert@),
            forall|i: int| 0 <= i < c.num_intermediate_certs ==> is_cert(#[trigger] c.intermediate_certs@[i]@),
        ensures
            Self::accepts(c.bytes(), ds),
            Self::parsed(c.bytes(), ds, c),
            Self::parsed(c.bytes(), ds, c2) ==> Self::same(c, c2),
    {
        let b = c.bytes();
        let s = c.intermediate_certs@;
        let n = c.n();
        certs_body_len(s, n);
        let len = c.size() as u16;
        assert(b[0] == crate::vx::le16(len)[0] && b[1] == crate::vx::le16(len)[1]);
        crate::vx::rd16_of(b, 0, len);
        assert(b.len() == len);
        let p = crate::vx::le16(len) + seq![0u8, 0] + c.root_hash@;
        let t = c.leaf_cert@;
        assert(b =~= p + certs_body(s, n) + t);
        assert(p.len() == 4 + ds);
        let o = 4 + ds;
        let lo = o + certs_len(s, n);
        offs(p, s, n, t, b, n);
        assert(b.subrange(lo, lo + t.len()) =~= t);
        assert(b.skip(lo) =~= t);
        der_shift(t, b, lo);
        assert forall|j: nat| j < n implies piece(b, #[trigger] cert_off(b, o, j), s[j as int]@) by {
            offs(p, s, n, t, b, j);
        }
        assert(last(b, cert_off(b, o, n)));
        chain_acc_from(b, o, n, 0, MAX_CERT_CHAIN_DEPTH as nat);
        assert(b.subrange(4, 4 + ds) =~= c.root_hash@);
        if Self::parsed(b, ds, c2) {
            Self::unique(b, o, c, c2);
        }
    }
    /// a split is unique
    pub proof fn unique(b: Seq<u8>, o: int, c: Self, c2: Self)
        requires
            c.inv(), c2.inv(),
            forall|i: nat| i < c.num_intermediate_certs ==> piece(b, #[trigger] cert_off(b, o, i), c.intermediate_certs@[i as int]@),
            forall|i: nat| i < c2.num_intermediate_certs ==> piece(b, #[trigger] cert_off(b, o, i), c2.intermediate_certs@[i as int]@),
            last(b, cert_off(b, o, c.n())), last(b, cert_off(b, o, c2.n())),
        ensures
            c.num_intermediate_certs == c2.num_intermediate_certs,
            forall|i: int| 0 <= i < c.num_intermediate_certs ==> #[trigger] c.intermediate_certs@[i]@ == c2.intermediate_certs@[i]@,
    {
        if c.n() < c2.n() { assert(piece(b, cert_off(b, o, c.n()), c2.intermediate_certs@[c.n() as int]@)); }
        if c2.n() < c.n() { assert(piece(b, cert_off(b, o, c2.n()), c.intermediate_certs@[c2.n() as int]@)); }
        assert forall|i: int| 0 <= i < c.num_intermediate_certs implies #[trigger] c.intermediate_certs@[i]@ == c2.intermediate_certs@[i]@ by {
            let j = i as nat;
            assert(piece(b, cert_off(b, o, j), c.intermediate_certs@[j as int]@));
            assert(piece(b, cert_off(b, o, j), c2.intermediate_certs@[j as int]@));
        }
    }
}

== impl msgs::certificates::GetCertificate@Msg
    open spec fn ver() -> u8 { 0x11 }
    open spec fn code() -> u8 { 0x82 }
    open spec fn full(e: Self::WriteError) -> bool { true }
    proof fn full_from(e: Self::WriteError) {}
    proof fn consts() {} //@C03,C05
    open spec fn msg_wf(&self) -> bool { true }
    open spec fn writable(&self) -> bool { true }
    open spec fn body(&self) -> Seq<u8> { seq![self.slot, 0u8] + crate::vx::le16(self.offset) + crate::vx::le16(self.length) }

== impl msgs::certificates::Certificate@Msg
    open spec fn ver() -> u8 { 0x11 }
    open spec fn code() -> u8 { 0x02 }
    open spec fn full(e: Self::WriteError) -> bool { true }
    proof fn full_from(e: Self::WriteError) {}
    proof fn consts() {} //@C03,C05
    open spec fn msg_wf(&self) -> bool { self.wf() }
    open spec fn writable(&self) -> bool { true }
    open spec fn body(&self) -> Seq<u8> {
        seq![self.slot, 0u8] + crate::vx::le16(self.portion_length) + crate::vx::le16(self.remainder_length) + self.chain()
    }

== fn msgs::certificates::GetCertificate::parse_body (buf)
-- ret res
-- spec
    ensures
        res is Ok <==> Self::accepts(buf@), //@C05
        res is Err ==> Self::fault(buf@, res->Err_0), //@C20
        res is Ok ==> res->Ok_0 == Self::parsed(buf@), //@C03

== fn msgs::certificates::Certificate::parse_body (buf)
-- ret res
-- spec
    ensures
        res is Ok <==> Self::accepts(buf@), //@C05
        res is Ok ==> Self::parsed(buf@, res->Ok_0) && res->Ok_0.wf(), //@C03

== inherent msgs::certificates::CertificateChain@PartialEq

== fn msgs::certificates::CertificateChain::eq@PartialEq (self, other)
-- spec
    // the fields are private and every constructor and method is proved to establish it
    requires self.inv(), other.inv(),
    ensures r == Self::same(*self, *other), //@C22
-- body
    assert(self.inters().len() == self.n() && other.inters().len() == other.n());
    assert(forall|i: int| 0 <= i < self.n() ==> self.inters()[i] == #[trigger] self.intermediate_certs@[i]);
    assert(forall|i: int| 0 <= i < other.n() ==> other.inters()[i] == #[trigger] other.intermediate_certs@[i]);

== fn msgs::certificates::CertificateChain::new (root_hash, leaf_cert)
-- spec
    ensures r.inv(), r.root_hash@ == root_hash@, r.leaf_cert@ == leaf_cert@, r.num_intermediate_certs == 0,

== fn msgs::certificates::CertificateChain::intermediate_certs (self)
-- spec
    requires self.inv(),
    ensures r@ == self.inters(),

== fn msgs::certificates::CertificateChain::append_intermediate_cert (self, cert)
-- spec
    requires old(self).inv(),
    ensures
        final(self).inv(),
        r is Ok <==> old(self).num_intermediate_certs < MAX_CERT_CHAIN_DEPTH,
        r is Err ==> *final(self) == *old(self),
        r is Ok ==> final(self).root_hash == old(self).root_hash && final(self).leaf_cert == old(self).leaf_cert
            && final(self).inters() =~= old(self).inters().push(cert),

== fn msgs::certificates::CertificateChain::write (self, w)
-- spec
    requires old(w).wf(), self.inv(), self.size() <= usize::MAX,
    ensures
        r is Ok <==> self.size() <= 65535 && old(w).room() >= self.size(), //@C18
        r is Ok ==> Writer::app(*old(w), *final(w), self.bytes()) && r->Ok_0 == final(w).offset, //@C18
        r is Err ==> Writer::pre(*old(w), *final(w)), //@C04
-- body
    certs_body_len(self.intermediate_certs@, self.n());
-- loop 0 it
    invariant
        self.inv(), self.size() <= usize::MAX,
        it.index@ <= self.num_intermediate_certs,
        acc == certs_len(self.intermediate_certs@, it.index@ as nat),
-- loopbody 0
    certs_len_mono(self.intermediate_certs@, (it.index@ + 1) as nat, self.n());
-- loop 1
    invariant
        self.inv(), length == self.size(), length <= 65535,
        Writer::app(*old(w), *w, crate::vx::le16(self.size() as u16) + seq![0u8, 0] + self.root_hash@ + certs_body(self.intermediate_certs@, i as nat)),
-- loopbody 1
    certs_len_mono(self.intermediate_certs@, (i + 1) as nat, self.n());
    certs_body_len(self.intermediate_certs@, i as nat);

== fn msgs::certificates::CertificateChain::parse (buf, digest_size)
-- ret res
-- spec
    ensures
        res is Ok <==> Self::accepts(buf@, digest_size.n() as int), //@C18
        res is Ok ==> Self::parsed(buf@, digest_size.n() as int, res->Ok_0), //@C18
-- body
    use_type_invariant(&digest_size);
    ghost let o = 4 + digest_size.n();
-- loop 0
    invariant
        0 <= digest_size.n() <= crate::config::MAX_DIGEST_SIZE, o == 4 + digest_size.n(), buf@.len() >= o,
        crate::vx::rd16(buf@, 0) == buf@.len(), crate::vx::zeros(buf@, 2, 2),
        root_hash@ =~= buf@.subrange(4, o),
        num_intermediate_certs <= MAX_CERT_CHAIN_DEPTH,
        r.at(buf@, cert_off(buf@, o, num_intermediate_certs as nat)),
        forall|i: nat| i < num_intermediate_certs ==> piece(buf@, #[trigger] cert_off(buf@, o, i), intermediate_certs@[i as int]@),
        chain_acc(buf@, o, MAX_CERT_CHAIN_DEPTH as nat) == chain_acc(buf@, cert_off(buf@, o, num_intermediate_certs as nat), (MAX_CERT_CHAIN_DEPTH - num_intermediate_certs) as nat),
    decreases MAX_CERT_CHAIN_DEPTH - num_intermediate_certs,
-- loopbody 0
    ghost let c0 = cert_off(buf@, o, num_intermediate_certs as nat);
    ghost let n0 = num_intermediate_certs as nat;
    assert(cert_off(buf@, o, n0 + 1) == der_end(buf@, c0));
    assert(chain_acc(buf@, c0, (MAX_CERT_CHAIN_DEPTH - n0) as nat) == (der_ok(buf@, c0) && der_end(buf@, c0) <= buf@.len()
        && (der_end(buf@, c0) == buf@.len() || (MAX_CERT_CHAIN_DEPTH - n0 > 0 && chain_acc(buf@, der_end(buf@, c0), (MAX_CERT_CHAIN_DEPTH - n0 - 1) as nat)))));

== fn msgs::certificates::CertificateChain::read_cert_size (r)
-- ret res
-- spec
    requires old(r).wf(), old(r).al(),
    ensures
        res is Ok <==> der_ok(old(r).b(), old(r).o()), //@C18
        res is Ok ==> res->Ok_0.0 == der_len(old(r).b(), old(r).o()) && res->Ok_0.1 == der_hdr(old(r).b(), old(r).o())
            && final(r).at(old(r).b(), old(r).o() + der_hdr(old(r).b(), old(r).o())), //@C18
-- body
    let b = r.b();
    let o = r.o();
    if o + 1 < b.len() {
        let x = b[o + 1];
        assert((x & 0x80u8 == 0u8) == (x < 128)) by (bit_vector);
    }
    if o + 3 < b.len() {
        let h = b[o + 2];
        let l = b[o + 3];
        assert((((h as usize) << 8) | (l as usize)) == add(mul(256usize, h as usize), l as usize)) by (bit_vector);
    }
