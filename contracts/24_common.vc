== narrow DigestSize
== narrow SignatureSize
== narrow OpaqueElement
== narrow BitStream
== narrow GetMeasurements
== mod crypto
##if crypto
/// a crypto provider is compiled in
pub open spec fn provider() -> bool { true }
/// the hash algorithms of the provider
pub open spec fn hashes() -> u32 { 7 }
##else
pub open spec fn provider() -> bool { false }
pub open spec fn hashes() -> u32 { 1 }
##end
##if rand
/// the size of a nonce
pub spec const NONCE: int = 32;
##else
pub spec const NONCE: int = 0;
##end
== mod crypto::nonce
use crate::crypto::NONCE;
impl Nonce {
    pub open spec fn bytes(&self) -> Seq<u8> { self.0@ }
}

== fn crypto::nonce::Nonce::new ()
-- spec
    ensures crate::ext::rand::drawn(r.bytes()), //@C23

== fn crypto::nonce::Nonce::read (r)
-- ret res
-- spec
    requires old(r).wf(), old(r).al(),
    ensures
        res is Ok <==> old(r).o() + NONCE <= old(r).b().len(), //@C05
        res is Ok ==> final(r).at(old(r).b(), old(r).o() + NONCE) && res->Ok_0.bytes() =~= old(r).b().subrange(old(r).o(), old(r).o() + NONCE), //@C03
        res is Err ==> res->Err_0 is BufferEmpty, //@C20
        Reader::frame(*old(r), *final(r)),

== asref crypto::nonce::Nonce@AsRef<[u8]> (r)
    r@ == self.bytes()

== fn crypto::nonce::Nonce::as_ref@AsRef<[u8]> (self)
-- spec
    ensures r@ == self.bytes(),

== fn crypto::nonce::Nonce::as_mut@AsMut<[u8]> (self)
-- spec
    ensures r@ == old(self).bytes(), final(r)@ == final(self).bytes(),

== mod msgs::common
// ---- digests and signatures: a size and a buffer of which only the first `size` bytes count
impl DigestSize {
    pub open(in crate::msgs) spec fn mk(v: usize) -> Self { DigestSize(v) }
    #[verifier::type_invariant]
    pub open(in crate::msgs) spec fn inv(self) -> bool { self.0 <= config::MAX_DIGEST_SIZE }
    pub open(in crate::msgs) spec fn n(&self) -> int { self.0 as int }
    pub open spec fn wf(&self) -> bool { 0 <= self.n() <= config::MAX_DIGEST_SIZE }
}
impl SignatureSize {
    pub open(in crate::msgs) spec fn mk(v: usize) -> Self { SignatureSize(v) }
    #[verifier::type_invariant]
    pub open(in crate::msgs) spec fn inv(self) -> bool { self.0 <= config::MAX_SIGNATURE_SIZE }
    pub open(in crate::msgs) spec fn n(&self) -> int { self.0 as int }
    pub open spec fn wf(&self) -> bool { 0 <= self.n() <= config::MAX_SIGNATURE_SIZE }
}
impl DigestBuf {
    pub open spec fn wf(&self) -> bool { self.size.wf() }
    pub open spec fn bytes(&self) -> Seq<u8> { self.buf@.take(self.size.n()) }
}
impl SignatureBuf {
    pub open spec fn wf(&self) -> bool { self.size.wf() }
    pub open spec fn bytes(&self) -> Seq<u8> { self.buf@.take(self.size.n()) }
}

// ---- vendor ids
pub open spec fn reg_num(x: VendorRegistryId) -> u8 {
    match x {
        VendorRegistryId::Dmtf => 0, VendorRegistryId::Tcg => 1, VendorRegistryId::Usb => 2, VendorRegistryId::PciSig => 3,
        VendorRegistryId::Iana => 4, VendorRegistryId::HDBaseT => 5, VendorRegistryId::Mipi => 6, VendorRegistryId::Cxl => 7,
        VendorRegistryId::Jedec => 8,
    }
}
pub open spec fn reg_of(x: u8) -> VendorRegistryId {
    if x == 0 { VendorRegistryId::Dmtf } else if x == 1 { VendorRegistryId::Tcg } else if x == 2 { VendorRegistryId::Usb }
    else if x == 3 { VendorRegistryId::PciSig } else if x == 4 { VendorRegistryId::Iana } else if x == 5 { VendorRegistryId::HDBaseT }
    else if x == 6 { VendorRegistryId::Mipi } else if x == 7 { VendorRegistryId::Cxl } else { VendorRegistryId::Jedec }
}
/// length of the vendor id of a registry (table 50 of SPDM 1.2)
pub open spec fn reg_len(x: u8) -> int { if x == 0 { 0 } else if x == 4 || x == 5 { 4 } else { 2 } }
pub open spec fn vid_len(v: VendorId) -> u8 { match v { VendorId::Empty => 0, VendorId::U16(_) => 2, VendorId::U32(_) => 4 } }
pub open spec fn vid_bytes(v: VendorId) -> Seq<u8> {
    match v {
        VendorId::Empty => seq![0u8],
        VendorId::U16(x) => seq![2u8] + crate::vx::le16(x),
        VendorId::U32(x) => seq![4u8] + crate::vx::le32(x),
    }
}
pub open spec fn vid_at(b: Seq<u8>, o: int, n: u8) -> VendorId {
    if n == 0 { VendorId::Empty } else if n == 2 { VendorId::U16(crate::vx::rd16(b, o)) } else { VendorId::U32(crate::vx::rd32(b, o)) }
}
pub open spec fn vid_acc(b: Seq<u8>, o: int, n: u8) -> bool { (n == 0 || n == 2 || n == 4) && o + n <= b.len() }

// ---- opaque elements
pub open spec fn pad4(n: int) -> int { if n % 4 == 0 { 0 } else { 4 - n % 4 } }
impl OpaqueElement {
    #[verifier::type_invariant]
    pub open(in crate::msgs) spec fn inv(self) -> bool { self.data_len <= config::MAX_OPAQUE_ELEMENT_DATA_SIZE }
    pub open(in crate::msgs) spec fn wf(&self) -> bool { self.data_len <= config::MAX_OPAQUE_ELEMENT_DATA_SIZE }
    pub open(in crate::msgs) spec fn writable(&self) -> bool { vid_len(self.vendor_id) == reg_len(reg_num(self.registry_id)) }
    pub open(in crate::msgs) spec fn content(&self) -> Seq<u8> { self.data@.take(self.data_len as int) }
    #[verifier::opaque]
    pub open(in crate::msgs) spec fn size(&self) -> int {
        let raw = 4 + reg_len(reg_num(self.registry_id)) + self.data_len;
        raw + pad4(raw)
    }
    #[verifier::opaque]
    pub open(in crate::msgs) spec fn bytes(&self) -> Seq<u8> {
        seq![reg_num(self.registry_id)] + vid_bytes(self.vendor_id) + crate::vx::le16(self.data_len) + self.content()
            + crate::vx::zseq(pad4(4 + vid_len(self.vendor_id) + self.data_len) as nat)
    }
    pub open(in crate::msgs) spec fn same(a: Self, b: Self) -> bool {
        a.registry_id == b.registry_id && a.vendor_id == b.vendor_id && a.data_len == b.data_len && a.content() == b.content()
    }
    pub open spec fn raw_at(b: Seq<u8>, o: int) -> int { 4 + b[o + 1] + crate::vx::rd16(b, o + 2 + b[o + 1]) }
    #[verifier::opaque]
    pub open spec fn end(b: Seq<u8>, o: int) -> int { o + Self::raw_at(b, o) + pad4(Self::raw_at(b, o)) }
    #[verifier::opaque]
    pub open spec fn acc(b: Seq<u8>, o: int) -> bool {
        &&& 0 <= o && o + 2 <= b.len() && b[o] <= 8 && b[o + 1] == reg_len(b[o])
        &&& o + 4 + b[o + 1] <= b.len()
        &&& crate::vx::rd16(b, o + 2 + b[o + 1]) <= config::MAX_OPAQUE_ELEMENT_DATA_SIZE
        &&& Self::end(b, o) <= b.len()
        &&& crate::vx::zeros(b, o + Self::raw_at(b, o), pad4(Self::raw_at(b, o)))
    }
    #[verifier::opaque]
    pub open(in crate::msgs) spec fn is_at(b: Seq<u8>, o: int, e: Self) -> bool {
        &&& reg_num(e.registry_id) == b[o]
        &&& e.vendor_id == vid_at(b, o + 2, b[o + 1])
        &&& e.data_len == crate::vx::rd16(b, o + 2 + b[o + 1])
        &&& e.content() =~= b.subrange(o + 4 + b[o + 1], o + 4 + b[o + 1] + e.data_len)
        &&& e.wf()
    }
    pub proof fn len(&self)
        requires self.wf(), self.writable(),
        ensures self.bytes().len() == self.size(), 4 <= self.size() <= (12 + config::MAX_OPAQUE_ELEMENT_DATA_SIZE),
    {
        reveal(OpaqueElement::bytes); reveal(OpaqueElement::size);
    }
    pub proof fn size_bound(&self)
        requires self.wf(),
        ensures 4 <= self.size() <= (12 + config::MAX_OPAQUE_ELEMENT_DATA_SIZE),
    {
        reveal(OpaqueElement::size);
    }
    /// an element read back where it was written
    pub proof fn round_trip(p: Seq<u8>, e: Self, t: Seq<u8>, b: Seq<u8>)
        requires b == p + e.bytes() + t, e.wf(), e.writable(),
        ensures
            Self::acc(b, p.len() as int),
            Self::end(b, p.len() as int) == p.len() + e.size(),
            forall|e2: Self| #[trigger] Self::is_at(b, p.len() as int, e2) ==> Self::same(e, e2),
    {
        reveal(OpaqueElement::bytes); reveal(OpaqueElement::size); reveal(OpaqueElement::acc); reveal(OpaqueElement::is_at); reveal(OpaqueElement::end);
        let o = p.len() as int;
        let s = e.bytes();
        e.len();
        let vl = vid_len(e.vendor_id) as int;
        let d = o + 2 + vl;
        assert(forall|i: int| 0 <= i < s.len() ==> b[o + i] == s[i]);
        assert(b[o] == s[0] && b[o + 1] == s[1]);
        assert(b[o] == reg_num(e.registry_id) && b[o + 1] == vl);
        match e.vendor_id {
            VendorId::Empty => {}
            VendorId::U16(x) => {
                assert(s[2] == crate::vx::le16(x)[0] && s[3] == crate::vx::le16(x)[1]);
                assert(b[o + 2] == s[2] && b[o + 3] == s[3]);
                crate::vx::rd16_of(b, o + 2, x);
            }
            VendorId::U32(x) => {
                assert(s[2] == crate::vx::le32(x)[0] && s[3] == crate::vx::le32(x)[1] && s[4] == crate::vx::le32(x)[2] && s[5] == crate::vx::le32(x)[3]);
                assert(b[o + 2] == s[2] && b[o + 3] == s[3] && b[o + 4] == s[4] && b[o + 5] == s[5]);
                crate::vx::rd32_of(b, o + 2, x);
            }
        }
        assert(s[2 + vl] == crate::vx::le16(e.data_len)[0] && s[3 + vl] == crate::vx::le16(e.data_len)[1]);
        assert(b[d] == s[2 + vl] && b[d + 1] == s[3 + vl]);
        crate::vx::rd16_of(b, d, e.data_len);
        assert(b.subrange(o + 4 + vl, o + 4 + vl + e.data_len) =~= e.content()) by {
            assert forall|i: int| 0 <= i < e.data_len implies b[o + 4 + vl + i] == e.content()[i] by {
                assert(b[o + (4 + vl + i)] == s[4 + vl + i]);
            }
        }
        let raw = 4 + vl + e.data_len;
        assert forall|i: int| o + raw <= i < o + raw + pad4(raw) implies b[i] == 0 by {
            assert(b[o + (i - o)] == s[i - o]);
        }
        assert forall|e2: Self| #[trigger] Self::is_at(b, o, e2) implies Self::same(e, e2) by {
            assert(reg_num(e2.registry_id) == reg_num(e.registry_id));
        }
    }
}

// ---- opaque data
pub open spec fn elems_size(s: Seq<OpaqueElement>, n: nat) -> int decreases n {
    if n == 0 { 0 } else { elems_size(s, (n - 1) as nat) + s[n - 1].size() }
}
pub open spec fn elems_bytes(s: Seq<OpaqueElement>, n: nat) -> Seq<u8> decreases n {
    if n == 0 { Seq::empty() } else { elems_bytes(s, (n - 1) as nat) + s[n - 1].bytes() }
}
pub open spec fn elems_off(b: Seq<u8>, o: int, n: nat) -> int decreases n {
    if n == 0 { o } else { OpaqueElement::end(b, elems_off(b, o, (n - 1) as nat)) }
}
pub open spec fn elems_acc(b: Seq<u8>, o: int, n: nat) -> bool {
    forall|i: nat| i < n ==> #[trigger] OpaqueElement::acc(b, elems_off(b, o, i))
}
pub open spec fn elems_at(b: Seq<u8>, o: int, n: nat, s: Seq<OpaqueElement>) -> bool {
    forall|i: int| 0 <= i < n ==> OpaqueElement::is_at(b, elems_off(b, o, i as nat), #[trigger] s[i])
}
pub proof fn elems_len(s: Seq<OpaqueElement>, n: nat)
    requires n <= s.len(), forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).wf(),
    ensures
        0 <= elems_size(s, n) <= n * (12 + config::MAX_OPAQUE_ELEMENT_DATA_SIZE),
        (forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).writable()) ==> elems_bytes(s, n).len() == elems_size(s, n),
    decreases n,
{
    if n > 0 {
        elems_len(s, (n - 1) as nat);
        assert(s[n - 1].wf());
        s[n - 1].size_bound();
        if forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).writable() {
            assert(s[n - 1].writable());
            s[n - 1].len();
        }
    }
}
/// a prefix of the elements takes no more room than all of them
pub proof fn elems_sum(s: Seq<OpaqueElement>, m: nat, n: nat)
    requires m <= n,
    ensures elems_bytes(s, m).len() <= elems_bytes(s, n).len(),
    decreases n,
{
    if m < n { elems_sum(s, m, (n - 1) as nat); }
}
#[verifier::spinoff_prover]
pub proof fn elems_round_trip(p: Seq<u8>, s: Seq<OpaqueElement>, n: nat, t: Seq<u8>, b: Seq<u8>)
    requires b == p + elems_bytes(s, n) + t, n <= s.len(), forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).wf() && s[i].writable(),
    ensures
        elems_acc(b, p.len() as int, n),
        elems_off(b, p.len() as int, n) == p.len() + elems_size(s, n),
        forall|s2: Seq<OpaqueElement>| #[trigger] elems_at(b, p.len() as int, n, s2) ==> (forall|i: int| 0 <= i < n ==> OpaqueElement::same(#[trigger] s[i], s2[i])),
    decreases n,
{
    let o = p.len() as int;
    elems_len(s, n);
    if n > 0 {
        let m = (n - 1) as nat;
        elems_len(s, m);
        let e = s[m as int];
        assert(b =~= p + elems_bytes(s, m) + (e.bytes() + t));
        elems_round_trip(p, s, m, e.bytes() + t, b);
        let q = p + elems_bytes(s, m);
        assert(b =~= q + e.bytes() + t);
        OpaqueElement::round_trip(q, e, t, b);
        assert(q.len() == elems_off(b, o, m));
        assert forall|s2: Seq<OpaqueElement>| #[trigger] elems_at(b, o, n, s2) implies (forall|i: int| 0 <= i < n ==> OpaqueElement::same(#[trigger] s[i], s2[i])) by {
            assert(elems_at(b, o, m, s2));
            assert(OpaqueElement::is_at(b, elems_off(b, o, m), s2[m as int]));
        }
    }
}
impl OpaqueData {
    pub open spec fn wf(&self) -> bool {
        self.total_elements <= config::MAX_OPAQUE_ELEMENTS && forall|i: int| 0 <= i < self.total_elements ==> (#[trigger] self.elements@[i]).wf()
    }
    pub open spec fn writable(&self) -> bool { forall|i: int| 0 <= i < self.total_elements ==> (#[trigger] self.elements@[i]).writable() }
    pub open spec fn size(&self) -> int { 4 + elems_size(self.elements@, self.total_elements as nat) }
    pub open spec fn bytes(&self) -> Seq<u8> { seq![self.total_elements, 0u8, 0, 0] + elems_bytes(self.elements@, self.total_elements as nat) }
    pub open spec fn same(a: Self, b: Self) -> bool {
        a.total_elements == b.total_elements && forall|i: int| 0 <= i < a.total_elements ==> OpaqueElement::same(#[trigger] a.elements@[i], b.elements@[i])
    }
    pub open spec fn acc(b: Seq<u8>, o: int) -> bool {
        &&& 0 <= o && o + 4 <= b.len() && b[o] <= config::MAX_OPAQUE_ELEMENTS && crate::vx::zeros(b, o + 1, 3)
        &&& elems_acc(b, o + 4, b[o] as nat)
    }
    pub open spec fn end(b: Seq<u8>, o: int) -> int { elems_off(b, o + 4, b[o] as nat) }
    pub open spec fn is_at(b: Seq<u8>, o: int, d: Self) -> bool {
        d.total_elements == b[o] && elems_at(b, o + 4, b[o] as nat, d.elements@) && d.wf()
    }
    pub proof fn len(&self)
        requires self.wf(),
        ensures self.writable() ==> self.bytes().len() == self.size(), 4 <= self.size() <= 4 + (12 + config::MAX_OPAQUE_ELEMENT_DATA_SIZE) * config::MAX_OPAQUE_ELEMENTS,
    {
        elems_len(self.elements@, self.total_elements as nat);
        assert(self.total_elements * (12 + config::MAX_OPAQUE_ELEMENT_DATA_SIZE) <= config::MAX_OPAQUE_ELEMENTS * (12 + config::MAX_OPAQUE_ELEMENT_DATA_SIZE)) by (nonlinear_arith) requires self.total_elements <= config::MAX_OPAQUE_ELEMENTS;
    }
    pub proof fn round_trip(p: Seq<u8>, d: Self, t: Seq<u8>, b: Seq<u8>)
        requires b == p + d.bytes() + t, d.wf(), d.writable(),
        ensures
            Self::acc(b, p.len() as int),
            Self::end(b, p.len() as int) == p.len() + d.size(),
            forall|d2: Self| #[trigger] Self::is_at(b, p.len() as int, d2) ==> Self::same(d, d2),
    {
        let h = seq![d.total_elements, 0u8, 0, 0];
        let n = d.total_elements as nat;
        assert(b =~= (p + h) + elems_bytes(d.elements@, n) + t);
        assert forall|i: int| 0 <= i < n implies (#[trigger] d.elements@[i]).wf() && d.elements@[i].writable() by {}
        elems_round_trip(p + h, d.elements@, n, t, b);
        let o = p.len() as int;
        assert(b[o] == h[0] && b[o + 1] == h[1] && b[o + 2] == h[2] && b[o + 3] == h[3]);
        assert forall|d2: Self| #[trigger] Self::is_at(b, o, d2) implies Self::same(d, d2) by {
            assert(elems_at(b, o + 4, n, d2.elements@));
        }
    }
}

== fn msgs::common::OpaqueData::default@Default ()
-- spec
    ensures r.total_elements == 0, r.wf(), r.writable(), r.size() == 4, r.bytes() =~= seq![0u8, 0, 0, 0],

== fn msgs::common::OpaqueElement::default@Default ()
-- spec
    ensures r.wf(), r.content().len() == 0, r.writable(),

== eq msgs::common::OpaqueElement
    Self::same(*self, *other)
== eq msgs::common::DigestBuf
    self.bytes() == other.bytes()
== eq msgs::common::SignatureBuf
    self.bytes() == other.bytes()

== fn msgs::common::OpaqueElement::eq@PartialEq (self, other)
-- spec
    ensures r == Self::same(*self, *other), //@C22
-- body
    use_type_invariant(self);
    use_type_invariant(other);
    assert(self.content() =~= self.data@.subrange(0, self.data_len as int));
    assert(other.content() =~= other.data@.subrange(0, other.data_len as int));

== fn msgs::common::DigestBuf::eq@PartialEq (self, other)
-- spec
    ensures r == (self.bytes() == other.bytes()), //@C22
-- body
    use_type_invariant(&self.size);
    use_type_invariant(&other.size);
    assert(self.bytes().len() == self.size.n() && other.bytes().len() == other.size.n());
    assert(self.size.n() == other.size.n() ==> self.size == other.size);

== fn msgs::common::SignatureBuf::eq@PartialEq (self, other)
-- spec
    ensures r == (self.bytes() == other.bytes()), //@C22
-- body
    use_type_invariant(&self.size);
    use_type_invariant(&other.size);
    assert(self.bytes().len() == self.size.n() && other.bytes().len() == other.size.n());
    assert(self.size.n() == other.size.n() ==> self.size == other.size);

== fn msgs::common::OpaqueData::serialized_size (self)
-- spec
    requires self.wf(),
    ensures r == self.size(), r <= 4 + (12 + config::MAX_OPAQUE_ELEMENT_DATA_SIZE) * config::MAX_OPAQUE_ELEMENTS,
-- loop 0 it
    invariant
        self.wf(),
        it.index@ <= self.total_elements,
        acc == elems_size(self.elements@, it.index@ as nat),
        acc <= it.index@ * (12 + config::MAX_OPAQUE_ELEMENT_DATA_SIZE),
-- loopbody 0
    assert(self.elements@[it.index@].wf());
-- body
    self.len();

== fn msgs::common::OpaqueData::write (self, w)
-- spec
    requires old(w).wf(), self.wf(),
    ensures
        r is Ok <==> self.writable() && old(w).room() >= self.bytes().len(), //@C04
        r is Ok ==> Writer::app(*old(w), *final(w), self.bytes()), //@C03,C04
        r is Err && self.writable() ==> r->Err_0 is BufferFull, //@C20
        r is Err ==> Writer::pre(*old(w), *final(w)), //@C04
-- attr #[verifier::spinoff_prover]
-- loop 0 it
    invariant
        self.wf(),
        it.index@ <= self.total_elements,
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] self.elements@[i]).writable(),
        Writer::app(*old(w), *w, seq![self.total_elements, 0u8, 0, 0] + elems_bytes(self.elements@, it.index@ as nat)),
-- loopbody 0
    assert(self.elements@[it.index@].wf());
    elems_sum(self.elements@, (it.index@ + 1) as nat, self.total_elements as nat);

== fn msgs::common::OpaqueData::read (r)
-- ret res
-- spec
    requires old(r).wf(), old(r).al(),
    ensures
        res is Ok <==> Self::acc(old(r).b(), old(r).o()), //@C05
        res is Ok ==> final(r).at(old(r).b(), Self::end(old(r).b(), old(r).o())) && Self::is_at(old(r).b(), old(r).o(), res->Ok_0), //@C03
        Reader::frame(*old(r), *final(r)),
-- loop 0
    invariant
        total_elements == old(r).b()[old(r).o()], total_elements <= config::MAX_OPAQUE_ELEMENTS,
        old(r).o() + 4 <= old(r).b().len(), crate::vx::zeros(old(r).b(), old(r).o() + 1, 3),
        r.at(old(r).b(), elems_off(old(r).b(), old(r).o() + 4, i as nat)), r.o() >= old(r).o(),
        elems_acc(old(r).b(), old(r).o() + 4, i as nat),
        elems_at(old(r).b(), old(r).o() + 4, i as nat, elements@),
        forall|j: int| 0 <= j < i ==> (#[trigger] elements@[j]).wf(),
-- loopbody 0
    assert(elems_off(old(r).b(), old(r).o() + 4, i as nat) == r.o());
    assert(elems_acc(old(r).b(), old(r).o() + 4, total_elements as nat) ==> OpaqueElement::acc(old(r).b(), elems_off(old(r).b(), old(r).o() + 4, i as nat)));

== fn msgs::common::OpaqueElement::serialized_size (self)
-- spec
    requires self.wf(),
    ensures r == self.size(), r <= (12 + config::MAX_OPAQUE_ELEMENT_DATA_SIZE),
-- body
    reveal(OpaqueElement::size);

== fn msgs::common::OpaqueElement::padding (raw)
-- spec
    ensures r == pad4(raw as int), r < 4,

== fn msgs::common::OpaqueElement::write (self, w)
-- spec
    requires old(w).wf(), self.wf(),
    ensures
        r is Ok <==> self.writable() && old(w).room() >= self.bytes().len(), //@C04
        r is Ok ==> Writer::app(*old(w), *final(w), self.bytes()), //@C03,C04
        r is Err && self.writable() ==> r->Err_0 is BufferFull, //@C20
        r is Err ==> Writer::pre(*old(w), *final(w)), //@C04
-- body
    reveal(OpaqueElement::bytes);

== fn msgs::common::OpaqueElement::read (r)
-- ret res
-- spec
    requires old(r).wf(), old(r).al(),
    ensures
        res is Ok <==> Self::acc(old(r).b(), old(r).o()), //@C05
        res is Ok ==> final(r).at(old(r).b(), Self::end(old(r).b(), old(r).o())) && Self::is_at(old(r).b(), old(r).o(), res->Ok_0) && res->Ok_0.wf(), //@C03
        Reader::frame(*old(r), *final(r)),
-- body
    reveal(OpaqueElement::acc); reveal(OpaqueElement::is_at); reveal(OpaqueElement::end);

== fn msgs::common::ensure_vendor_id_len_matches_registry_id (vendor_id_len, registry_id)
-- spec
    ensures r is Ok <==> vendor_id_len == reg_len(reg_num(registry_id)),

== fn msgs::common::VendorId::write (self, w)
-- spec
    requires old(w).wf(),
    ensures
        r is Ok <==> old(w).room() >= vid_bytes(*self).len(), //@C04
        r is Ok ==> Writer::app(*old(w), *final(w), vid_bytes(*self)) && r->Ok_0 == vid_len(*self), //@C03,C04
        r is Err ==> Writer::pre(*old(w), *final(w)), //@C04

== fn msgs::common::VendorId::read (r, vendor_id_len)
-- ret res
-- spec
    requires old(r).wf(), old(r).al(),
    ensures
        res is Ok <==> vid_acc(old(r).b(), old(r).o(), vendor_id_len), //@C05
        res is Ok ==> final(r).at(old(r).b(), old(r).o() + vendor_id_len) && res->Ok_0 == vid_at(old(r).b(), old(r).o(), vendor_id_len), //@C03
        Reader::frame(*old(r), *final(r)),

== from msgs::common::VendorRegistryId@TryFrom<u8> (v)
    if v <= 8 { Ok(reg_of(v)) } else { Err(ParseVendorRegistryIdError) }

== fn msgs::common::VendorRegistryId::vendor_id_len (self)
-- spec
    ensures r == reg_len(reg_num(*self)),

== from msgs::common::DigestSize@TryFrom<usize> (v)
    if v <= config::MAX_DIGEST_SIZE { Ok(DigestSize::mk(v)) } else { Err(DigestTooLargeError) }

== from msgs::common::SignatureSize@TryFrom<usize> (v)
    if v <= config::MAX_SIGNATURE_SIZE { Ok(SignatureSize::mk(v)) } else { Err(SignatureTooLargeError) }

== fn msgs::common::DigestBuf::new (size)
-- spec
    ensures r.size == size, r.bytes() =~= crate::vx::zseq(size.n() as nat),
-- body
    use_type_invariant(&size);

== fn msgs::common::SignatureBuf::new (size)
-- spec
    ensures r.size == size, r.bytes() =~= crate::vx::zseq(size.n() as nat),
-- body
    use_type_invariant(&size);

== fn msgs::common::DigestBuf::len (self)
-- spec
    ensures r == self.size.n(),

== fn msgs::common::SignatureBuf::len (self)
-- spec
    ensures r == self.size.n(),

== fn msgs::common::DigestBuf::read (size, r)
-- ret res
-- spec
    requires old(r).wf(), old(r).al(),
    ensures
        res is Ok <==> old(r).o() + size.n() <= old(r).b().len(), //@C05
        res is Ok ==> final(r).at(old(r).b(), old(r).o() + size.n()) && res->Ok_0.size == size && res->Ok_0.wf()
            && res->Ok_0.bytes() =~= old(r).b().subrange(old(r).o(), old(r).o() + size.n()), //@C03
        Reader::frame(*old(r), *final(r)),
-- body
    use_type_invariant(&size);

== fn msgs::common::SignatureBuf::read (size, r)
-- ret res
-- spec
    requires old(r).wf(), old(r).al(),
    ensures
        res is Ok <==> old(r).o() + size.n() <= old(r).b().len(), //@C05
        res is Ok ==> final(r).at(old(r).b(), old(r).o() + size.n()) && res->Ok_0.size == size && res->Ok_0.wf()
            && res->Ok_0.bytes() =~= old(r).b().subrange(old(r).o(), old(r).o() + size.n()), //@C03
        Reader::frame(*old(r), *final(r)),
-- body
    use_type_invariant(&size);

== fn msgs::common::DigestBuf::as_ref@AsRef<[u8]> (self)
-- spec
    ensures r@ == self.bytes(),
-- body
    use_type_invariant(&self.size);

== fn msgs::common::SignatureBuf::as_ref@AsRef<[u8]> (self)
-- spec
    ensures r@ == self.bytes(),
-- body
    use_type_invariant(&self.size);

== fn msgs::common::DigestBuf::as_mut@AsMut<[u8]> (self)
-- spec
    ensures
        r@ == old(self).bytes(),
        final(self).size == old(self).size,
        final(r)@.len() == r@.len() ==> final(self).bytes() == final(r)@,
-- body
    use_type_invariant(&self.size);

== fn msgs::common::SignatureBuf::as_mut@AsMut<[u8]> (self)
-- spec
    ensures
        r@ == old(self).bytes(),
        final(self).size == old(self).size,
        final(r)@.len() == r@.len() ==> final(self).bytes() == final(r)@,
-- body
    use_type_invariant(&self.size);

== asref msgs::common::DigestBuf@AsRef<[u8]> (r)
    r@ == self.bytes()

== fn msgs::common::DigestBuf::try_from@TryFrom<&[u8]> (buf)
-- spec
    ensures
        r is Ok <==> buf@.len() <= config::MAX_DIGEST_SIZE,
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.bytes() =~= buf@,

== asref msgs::common::SignatureBuf@AsRef<[u8]> (r)
    r@ == self.bytes()

== fn msgs::common::SignatureBuf::try_from@TryFrom<&[u8]> (buf)
-- spec
    ensures
        r is Ok <==> buf@.len() <= config::MAX_SIGNATURE_SIZE,
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.bytes() =~= buf@,

== from msgs::common::usize@From<DigestSize> (v)
    v.n() as usize

== from msgs::common::usize@From<SignatureSize> (v)
    v.n() as usize
