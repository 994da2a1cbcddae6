== mod msgs::measurements
use crate::crypto::NONCE;
pub open spec fn att_byte(a: RequestAttributes) -> u8 {
    if a.signature_requested { if a.raw_bit_stream_requested { 3 } else { 1 } } else { if a.raw_bit_stream_requested { 2 } else { 0 } }
}
pub open spec fn idx_ok(i: MeasurementIndex) -> bool {
    match i { MeasurementIndex::ImplementationDefined(x) => 1 <= x <= 0xef, MeasurementIndex::Reserved(x) => 0xf0 <= x <= 0xfc, _ => true }
}
pub open spec fn idx_num(i: MeasurementIndex) -> u8 {
    match i {
        MeasurementIndex::TotalNumberOfMeasurementsAvailable => 0, MeasurementIndex::AllMeasurements => 0xff,
        MeasurementIndex::ImplementationDefined(x) => x, MeasurementIndex::Reserved(x) => x,
        MeasurementIndex::MeasurementManifest => 0xfd, MeasurementIndex::DeviceMode => 0xfe,
    }
}
pub open spec fn idx_of(x: u8) -> MeasurementIndex {
    if x == 0 { MeasurementIndex::TotalNumberOfMeasurementsAvailable } else if x == 0xff { MeasurementIndex::AllMeasurements }
    else if x <= 0xef { MeasurementIndex::ImplementationDefined(x) } else if x <= 0xfc { MeasurementIndex::Reserved(x) }
    else if x == 0xfd { MeasurementIndex::MeasurementManifest } else { MeasurementIndex::DeviceMode }
}
impl GetMeasurements {
    #[verifier::type_invariant]
    pub open(in crate::msgs) spec fn inv(self) -> bool { self.attributes.signature_requested ==> self.nonce is Some }
    pub open(in crate::msgs) spec fn att(&self) -> RequestAttributes { self.attributes }
    pub open(in crate::msgs) spec fn idx(&self) -> MeasurementIndex { self.index }
    pub open(in crate::msgs) spec fn slot(&self) -> u8 { self.slot_id }
    pub open(in crate::msgs) spec fn non(&self) -> Option<Nonce> { self.nonce }
    pub open spec fn accepts(b: Seq<u8>) -> bool {
        &&& b.len() >= 2 && (b[0] >> 2u8) & 63u8 == 0
        &&& b[0] & 1 == 1 ==> b.len() >= 3 + NONCE && b[2 + NONCE] < crate::config::NUM_SLOTS
    }
    pub open(in crate::msgs) spec fn parsed(b: Seq<u8>, m: Self) -> bool {
        &&& m.attributes.signature_requested == (b[0] & 1 == 1)
        &&& m.attributes.raw_bit_stream_requested == ((b[0] >> 1u8) & 1 == 1)
        &&& m.index == idx_of(b[1])
        &&& b[0] & 1 == 1 ==> m.nonce is Some && m.nonce->Some_0.bytes() =~= b.subrange(2, 2 + NONCE) && m.slot_id == b[2 + NONCE]
        &&& b[0] & 1 != 1 ==> m.nonce is None && m.slot_id == 0
    }
    pub proof fn round_trip(m: Self, t: Seq<u8>, m2: Self) //@C03
        requires m.inv(), m.writable(), m.slot() < crate::config::NUM_SLOTS,
        ensures
            Self::accepts(m.body() + t),
            Self::parsed(m.body() + t, m2) ==> m2.att() == m.att() && m2.idx() == m.idx()
                && (m.att().signature_requested ==> m2.non() is Some && m2.non()->Some_0.bytes() == m.non()->Some_0.bytes() && m2.slot() == m.slot()),
    {
        let b = m.body() + t;
        let x = b[0];
        assert(b[0] == att_byte(m.attributes) && b[1] == idx_num(m.index));
        assert(0u8 & 1 == 0 && 1u8 & 1 == 1 && 2u8 & 1 == 0 && 3u8 & 1 == 1) by (bit_vector);
        assert((0u8 >> 1u8) & 1 == 0 && (1u8 >> 1u8) & 1 == 0 && (2u8 >> 1u8) & 1 == 1 && (3u8 >> 1u8) & 1 == 1) by (bit_vector);
        assert((x >> 2u8) & 63u8 == 0) by (bit_vector) requires x <= 3;
        if m.attributes.signature_requested {
            assert(b.subrange(2, 2 + NONCE) =~= m.nonce->Some_0.bytes());
            assert(b[2 + NONCE] == m.slot_id);
        }
    }
}
pub open spec fn mvt_num(x: DmtfMeasurementValueType) -> u8 {
    match x {
        DmtfMeasurementValueType::ImmutableRom => 0, DmtfMeasurementValueType::MutableFirmware => 1,
        DmtfMeasurementValueType::HardwareConfig => 2, DmtfMeasurementValueType::FirmwareConfig => 3,
        DmtfMeasurementValueType::MeasurementManifest => 4, DmtfMeasurementValueType::DeviceMode => 5,
        DmtfMeasurementValueType::MutableFirmwareVersion => 6, DmtfMeasurementValueType::MutableFirmwareSecurityVersion => 7,
    }
}
pub open spec fn mvt_of(x: u8) -> DmtfMeasurementValueType {
    if x == 0 { DmtfMeasurementValueType::ImmutableRom } else if x == 1 { DmtfMeasurementValueType::MutableFirmware }
    else if x == 2 { DmtfMeasurementValueType::HardwareConfig } else if x == 3 { DmtfMeasurementValueType::FirmwareConfig }
    else if x == 4 { DmtfMeasurementValueType::MeasurementManifest } else if x == 5 { DmtfMeasurementValueType::DeviceMode }
    else if x == 6 { DmtfMeasurementValueType::MutableFirmwareVersion } else { DmtfMeasurementValueType::MutableFirmwareSecurityVersion }
}
pub open spec fn rep_num(x: DmtfMeasurementValueRepresentation) -> u8 {
    match x { DmtfMeasurementValueRepresentation::Digest => 0, DmtfMeasurementValueRepresentation::RawBitStream => 0x80 }
}
impl BitStream {
    #[verifier::type_invariant]
    pub open(in crate::msgs) spec fn inv(self) -> bool { self.len <= config::MAX_MEASUREMENT_SIZE }
    pub open(in crate::msgs) spec fn wf(&self) -> bool { self.len <= config::MAX_MEASUREMENT_SIZE }
    pub open(in crate::msgs) spec fn bytes(&self) -> Seq<u8> { self.buf@.take(self.len as int) }
}
impl DmtfMeasurementValue {
    pub open spec fn wf(&self) -> bool { match *self { DmtfMeasurementValue::Digest(d) => d.wf(), DmtfMeasurementValue::BitStream(s) => s.wf() } }
    pub open spec fn bytes(&self) -> Seq<u8> { match *self { DmtfMeasurementValue::Digest(d) => d.bytes(), DmtfMeasurementValue::BitStream(s) => s.bytes() } }
}
impl DmtfMeasurement {
    /// the representation says which kind of value it is
    pub open spec fn wf(&self) -> bool { self.value.wf() }
    pub open spec fn consistent(&self) -> bool { (self.value is Digest) == (self.value_representation is Digest) }
    pub open spec fn bytes(&self) -> Seq<u8> {
        seq![rep_num(self.value_representation) | mvt_num(self.value_type)] + crate::vx::le16(self.value.bytes().len() as u16) + self.value.bytes()
    }
    pub open spec fn acc(b: Seq<u8>, o: int) -> bool {
        &&& 0 <= o && o + 3 <= b.len() && (b[o] & 0x7f) <= 7
        &&& crate::vx::rd16(b, o + 1) <= (if b[o] & 0x80 == 0 { config::MAX_DIGEST_SIZE } else { config::MAX_MEASUREMENT_SIZE })
        &&& o + 3 + crate::vx::rd16(b, o + 1) <= b.len()
    }
    pub open spec fn end(b: Seq<u8>, o: int) -> int { o + 3 + crate::vx::rd16(b, o + 1) }
    pub open spec fn is_at(b: Seq<u8>, o: int, m: Self) -> bool {
        &&& m.value_type == mvt_of(b[o] & 0x7f)
        &&& (m.value_representation is Digest) == (b[o] & 0x80 == 0)
        &&& m.wf() && m.consistent()
        &&& m.value.bytes() =~= b.subrange(o + 3, Self::end(b, o))
    }
    pub open spec fn same(a: Self, b: Self) -> bool {
        a.value_type == b.value_type && a.value_representation == b.value_representation && (a.value is Digest) == (b.value is Digest)
            && a.value.bytes() == b.value.bytes()
    }
    pub proof fn round_trip(p: Seq<u8>, m: Self, t: Seq<u8>, b: Seq<u8>)
        requires b == p + m.bytes() + t, m.wf(), m.consistent(),
        ensures
            Self::acc(b, p.len() as int), Self::end(b, p.len() as int) == p.len() + m.bytes().len(),
            forall|m2: Self| #[trigger] Self::is_at(b, p.len() as int, m2) ==> Self::same(m, m2),
    {
        let o = p.len() as int;
        let s = m.bytes();
        assert(forall|i: int| 0 <= i < s.len() ==> b[o + i] == s[i]);
        assert(b[o] == s[0] && b[o + 1] == s[1] && b[o + 2] == s[2]);
        let n = m.value.bytes().len() as u16;
        assert(s[1] == crate::vx::le16(n)[0] && s[2] == crate::vx::le16(n)[1]);
        crate::vx::rd16_of(b, o + 1, n);
        let v = mvt_num(m.value_type);
        assert((0u8 | v) & 0x7f == v && (0x80u8 | v) & 0x7f == v && (0u8 | v) & 0x80 == 0 && (0x80u8 | v) & 0x80 != 0) by (bit_vector) requires v <= 7;
        assert(b.subrange(o + 3, o + 3 + n) =~= m.value.bytes());
    }
}
impl MeasurementBlock {
    pub open spec fn wf(&self) -> bool { self.measurement.wf() }
    pub open spec fn std(&self) -> bool { self.measurement.consistent() && self.measurement_spec_selected.bits == 1 }
    pub open spec fn bytes(&self) -> Seq<u8> {
        seq![self.index, self.measurement_spec_selected.bits] + crate::vx::le16(self.measurement.bytes().len() as u16) + self.measurement.bytes()
    }
    pub open spec fn acc(b: Seq<u8>, o: int) -> bool {
        &&& 0 <= o && o + 4 <= b.len() && b[o + 1] == 1
        &&& DmtfMeasurement::acc(b, o + 4)
        &&& crate::vx::rd16(b, o + 2) == DmtfMeasurement::end(b, o + 4) - (o + 4)
    }
    pub open spec fn end(b: Seq<u8>, o: int) -> int { DmtfMeasurement::end(b, o + 4) }
    pub open spec fn is_at(b: Seq<u8>, o: int, m: Self) -> bool {
        m.index == b[o] && m.std() && DmtfMeasurement::is_at(b, o + 4, m.measurement)
    }
    pub open spec fn same(a: Self, b: Self) -> bool { a.index == b.index && a.measurement_spec_selected == b.measurement_spec_selected && DmtfMeasurement::same(a.measurement, b.measurement) }
    pub proof fn round_trip(p: Seq<u8>, m: Self, t: Seq<u8>, b: Seq<u8>)
        requires b == p + m.bytes() + t, m.wf(), m.std(),
        ensures
            Self::acc(b, p.len() as int), Self::end(b, p.len() as int) == p.len() + m.bytes().len(),
            forall|m2: Self| #[trigger] Self::is_at(b, p.len() as int, m2) ==> Self::same(m, m2),
    {
        let o = p.len() as int;
        let h = seq![m.index, m.measurement_spec_selected.bits] + crate::vx::le16(m.measurement.bytes().len() as u16);
        assert(b =~= (p + h) + m.measurement.bytes() + t);
        DmtfMeasurement::round_trip(p + h, m.measurement, t, b);
        assert(b[o] == h[0] && b[o + 1] == h[1] && b[o + 2] == h[2] && b[o + 3] == h[3]);
        crate::vx::rd16_of(b, o + 2, m.measurement.bytes().len() as u16);
    }
}
pub open spec fn blks_bytes(s: Seq<Option<MeasurementBlock>>, n: nat) -> Seq<u8> decreases n {
    if n == 0 { Seq::empty() } else { blks_bytes(s, (n - 1) as nat) + s[n - 1]->Some_0.bytes() }
}
pub open spec fn blks_off(b: Seq<u8>, o: int, n: nat) -> int decreases n {
    if n == 0 { o } else { MeasurementBlock::end(b, blks_off(b, o, (n - 1) as nat)) }
}
pub open spec fn blks_acc(b: Seq<u8>, o: int, n: nat) -> bool {
    forall|i: nat| i < n ==> #[trigger] MeasurementBlock::acc(b, blks_off(b, o, i))
}
pub open spec fn blks_at(b: Seq<u8>, o: int, n: nat, s: Seq<Option<MeasurementBlock>>) -> bool {
    forall|i: int| 0 <= i < n ==> (#[trigger] s[i]) is Some && s[i]->Some_0.wf() && MeasurementBlock::is_at(b, blks_off(b, o, i as nat), s[i]->Some_0)
}
pub proof fn blks_len(s: Seq<Option<MeasurementBlock>>, n: nat)
    requires n <= s.len(), forall|i: int| 0 <= i < n ==> (#[trigger] s[i]) is Some && s[i]->Some_0.wf(),
    ensures blks_bytes(s, n).len() <= n * 70000,
    decreases n,
{
    if n > 0 { blks_len(s, (n - 1) as nat); assert(s[n - 1]->Some_0.wf()); }
}
pub proof fn blks_mono(s: Seq<Option<MeasurementBlock>>, m: nat, n: nat)
    requires m <= n,
    ensures blks_bytes(s, m).len() <= blks_bytes(s, n).len(),
    decreases n,
{
    if m < n { blks_mono(s, m, (n - 1) as nat); }
}
pub proof fn blks_round_trip(p: Seq<u8>, s: Seq<Option<MeasurementBlock>>, n: nat, t: Seq<u8>, b: Seq<u8>)
    requires b == p + blks_bytes(s, n) + t, n <= s.len(), forall|i: int| 0 <= i < n ==> (#[trigger] s[i]) is Some && s[i]->Some_0.wf() && s[i]->Some_0.std(),
    ensures
        blks_acc(b, p.len() as int, n), blks_off(b, p.len() as int, n) == p.len() + blks_bytes(s, n).len(),
        forall|s2: Seq<Option<MeasurementBlock>>| #[trigger] blks_at(b, p.len() as int, n, s2) ==>
            (forall|i: int| 0 <= i < n ==> MeasurementBlock::same((#[trigger] s[i])->Some_0, s2[i]->Some_0)),
    decreases n,
{
    let o = p.len() as int;
    if n > 0 {
        let m = (n - 1) as nat;
        let e = s[m as int]->Some_0;
        assert(s[m as int] is Some);
        assert(b =~= p + blks_bytes(s, m) + (e.bytes() + t));
        blks_round_trip(p, s, m, e.bytes() + t, b);
        let q = p + blks_bytes(s, m);
        assert(b =~= q + e.bytes() + t);
        MeasurementBlock::round_trip(q, e, t, b);
        assert forall|s2: Seq<Option<MeasurementBlock>>| #[trigger] blks_at(b, o, n, s2) implies
            (forall|i: int| 0 <= i < n ==> MeasurementBlock::same((#[trigger] s[i])->Some_0, s2[i]->Some_0)) by {
            assert(blks_at(b, o, m, s2));
            assert(s2[m as int] is Some);
        }
    }
}
impl MeasurementBlocks {
    pub open spec fn wf(&self) -> bool {
        self.len <= config::MAX_MEASUREMENT_BLOCKS && forall|i: int| 0 <= i < self.len ==> (#[trigger] self.blocks@[i]) is Some && self.blocks@[i]->Some_0.wf()
    }
    pub open spec fn std(&self) -> bool { forall|i: int| 0 <= i < self.len ==> (#[trigger] self.blocks@[i])->Some_0.std() }
    pub open spec fn list(&self) -> Seq<u8> { blks_bytes(self.blocks@, self.len as nat) }
    pub open spec fn bytes(&self) -> Seq<u8> { seq![self.len as u8] + crate::vx::le24(self.list().len() as int) + self.list() }
    pub open spec fn acc(b: Seq<u8>, o: int) -> bool {
        &&& 0 <= o && o + 4 <= b.len() && b[o] <= config::MAX_MEASUREMENT_BLOCKS
        &&& crate::vx::rd24(b, o + 1) <= config::MAX_MEASUREMENT_SIZE * config::MAX_MEASUREMENT_BLOCKS
        &&& blks_acc(b, o + 4, b[o] as nat)
        &&& crate::vx::rd24(b, o + 1) == blks_off(b, o + 4, b[o] as nat) - (o + 4)
    }
    pub open spec fn end(b: Seq<u8>, o: int) -> int { blks_off(b, o + 4, b[o] as nat) }
    pub open spec fn is_at(b: Seq<u8>, o: int, m: Self) -> bool { m.len == b[o] && blks_at(b, o + 4, b[o] as nat, m.blocks@) }
    pub open spec fn same(a: Self, b: Self) -> bool {
        a.len == b.len && forall|i: int| 0 <= i < a.len ==> MeasurementBlock::same((#[trigger] a.blocks@[i])->Some_0, b.blocks@[i]->Some_0)
    }
    pub proof fn round_trip(p: Seq<u8>, m: Self, t: Seq<u8>, b: Seq<u8>)
        requires b == p + m.bytes() + t, m.wf(), m.std(), m.list().len() <= config::MAX_MEASUREMENT_SIZE * config::MAX_MEASUREMENT_BLOCKS,
        ensures
            Self::acc(b, p.len() as int), Self::end(b, p.len() as int) == p.len() + m.bytes().len(),
            forall|m2: Self| #[trigger] Self::is_at(b, p.len() as int, m2) ==> Self::same(m, m2),
    {
        let o = p.len() as int;
        let n = m.len as nat;
        let h = seq![m.len as u8] + crate::vx::le24(m.list().len() as int);
        assert(b =~= (p + h) + m.list() + t);
        assert forall|i: int| 0 <= i < n implies (#[trigger] m.blocks@[i]) is Some && m.blocks@[i]->Some_0.wf() && m.blocks@[i]->Some_0.std() by {}
        blks_round_trip(p + h, m.blocks@, n, t, b);
        assert(b[o] == h[0] && b[o + 1] == h[1] && b[o + 2] == h[2] && b[o + 3] == h[3]);
        assert(crate::vx::rd24(b, o + 1) == m.list().len());
    }
}
pub open spec fn cc_bits(c: ContentChanged) -> u8 { match c { ContentChanged::NotSupported => 0, ContentChanged::True => 1, ContentChanged::False => 2 } }
pub open spec fn cc_of(x: u8) -> ContentChanged { if x == 0 { ContentChanged::NotSupported } else if x == 1 { ContentChanged::True } else { ContentChanged::False } }
impl Measurements {
    pub open spec fn wf(&self) -> bool { self.blocks.wf() && self.opaque_data.wf() && (self.signature is Some ==> self.signature->Some_0.wf()) }
    pub open spec fn param2(&self) -> u8 {
        let c = match self.content_changed { ContentChanged::NotSupported => 0u8, ContentChanged::True => 0x10, ContentChanged::False => 0x20 };
        if self.signature is Some { c | self.slot_id } else { c }
    }
    pub open spec fn sig(&self) -> Seq<u8> { if self.signature is Some { self.signature->Some_0.bytes() } else { Seq::empty() } }
    pub open spec fn non_off(b: Seq<u8>) -> int { MeasurementBlocks::end(b, 2) }
    pub open spec fn sig_off(b: Seq<u8>) -> int { OpaqueData::end(b, Self::non_off(b) + 2 + NONCE) }
    pub open spec fn accepts(b: Seq<u8>, sr: bool, ss: int) -> bool {
        &&& b.len() >= 2 && b[0] <= config::MAX_MEASUREMENT_BLOCKS && (b[1] & 15) < config::NUM_SLOTS && (b[1] >> 4u8) & 3 != 3
        &&& MeasurementBlocks::acc(b, 2)
        &&& Self::non_off(b) + 2 + NONCE <= b.len()
        &&& crate::vx::rd16(b, Self::non_off(b) + NONCE) <= 1024
        &&& OpaqueData::acc(b, Self::non_off(b) + 2 + NONCE)
        &&& sr ==> Self::sig_off(b) + ss <= b.len()
    }
    pub open spec fn parsed(b: Seq<u8>, sr: bool, ss: int, m: Self) -> bool {
        &&& m.total_blocks == b[0] && m.slot_id == b[1] & 15 && m.content_changed == cc_of((b[1] >> 4u8) & 3)
        &&& MeasurementBlocks::is_at(b, 2, m.blocks)
        &&& m.nonce.bytes() =~= b.subrange(Self::non_off(b), Self::non_off(b) + NONCE)
        &&& OpaqueData::is_at(b, Self::non_off(b) + 2 + NONCE, m.opaque_data)
        &&& m.signature is Some == sr
        &&& sr ==> m.signature->Some_0.size.n() == ss && m.signature->Some_0.bytes() =~= b.subrange(Self::sig_off(b), Self::sig_off(b) + ss)
    }
    pub open spec fn same(a: Self, b: Self) -> bool {
        &&& a.total_blocks == b.total_blocks && a.content_changed == b.content_changed
        &&& a.signature is Some ==> a.slot_id == b.slot_id
        &&& MeasurementBlocks::same(a.blocks, b.blocks) && a.nonce.bytes() == b.nonce.bytes() && OpaqueData::same(a.opaque_data, b.opaque_data)
        &&& a.signature is Some == b.signature is Some && a.sig() == b.sig()
    }
    pub proof fn round_trip(m: Self, ss: int, t: Seq<u8>, m2: Self) //@C03
        requires
            m.wf(), m.writable(), m.blocks.std(), m.blocks.list().len() <= config::MAX_MEASUREMENT_SIZE * config::MAX_MEASUREMENT_BLOCKS,
            m.total_blocks <= config::MAX_MEASUREMENT_BLOCKS, m.slot_id < config::NUM_SLOTS, m.opaque_data.size() <= 1024,
            m.signature is Some ==> m.signature->Some_0.size.n() == ss,
        ensures
            Self::accepts(m.body() + t, m.signature is Some, ss),
            Self::parsed(m.body() + t, m.signature is Some, ss, m2) ==> Self::same(m, m2),
    {
        let b = m.body() + t;
        let h = seq![m.total_blocks, m.param2()];
        let s0 = m.slot_id;
        m.opaque_data.len();
        assert((0u8 | s0) & 15 == s0 && (0x10u8 | s0) & 15 == s0 && (0x20u8 | s0) & 15 == s0) by (bit_vector) requires s0 < 8;
        assert(((0u8 | s0) >> 4u8) & 3 == 0 && ((0x10u8 | s0) >> 4u8) & 3 == 1 && ((0x20u8 | s0) >> 4u8) & 3 == 2) by (bit_vector) requires s0 < 8;
        assert(0u8 & 15 == 0 && 0x10u8 & 15 == 0 && 0x20u8 & 15 == 0 && (0u8 >> 4u8) & 3 == 0 && (0x10u8 >> 4u8) & 3 == 1 && (0x20u8 >> 4u8) & 3 == 2) by (bit_vector);
        let ol = crate::vx::le16(m.opaque_data.size() as u16);
        let r1 = m.nonce.bytes() + ol + m.opaque_data.bytes() + m.sig() + t;
        assert(b =~= h + m.blocks.bytes() + r1);
        MeasurementBlocks::round_trip(h, m.blocks, r1, b);
        let no = Self::non_off(b);
        let q = h + m.blocks.bytes();
        assert(q.len() == no);
        assert(b.subrange(no, no + NONCE) =~= m.nonce.bytes());
        assert(b[no + NONCE] == ol[0] && b[no + 1 + NONCE] == ol[1]);
        crate::vx::rd16_of(b, no + NONCE, m.opaque_data.size() as u16);
        let q2 = q + m.nonce.bytes() + ol;
        assert(b =~= q2 + m.opaque_data.bytes() + (m.sig() + t));
        OpaqueData::round_trip(q2, m.opaque_data, m.sig() + t, b);
        let so = Self::sig_off(b);
        if m.signature is Some {
            assert(b.subrange(so, so + ss) =~= m.sig());
        }
        assert(b[0] == h[0] && b[1] == h[1]);
    }
}

== impl msgs::measurements::GetMeasurements@Msg
    open spec fn ver() -> u8 { 0x12 }
    open spec fn code() -> u8 { 0xe0 }
    open spec fn full(e: Self::WriteError) -> bool { true }
    proof fn full_from(e: Self::WriteError) {}
    proof fn consts() {} //@C03,C05
    open spec fn msg_wf(&self) -> bool { true }
    open(in crate::msgs) spec fn writable(&self) -> bool { idx_ok(self.index) }
    open(in crate::msgs) spec fn body(&self) -> Seq<u8> {
        seq![att_byte(self.attributes), idx_num(self.index)]
            + if self.attributes.signature_requested { self.nonce->Some_0.bytes().push(self.slot_id) } else { Seq::empty() }
    }

== impl msgs::measurements::Measurements@Msg
    open spec fn ver() -> u8 { 0x12 }
    open spec fn code() -> u8 { 0x60 }
    open spec fn full(e: Self::WriteError) -> bool { true }
    proof fn full_from(e: Self::WriteError) {}
    proof fn consts() {} //@C03,C05
    open spec fn msg_wf(&self) -> bool { self.wf() }
    open spec fn writable(&self) -> bool { self.opaque_data.writable() }
    open spec fn body(&self) -> Seq<u8> {
        seq![self.total_blocks, self.param2()] + self.blocks.bytes() + self.nonce.bytes() + crate::vx::le16(self.opaque_data.size() as u16)
            + self.opaque_data.bytes() + self.sig()
    }

== from msgs::measurements::u8@From<&RequestAttributes> (v)
    att_byte(*v)

== from msgs::measurements::MeasurementIndex@From<u8> (v)
    idx_of(v)

== from msgs::measurements::u8@TryFrom<&MeasurementIndex> (v)
    if idx_ok(*v) { Ok(idx_num(*v)) } else if *v is Reserved { Err(WriteMeasurementIndexError::InvalidReservedIndex) }
    else { Err(WriteMeasurementIndexError::InvalidImplementationDefinedIndex) }

== from msgs::measurements::ContentChanged@TryFrom<u8> (v)
    if v <= 2 { Ok(cc_of(v)) } else { Err(ParseContentChangedError) }

== from msgs::measurements::DmtfMeasurementValueRepresentation@TryFrom<u8> (v)
    if v == 0 { Ok(DmtfMeasurementValueRepresentation::Digest) } else if v == 0x80 { Ok(DmtfMeasurementValueRepresentation::RawBitStream) }
    else { Err(ParseDmtfMeasurementValueRepresentationError) }

== from msgs::measurements::DmtfMeasurementValueType@TryFrom<u8> (v)
    if v <= 7 { Ok(mvt_of(v)) } else { Err(ParseDmtfMeasurementValueTypeError) }

== fn msgs::measurements::GetMeasurements::write_body@Msg (self, w)
-- body
    use_type_invariant(self);

== fn msgs::measurements::GetMeasurements::new (attributes, index, slot_id)
-- spec
    requires slot_id < config::NUM_SLOTS,
    ensures
        r.att() == attributes, r.idx() == index, r.slot() == slot_id, r.non() is Some == attributes.signature_requested, //@C03
        r.non() is Some ==> crate::ext::rand::drawn(r.non()->Some_0.bytes()), //@C23

== fn msgs::measurements::GetMeasurements::parse_body (buf)
-- ret res
-- spec
    ensures
        res is Ok <==> Self::accepts(buf@), //@C05
        res is Ok ==> Self::parsed(buf@, res->Ok_0), //@C03

== fn msgs::measurements::BitStream::new (data)
-- spec
    requires data@.len() <= config::MAX_MEASUREMENT_SIZE,
    ensures r.bytes() =~= data@,

== fn msgs::measurements::BitStream::as_slice (self)
-- spec
    ensures r@ == self.bytes(),
-- body
    use_type_invariant(self);

== fn msgs::measurements::BitStream::len (self)
-- spec
    ensures r == self.bytes().len(), r <= config::MAX_MEASUREMENT_SIZE,
-- body
    use_type_invariant(self);

== fn msgs::measurements::BitStream::read (len, r)
-- ret res
-- spec
    requires old(r).wf(), old(r).al(),
    ensures
        res is Ok <==> len <= config::MAX_MEASUREMENT_SIZE && old(r).o() + len <= old(r).b().len(), //@C05
        res is Ok ==> final(r).at(old(r).b(), old(r).o() + len) && res->Ok_0.wf()
            && res->Ok_0.bytes() =~= old(r).b().subrange(old(r).o(), old(r).o() + len), //@C03
        Reader::frame(*old(r), *final(r)),

== fn msgs::measurements::BitStream::eq@PartialEq (self, other)
-- spec
    ensures r == (self.bytes() == other.bytes()), //@C22
-- body
    use_type_invariant(self);
    use_type_invariant(other);
    assert(self.bytes().len() == self.len && other.bytes().len() == other.len);

== fn msgs::measurements::DmtfMeasurementValue::len (self)
-- spec
    requires self.wf(),
    ensures r == self.bytes().len(), r <= 69000,

== fn msgs::measurements::DmtfMeasurementValue::write (self, w)
-- spec
    requires old(w).wf(), self.wf(),
    ensures
        r is Ok <==> old(w).room() >= self.bytes().len(), //@C04
        r is Ok ==> Writer::app(*old(w), *final(w), self.bytes()), //@C03,C04
        r is Err ==> Writer::pre(*old(w), *final(w)), //@C04

== fn msgs::measurements::DmtfMeasurement::serialized_size (self)
-- spec
    requires self.wf(),
    ensures r == self.bytes().len(), r <= 69900,

== fn msgs::measurements::DmtfMeasurement::write (self, w)
-- spec
    requires old(w).wf(), self.wf(),
    ensures
        r is Ok <==> old(w).room() >= self.bytes().len(), //@C04
        r is Ok ==> Writer::app(*old(w), *final(w), self.bytes()), //@C03,C04
        r is Err ==> Writer::pre(*old(w), *final(w)), //@C04

== fn msgs::measurements::DmtfMeasurement::read (r)
-- ret res
-- spec
    requires old(r).wf(), old(r).al(),
    ensures
        res is Ok <==> Self::acc(old(r).b(), old(r).o()), //@C05
        res is Ok ==> final(r).at(old(r).b(), Self::end(old(r).b(), old(r).o())) && Self::is_at(old(r).b(), old(r).o(), res->Ok_0), //@C03
        Reader::frame(*old(r), *final(r)),
-- body
    if r.o() < r.b().len() {
        let x = r.b()[r.o()];
        assert(x & 0x80u8 == 0 || x & 0x80u8 == 0x80u8) by (bit_vector);
        assert(x & 0x7fu8 <= 127) by (bit_vector);
    }

== fn msgs::measurements::MeasurementBlock::serialized_size (self)
-- spec
    requires self.wf(),
    ensures r == self.bytes().len(), r <= 70000,

== fn msgs::measurements::MeasurementBlock::write (self, w)
-- spec
    requires old(w).wf(), self.wf(),
    ensures
        r is Ok <==> old(w).room() >= self.bytes().len(), //@C04
        r is Ok ==> Writer::app(*old(w), *final(w), self.bytes()), //@C03,C04
        r is Err ==> Writer::pre(*old(w), *final(w)), //@C04

== fn msgs::measurements::MeasurementBlock::read (r)
-- ret res
-- spec
    requires old(r).wf(), old(r).al(),
    ensures
        res is Ok <==> Self::acc(old(r).b(), old(r).o()), //@C05
        res is Ok ==> final(r).at(old(r).b(), Self::end(old(r).b(), old(r).o())) && Self::is_at(old(r).b(), old(r).o(), res->Ok_0), //@C03
        Reader::frame(*old(r), *final(r)),

== fn msgs::measurements::MeasurementBlocks::default@Default ()
-- spec
    ensures r.len == 0, r.wf(), r.std(), forall|i: int| 0 <= i < config::MAX_MEASUREMENT_BLOCKS ==> r.blocks@[i] is None,

== fn msgs::measurements::MeasurementBlocks::as_slice (self)
-- spec
    requires self.len <= config::MAX_MEASUREMENT_BLOCKS,
    ensures r@ == self.blocks@.take(self.len as int),

== fn msgs::measurements::MeasurementBlocks::serialized_size (self)
-- spec
    requires self.wf(),
    ensures r == self.list().len(), r <= config::MAX_MEASUREMENT_BLOCKS * 70000,
-- loop 0 it
    invariant
        self.wf(),
        it.index@ <= self.len,
        acc == blks_bytes(self.blocks@, it.index@ as nat).len(), acc <= it.index@ * 70000,
-- loopbody 0
    assert(self.blocks@[it.index@] is Some);

== fn msgs::measurements::MeasurementBlocks::write (self, w)
-- spec
    requires old(w).wf(), self.wf(),
    ensures
        r is Ok <==> old(w).room() >= self.bytes().len(), //@C04
        r is Ok ==> Writer::app(*old(w), *final(w), self.bytes()), //@C03,C04
        r is Err ==> Writer::pre(*old(w), *final(w)), //@C04
-- loop 0
    invariant
        self.wf(),
        Writer::app(*old(w), *w, seq![self.len as u8] + crate::vx::le24(self.list().len() as int) + blks_bytes(self.blocks@, i as nat)),
-- loopbody 0
    assert(self.blocks@[i as int] is Some);
    blks_mono(self.blocks@, (i + 1) as nat, self.len as nat);
-- body
    blks_len(self.blocks@, self.len as nat);

== fn msgs::measurements::MeasurementBlocks::read (r)
-- ret res
-- spec
    requires old(r).wf(), old(r).al(),
    ensures
        res is Ok <==> Self::acc(old(r).b(), old(r).o()), //@C05
        res is Ok ==> final(r).at(old(r).b(), Self::end(old(r).b(), old(r).o())) && Self::is_at(old(r).b(), old(r).o(), res->Ok_0), //@C03
        Reader::frame(*old(r), *final(r)),
-- body
    ghost let b = r.b();
    ghost let o0 = r.o();
-- loop 0
    invariant
        num_blocks == b[o0], num_blocks <= config::MAX_MEASUREMENT_BLOCKS, o0 + 4 <= b.len(), offset == o0 + 4,
        size == crate::vx::rd24(b, o0 + 1), size <= config::MAX_MEASUREMENT_SIZE * config::MAX_MEASUREMENT_BLOCKS,
        r.at(b, blks_off(b, o0 + 4, i as nat)), r.wf(), r.o() >= o0 + 4,
        blks_acc(b, o0 + 4, i as nat), blocks.len == num_blocks,
        blks_at(b, o0 + 4, i as nat, blocks.blocks@),
-- loopbody 0
    assert(blks_acc(b, o0 + 4, num_blocks as nat) ==> MeasurementBlock::acc(b, blks_off(b, o0 + 4, i as nat)));

== fn msgs::measurements::Measurements::new_with_num_measurements (total_blocks, content_changed, slot_id, nonce, opaque_data, signature)
-- spec
    requires slot_id < config::NUM_SLOTS,
    ensures r.total_blocks == total_blocks, r.content_changed == content_changed, r.slot_id == slot_id, r.nonce == nonce, r.opaque_data == opaque_data,
        r.signature == signature, r.blocks.len == 0,

== fn msgs::measurements::Measurements::new_with_measurements (content_changed, slot_id, blocks, nonce, opaque_data, signature)
-- spec
    requires slot_id < config::NUM_SLOTS,
    ensures r.total_blocks == 0, r.content_changed == content_changed, r.slot_id == slot_id, r.nonce == nonce, r.opaque_data == opaque_data,
        r.signature == signature, r.blocks == blocks,

== fn msgs::measurements::Measurements::write_param2 (self, w)
-- spec
    requires old(w).wf(),
    ensures
        r is Ok <==> old(w).room() >= 1, //@C04
        r is Ok ==> Writer::app(*old(w), *final(w), seq![self.param2()]), //@C03,C04
        r is Err ==> Writer::pre(*old(w), *final(w)), //@C04
-- body
    let s = self.slot_id;
    assert(1u8 << 4 == 0x10u8 && 1u8 << 5 == 0x20u8) by (bit_vector);
    assert(0u8 | 0x10 == 0x10 && 0u8 | 0x20 == 0x20 && 0u8 | s == s) by (bit_vector);

== fn msgs::measurements::Measurements::parse_body (buf, signature_requested, signature_size)
-- ret res
-- spec
    ensures
        res is Ok <==> Self::accepts(buf@, signature_requested, signature_size.n() as int), //@C05
        res is Ok ==> Self::parsed(buf@, signature_requested, signature_size.n() as int, res->Ok_0), //@C03
-- body
    if buf@.len() >= 2 {
        let x = buf@[1];
        assert((x >> 4u8) & 3 <= 3) by (bit_vector);
    }

== fn msgs::measurements::Measurements::write_body@Msg (self, w)
-- body
    self.opaque_data.len();

== fn msgs::measurements::u8::from@From<&RequestAttributes> (val)
-- body
    assert(0u8 | 1 == 1 && 0u8 | 2 == 2 && 1u8 | 2 == 3) by (bit_vector);
== eq msgs::measurements::BitStream
    self.bytes() == other.bytes()
