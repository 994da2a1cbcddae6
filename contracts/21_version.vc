== impl msgs::version::GetVersion@Msg
    open spec fn ver() -> u8 { 0x10 }
    open spec fn code() -> u8 { 0x84 }
    open spec fn full(e: Self::WriteError) -> bool { true }
    proof fn full_from(e: Self::WriteError) {}
    proof fn consts() {} //@C03,C05
    open spec fn msg_wf(&self) -> bool { true }
    open spec fn writable(&self) -> bool { true }
    open spec fn body(&self) -> Seq<u8> { crate::vx::zseq(2) }

== fn msgs::version::GetVersion::parse_body (buf)
-- spec
    ensures
        r is Ok <==> buf@.len() >= 2 && crate::vx::zeros(buf@, 0, 2), //@C05
        r is Err ==> crate::msgs::empty_fault(buf@, r->Err_0), //@C20

== mod msgs::version
pub open spec fn ent_ok(e: VersionEntry) -> bool { e.major < 16 && e.minor < 16 && e.update < 16 && e.alpha < 16 }
pub open spec fn ent_zero() -> VersionEntry { VersionEntry { major: 0, minor: 0, update: 0, alpha: 0 } }
pub open spec fn ent_bytes(e: VersionEntry) -> Seq<u8> { seq![e.alpha | (e.update << 4), e.minor | (e.major << 4)] }
pub open spec fn ent_read(a: u8, b: u8) -> VersionEntry {
    VersionEntry { alpha: a & 15, update: (a >> 4) & 15, minor: b & 15, major: (b >> 4) & 15 }
}
impl Version {
    pub open spec fn wf(&self) -> bool {
        &&& self.num_entries <= MAX_ALLOWED_VERSIONS
        &&& forall|i: int| 0 <= i < self.num_entries ==> ent_ok(#[trigger] self.entries@[i])
    }
    pub open spec fn accepts(b: Seq<u8>) -> bool {
        &&& b.len() >= 4 && crate::vx::zeros(b, 0, 3)
        &&& b[3] <= MAX_ALLOWED_VERSIONS
        &&& b.len() >= 4 + 2 * b[3]
    }
    pub open spec fn parsed(b: Seq<u8>, m: Version) -> bool {
        &&& m.num_entries == b[3]
        &&& forall|i: int| 0 <= i < m.num_entries ==> #[trigger] m.entries@[i] == ent_read(b[4 + 2 * i], b[5 + 2 * i])
        &&& forall|i: int| m.num_entries <= i < MAX_ALLOWED_VERSIONS ==> #[trigger] m.entries@[i] == ent_zero()
    }
    /// decoding an encoded VERSION message gives back its entries
    pub proof fn round_trip(m: Version, t: Seq<u8>, m2: Version) //@C03
        requires m.wf(),
        ensures
            Self::accepts(m.body() + t),
            Self::parsed(m.body() + t, m2) ==> m2.num_entries == m.num_entries
                && forall|i: int| 0 <= i < m.num_entries ==> m2.entries@[i] == #[trigger] m.entries@[i],
    {
        let b = m.body() + t;
        assert(b[3] == m.num_entries);
        assert forall|i: int| Self::parsed(b, m2) && 0 <= i < m.num_entries implies m2.entries@[i] == #[trigger] m.entries@[i] by {
            let e = m.entries@[i];
            let a = e.alpha;
            let u = e.update;
            let n = e.minor;
            let j = e.major;
            assert(ent_ok(e));
            assert(b[4 + 2 * i] == a | (u << 4) && b[5 + 2 * i] == n | (j << 4));
            assert((a | (u << 4)) & 15 == a && ((a | (u << 4)) >> 4) & 15 == u) by (bit_vector) requires a < 16, u < 16;
            assert((n | (j << 4)) & 15 == n && ((n | (j << 4)) >> 4) & 15 == j) by (bit_vector) requires n < 16, j < 16;
            assert(m2.entries@[i] == ent_read(b[4 + 2 * i], b[5 + 2 * i]));
        }
    }
    /// everything accepted is a well formed VERSION message
    pub proof fn parsed_wf(b: Seq<u8>, m: Version)
        requires Self::accepts(b), Self::parsed(b, m),
        ensures m.wf(),
    {
        assert forall|i: int| 0 <= i < m.num_entries implies ent_ok(#[trigger] m.entries@[i]) by {
            let x = b[4 + 2 * i];
            let y = b[5 + 2 * i];
            assert(x & 15 < 16 && (x >> 4) & 15 < 16 && y & 15 < 16 && (y >> 4) & 15 < 16) by (bit_vector);
            assert(m.entries@[i] == ent_read(x, y));
        }
    }
}

== fn msgs::version::VersionEntry::default@Default ()
-- spec
    ensures r == ent_zero(),

== fn msgs::version::Version::empty ()
-- spec
    ensures r.num_entries == 0, forall|i: int| 0 <= i < MAX_ALLOWED_VERSIONS ==> r.entries@[i] == ent_zero(),

== fn msgs::version::Version::default@Default ()
-- spec
    ensures
        r.num_entries == 2,
        r.entries@[0] == (VersionEntry { major: 1, minor: 0, update: 0, alpha: 0 }),
        r.entries@[1] == (VersionEntry { major: 1, minor: 1, update: 0, alpha: 0 }),

== impl msgs::version::Version@Msg
    open spec fn ver() -> u8 { 0x10 }
    open spec fn code() -> u8 { 0x04 }
    open spec fn full(e: Self::WriteError) -> bool { true }
    proof fn full_from(e: Self::WriteError) {}
    proof fn consts() {} //@C03,C05
    open spec fn msg_wf(&self) -> bool { true }
    open spec fn writable(&self) -> bool { true }
    open spec fn body(&self) -> Seq<u8> { seq![0u8, 0, 0, self.num_entries] + ent_bytes(self.entries@[0]) + ent_bytes(self.entries@[1]) }

== fn msgs::version::Version::write_body@Msg (self, w)
-- loop 0 it
    invariant
        Writer::app(*old(w), *w, self.body().take(4 + 2 * it.index@)),
-- end
    assert(self.body().take(8) =~= self.body());

== fn msgs::version::Version::parse_body (buf)
-- spec
    ensures
        r is Ok <==> Self::accepts(buf@), //@C05
        r is Ok ==> Self::parsed(buf@, r->Ok_0), //@C03
-- loop 0
    invariant
        num_entries == buf@[3], num_entries <= 2, buf@.len() >= 4, crate::vx::zeros(buf@, 0, 3),
        reader.at(buf@, 4 + 2 * i),
        version.num_entries == num_entries,
        forall|j: int| 0 <= j < i ==> #[trigger] version.entries@[j] == ent_read(buf@[4 + 2 * j], buf@[5 + 2 * j]),
        forall|j: int| i <= j < 2 ==> #[trigger] version.entries@[j] == ent_zero(),
