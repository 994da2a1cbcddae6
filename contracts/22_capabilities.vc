== mod msgs::capabilities
/// the configuration names of the capabilities
pub open spec fn req_flag(s: &str) -> Option<ReqFlags> {
    if s == "CERT_CAP" { Some(ReqFlags { bits: 0x2 }) } else
    if s == "CHAL_CAP" { Some(ReqFlags { bits: 0x4 }) } else
    if s == "ENCRYPT_CAP" { Some(ReqFlags { bits: 0x40 }) } else
    if s == "MAC_CAP" { Some(ReqFlags { bits: 0x80 }) } else
    if s == "MUT_AUTH_CAP" { Some(ReqFlags { bits: 0x100 }) } else
    if s == "KEY_EX_CAP" { Some(ReqFlags { bits: 0x200 }) } else
    if s == "PSK_CAP" { Some(ReqFlags { bits: 0x400 }) } else
    if s == "ENCAP_CAP" { Some(ReqFlags { bits: 0x1000 }) } else
    if s == "HBEAT_CAP" { Some(ReqFlags { bits: 0x2000 }) } else
    if s == "KEY_UPD_CAP" { Some(ReqFlags { bits: 0x4000 }) } else
    if s == "HANDSHAKE_IN_THE_CLEAR_CAP" { Some(ReqFlags { bits: 0x8000 }) } else
    if s == "PUB_KEY_ID_CAP" { Some(ReqFlags { bits: 0x10000 }) } else
    { None }
}
pub open spec fn rsp_flag(s: &str) -> Option<RspFlags> {
    if s == "CACHE_CAP" { Some(RspFlags { bits: 0x1 }) } else
    if s == "CERT_CAP" { Some(RspFlags { bits: 0x2 }) } else
    if s == "CHAL_CAP" { Some(RspFlags { bits: 0x4 }) } else
    if s == "MEAS_FRESH_CAP" { Some(RspFlags { bits: 0x20 }) } else
    if s == "ENCRYPT_CAP" { Some(RspFlags { bits: 0x40 }) } else
    if s == "MAC_CAP" { Some(RspFlags { bits: 0x80 }) } else
    if s == "MUT_AUTH_CAP" { Some(RspFlags { bits: 0x100 }) } else
    if s == "KEY_EX_CAP" { Some(RspFlags { bits: 0x200 }) } else
    if s == "PSK_CAP" { Some(RspFlags { bits: 0x400 }) } else
    if s == "ENCAP_CAP" { Some(RspFlags { bits: 0x1000 }) } else
    if s == "HBEAT_CAP" { Some(RspFlags { bits: 0x2000 }) } else
    if s == "KEY_UPD_CAP" { Some(RspFlags { bits: 0x4000 }) } else
    if s == "HANDSHAKE_IN_THE_CLEAR_CAP" { Some(RspFlags { bits: 0x8000 }) } else
    if s == "PUB_KEY_ID_CAP" { Some(RspFlags { bits: 0x10000 }) } else
    { None }
}
/// no undefined capability bit
pub open spec fn req_valid(x: u32) -> bool { x & !0x1ffc6u32 == 0 }
pub open spec fn rsp_valid(x: u32) -> bool { x & !0x1ffffu32 == 0 }
/// ct_exponent and flags, the shared layout of GET_CAPABILITIES and CAPABILITIES
pub open spec fn caps_body(ct: u8, flags: u32) -> Seq<u8> { seq![0u8, 0, 0, ct, 0, 0] + crate::vx::le32(flags) }
pub open spec fn caps_frame(b: Seq<u8>) -> bool {
    b.len() >= 10 && crate::vx::zeros(b, 0, 3) && crate::vx::zeros(b, 4, 2)
}
impl GetCapabilities {
    pub open spec fn accepts(b: Seq<u8>) -> bool { caps_frame(b) && req_valid(crate::vx::rd32(b, 6)) }
    /// why a body is refused
    pub open spec fn fault(b: Seq<u8>, e: ParseGetCapabilitiesError) -> bool {
        match e {
            ParseGetCapabilitiesError::InvalidBitsSet => b.len() >= 10 && !req_valid(crate::vx::rd32(b, 6)),
            ParseGetCapabilitiesError::Read(ReadError::BufferEmpty) => b.len() < 10,
            ParseGetCapabilitiesError::Read(ReadError::ReservedByteNotZero) => crate::vx::dirty(b, 0, 3) || crate::vx::dirty(b, 4, 2),
            _ => false,
        }
    }
    pub open spec fn parsed(b: Seq<u8>) -> GetCapabilities {
        GetCapabilities { ct_exponent: b[3], flags: ReqFlags { bits: crate::vx::rd32(b, 6) } }
    }
    pub proof fn round_trip(m: GetCapabilities, t: Seq<u8>) //@C03
        requires req_valid(m.flags.bits),
        ensures Self::accepts(m.body() + t), Self::parsed(m.body() + t) == m,
    {
        crate::vx::rd32_of(m.body() + t, 6, m.flags.bits);
    }
}
impl Capabilities {
    pub open spec fn accepts(b: Seq<u8>) -> bool { caps_frame(b) && rsp_valid(crate::vx::rd32(b, 6)) }
    pub open spec fn parsed(b: Seq<u8>) -> Capabilities {
        Capabilities { ct_exponent: b[3], flags: RspFlags { bits: crate::vx::rd32(b, 6) } }
    }
    pub proof fn round_trip(m: Capabilities, t: Seq<u8>) //@C03
        requires rsp_valid(m.flags.bits),
        ensures Self::accepts(m.body() + t), Self::parsed(m.body() + t) == m,
    {
        crate::vx::rd32_of(m.body() + t, 6, m.flags.bits);
    }
}

== impl msgs::capabilities::GetCapabilities@Msg
    open spec fn ver() -> u8 { 0x11 }
    open spec fn code() -> u8 { 0xe1 }
    open spec fn full(e: Self::WriteError) -> bool { true }
    proof fn full_from(e: Self::WriteError) {}
    proof fn consts() {} //@C03,C05
    open spec fn msg_wf(&self) -> bool { true }
    open spec fn writable(&self) -> bool { true }
    open spec fn body(&self) -> Seq<u8> { caps_body(self.ct_exponent, self.flags.bits) }

== impl msgs::capabilities::Capabilities@Msg
    open spec fn ver() -> u8 { 0x11 }
    open spec fn code() -> u8 { 0x61 }
    open spec fn full(e: Self::WriteError) -> bool { true }
    proof fn full_from(e: Self::WriteError) {}
    proof fn consts() {} //@C03,C05
    open spec fn msg_wf(&self) -> bool { true }
    open spec fn writable(&self) -> bool { true }
    open spec fn body(&self) -> Seq<u8> { caps_body(self.ct_exponent, self.flags.bits) }

== fn msgs::capabilities::GetCapabilities::parse_body (buf)
-- spec
    ensures
        r is Ok <==> Self::accepts(buf@), //@C05
        r is Err ==> Self::fault(buf@, r->Err_0), //@C20
        r is Ok ==> r->Ok_0 == Self::parsed(buf@), //@C03

== fn msgs::capabilities::Capabilities::parse_body (buf)
-- spec
    ensures
        r is Ok <==> Self::accepts(buf@), //@C05
        r is Ok ==> r->Ok_0 == Self::parsed(buf@), //@C03

== fn msgs::capabilities::GetCapabilities::default@Default ()
-- spec
    ensures r.ct_exponent == 0, r.flags.bits == 0,

== fn msgs::capabilities::Capabilities::default@Default ()
-- spec
    ensures r.ct_exponent == 0, r.flags.bits == 0,

== fn msgs::capabilities::ReqFlags::from_str@FromStr (s)
-- spec
    ensures
        r is Ok <==> req_flag(s) is Some, //@C21
        r is Ok ==> Some(r->Ok_0) == req_flag(s), //@C21

== fn msgs::capabilities::RspFlags::from_str@FromStr (s)
-- spec
    ensures
        r is Ok <==> rsp_flag(s) is Some, //@C21
        r is Ok ==> Some(r->Ok_0) == rsp_flag(s), //@C21

== mod msgs::capabilities
/// the bit every named flag stands for
pub proof fn flag_values()
    ensures
        ReqFlags::CERT_CAP.bits == 0x2, //@C03
        ReqFlags::CHAL_CAP.bits == 0x4, //@C03
        ReqFlags::ENCRYPT_CAP.bits == 0x40, //@C03
        ReqFlags::MAC_CAP.bits == 0x80, //@C03
        ReqFlags::MUT_AUTH_CAP.bits == 0x100, //@C03
        ReqFlags::KEY_EX_CAP.bits == 0x200, //@C03
        ReqFlags::PSK_CAP.bits == 0x400, //@C03
        ReqFlags::PSK_CAP_MASK.bits == 0xc00, //@C03
        ReqFlags::ENCAP_CAP.bits == 0x1000, //@C03
        ReqFlags::HBEAT_CAP.bits == 0x2000, //@C03
        ReqFlags::KEY_UPD_CAP.bits == 0x4000, //@C03
        ReqFlags::HANDSHAKE_IN_THE_CLEAR_CAP.bits == 0x8000, //@C03
        ReqFlags::PUB_KEY_ID_CAP.bits == 0x10000, //@C03
        RspFlags::CACHE_CAP.bits == 0x1, //@C03
        RspFlags::CERT_CAP.bits == 0x2, //@C03
        RspFlags::CHAL_CAP.bits == 0x4, //@C03
        RspFlags::MEAS_CAP_NO_SIG.bits == 0x8, //@C03
        RspFlags::MEAS_CAP_SIG.bits == 0x10, //@C03
        RspFlags::MEAS_FRESH_CAP.bits == 0x20, //@C03
        RspFlags::ENCRYPT_CAP.bits == 0x40, //@C03
        RspFlags::MAC_CAP.bits == 0x80, //@C03
        RspFlags::MUT_AUTH_CAP.bits == 0x100, //@C03
        RspFlags::KEY_EX_CAP.bits == 0x200, //@C03
        RspFlags::PSK_CAP.bits == 0x400, //@C03
        RspFlags::PSX_CAP_WITH_CONTEXT.bits == 0x800, //@C03
        RspFlags::ENCAP_CAP.bits == 0x1000, //@C03
        RspFlags::HBEAT_CAP.bits == 0x2000, //@C03
        RspFlags::KEY_UPD_CAP.bits == 0x4000, //@C03
        RspFlags::HANDSHAKE_IN_THE_CLEAR_CAP.bits == 0x8000, //@C03
        RspFlags::PUB_KEY_ID_CAP.bits == 0x10000, //@C03
{
}
