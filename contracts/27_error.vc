== mod msgs::error
use crate::msgs::common::{reg_num, vid_bytes, vid_acc, vid_at};
pub open spec fn err_code(e: Error) -> u8 {
    match e {
        Error::InvalidRequest => 0x01, Error::Busy => 0x03, Error::UnexpectedRequest => 0x04, Error::Unspecified => 0x05,
        Error::DecryptError => 0x06, Error::UnsupportedRequest(_) => 0x07, Error::RequestInFlight => 0x08, Error::InvalidResponseCode => 0x09,
        Error::SessionLimitExceeded => 0x0a, Error::SessionRequired => 0x0b, Error::ResetRequired => 0x0c, Error::ResponseTooLarge(_) => 0x0d,
        Error::RequestTooLarge => 0x0e, Error::LargeResponse(_) => 0x0f, Error::MessageLost => 0x10, Error::VersionMismatch => 0x41,
        Error::ResponseNotReady(_) => 0x42, Error::RequestResynch => 0x43, Error::VendorDefined(_, _) => 0xff,
    }
}
pub open spec fn err_data(e: Error) -> u8 {
    match e {
        Error::UnsupportedRequest(c) => c,
        Error::VendorDefined(id, _) => reg_num(id),
        _ => 0,
    }
}
pub open spec fn err_ext(e: Error) -> Seq<u8> {
    match e {
        Error::ResponseTooLarge(n) => crate::vx::le32(n),
        Error::LargeResponse(h) => seq![h],
        Error::ResponseNotReady(v) => seq![v.rdt_exponent, v.request_code, v.token, v.rdtm],
        Error::VendorDefined(_, v) => vid_bytes(v.vendor_id) + v.opaque_error_data@.take(v.opaque_len as int),
        _ => Seq::empty(),
    }
}
impl Error {
    /// the defined error codes
    pub open spec fn code_ok(c: u8) -> bool { c == 1 || (3 <= c <= 0x10) || (0x41 <= c <= 0x43) || c == 0xff }
    pub open spec fn accepts(b: Seq<u8>) -> bool {
        &&& b.len() >= 2 && Self::code_ok(b[0])
        &&& b[0] == 0x0d ==> b.len() >= 6
        &&& b[0] == 0x0f ==> b.len() >= 3
        &&& b[0] == 0x42 ==> b.len() >= 6
        &&& b[0] == 0xff ==> b[1] <= 8 && b.len() >= 3 && vid_acc(b, 3, b[2])
    }
    pub open spec fn parsed(b: Seq<u8>, e: Error) -> bool {
        &&& err_code(e) == b[0]
        &&& e is UnsupportedRequest ==> e->UnsupportedRequest_0 == b[1]
        &&& e is ResponseTooLarge ==> e->ResponseTooLarge_0 == crate::vx::rd32(b, 2)
        &&& e is LargeResponse ==> e->LargeResponse_0 == b[2]
        &&& e is ResponseNotReady ==> e->ResponseNotReady_0 == (ResponseNotReady { rdt_exponent: b[2], request_code: b[3], token: b[4], rdtm: b[5] })
        &&& e is VendorDefined ==> reg_num(e->VendorDefined_0) == b[1] && e->VendorDefined_1.vendor_id == vid_at(b, 3, b[2]) && e->VendorDefined_1.opaque_len == 0
    }
    /// decoding an encoded ERROR gives back the same error (vendor data is not decoded)
    pub proof fn round_trip(m: Error, t: Seq<u8>, m2: Error) //@C03
        requires m.msg_wf(),
        ensures
            Self::accepts(m.body() + t),
            Self::parsed(m.body() + t, m2) ==> (!(m is VendorDefined) ==> m2 == m)
                && (m is VendorDefined ==> m2 is VendorDefined && m2->VendorDefined_0 == m->VendorDefined_0 && m2->VendorDefined_1.vendor_id == m->VendorDefined_1.vendor_id),
    {
        let b = m.body() + t;
        let x = err_ext(m);
        assert(forall|i: int| 0 <= i < x.len() ==> b[2 + i] == x[i]);
        assert(b[0] == err_code(m) && b[1] == err_data(m));
        match m {
            Error::ResponseTooLarge(n) => { assert(b[2] == x[0] && b[3] == x[1] && b[4] == x[2] && b[5] == x[3]); crate::vx::rd32_of(b, 2, n); }
            Error::LargeResponse(_) => { assert(b[2] == x[0]); }
            Error::ResponseNotReady(_) => { assert(b[2] == x[0] && b[3] == x[1] && b[4] == x[2] && b[5] == x[3]); }
            Error::VendorDefined(id, v) => {
                assert(b[2] == x[0]);
                match v.vendor_id {
                    VendorId::Empty => {}
                    VendorId::U16(y) => { assert(b[3] == x[1] && b[4] == x[2]); crate::vx::rd16_of(b, 3, y); }
                    VendorId::U32(y) => { assert(b[3] == x[1] && b[4] == x[2] && b[5] == x[3] && b[6] == x[4]); crate::vx::rd32_of(b, 3, y); }
                }
            }
            _ => {}
        }
    }
}

== impl msgs::error::Error@Msg
    open spec fn ver() -> u8 { 0x12 }
    open spec fn code() -> u8 { 0x7f }
    open spec fn full(e: Self::WriteError) -> bool { true }
    proof fn full_from(e: Self::WriteError) {}
    proof fn consts() {} //@C03,C05
    open spec fn msg_wf(&self) -> bool { self is VendorDefined ==> self->VendorDefined_1.opaque_len <= MAX_OPAQUE_ERROR_DATA_SIZE }
    open spec fn writable(&self) -> bool { true }
    open spec fn body(&self) -> Seq<u8> { seq![err_code(*self), err_data(*self)] + err_ext(*self) }

== fn msgs::error::VendorDefined::empty ()
-- spec
    ensures r.vendor_id == VendorId::Empty, r.opaque_len == 0,

== fn msgs::error::Error::parse_body (buf)
-- ret res
-- spec
    ensures
        res is Ok <==> Self::accepts(buf@), //@C05
        res is Ok ==> Self::parsed(buf@, res->Ok_0), //@C03
        res is Ok ==> res->Ok_0.msg_wf(),

== fn msgs::error::Error::write_body@Msg (self, w)
-- attr #[verifier::spinoff_prover] #[verifier::rlimit(100)]
