## The trait every message implements.
== trait msgs::Msg
    /// what the caller must guarantee before serializing (no panic otherwise)
    spec fn msg_wf(&self) -> bool;
    /// the message satisfies the restrictions the writer checks itself
    spec fn writable(&self) -> bool;
    /// the serialized body (everything after the two byte header)
    spec fn body(&self) -> Seq<u8>;
    /// the protocol version and message code of the header
    spec fn ver() -> u8;
    spec fn code() -> u8;
    /// an error of the writer that reports a buffer that is too small
    spec fn full(e: Self::WriteError) -> bool;
    proof fn full_from(e: Self::WriteError) requires vstd::std_specs::control_flow::spec_from::<Self::WriteError, BufferFullError>(BufferFullError, e) ensures Self::full(e);
    proof fn consts() ensures Self::SPDM_VERSION == Self::ver(), Self::SPDM_CODE == Self::code();

== mod msgs
/// why a body of two reserved bytes is refused
pub open spec fn empty_fault(b: Seq<u8>, e: encoding::ReadError) -> bool {
    match e {
        encoding::ReadError::BufferEmpty => b.len() < 2,
        encoding::ReadError::ReservedByteNotZero => crate::vx::dirty(b, 0, 2),
        _ => false,
    }
}
/// the bytes of a whole message
pub open spec fn wire<M: Msg + ?Sized>(m: &M) -> Seq<u8> { seq![M::ver(), M::code()] + m.body() }

== fn msgs::Msg::write_body (self, w)
-- spec
    requires old(w).wf(), self.msg_wf(),
    ensures
        r is Ok <==> self.writable() && old(w).room() >= self.body().len(), //@C04
        r is Ok ==> Writer::app(*old(w), *final(w), self.body()) && r->Ok_0 == final(w).offset, //@C03,C04
        r is Err && self.writable() ==> Self::full(r->Err_0), //@C20
        r is Err ==> Writer::pre(*old(w), *final(w)), //@C04

== fn msgs::Msg::parse_header (buf)
-- spec
    ensures
        r == (if buf@.len() < 2 { Err(ParseHeaderError) } else if buf@[1] != Self::code() { Ok(false) }
            else if buf@[0] == Self::ver() { Ok(true) } else { Err(ParseHeaderError) }), //@C05
-- body
    Self::consts();

== fn msgs::Msg::write (self, buf)
-- spec
    requires self.msg_wf(),
    ensures
        final(buf)@.len() == old(buf)@.len(),
        r is Ok <==> self.writable() && old(buf)@.len() >= 2 + self.body().len(), //@C04
        r is Ok ==> r->Ok_0 == 2 + self.body().len()
            && final(buf)@ =~= seq![Self::ver(), Self::code()] + self.body() + old(buf)@.skip(2 + self.body().len() as int), //@C03,C04
        r is Err && self.writable() ==> Self::full(r->Err_0), //@C20
-- body
    reveal(Writer::out);
    Self::consts();
    assert forall|e: Self::WriteError| #[trigger] vstd::std_specs::control_flow::spec_from::<Self::WriteError, BufferFullError>(BufferFullError, e) implies Self::full(e) by { Self::full_from(e); }

== fn msgs::Msg::write_header (w)
-- spec
    requires old(w).wf(),
    ensures
        r is Ok <==> old(w).room() >= 2, //@C04
        r is Ok ==> Writer::app(*old(w), *final(w), seq![Self::ver(), Self::code()]) && r->Ok_0 == final(w).offset, //@C03,C04
        r is Err ==> Writer::pre(*old(w), *final(w)), //@C04
-- body
    Self::consts();
