## The transcript: append-only record of the bytes exchanged.
== inherent transcript::Transcript@PartialEq
== impl transcript::Transcript
    pub closed spec fn wf(&self) -> bool { self.offset <= TRANSCRIPT_SIZE }
    /// what has been recorded
    pub closed spec fn bytes(&self) -> Seq<u8> { self.buf@.take(self.offset as int) }

== fn transcript::Transcript::new ()
-- spec
    ensures r.wf(), r.bytes() =~= Seq::<u8>::empty(), //@C10

== fn transcript::Transcript::extend (self, buf)
-- spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        final(self).bytes().len() <= TRANSCRIPT_SIZE, //@C10
        r is Ok <==> old(self).bytes().len() + buf@.len() <= TRANSCRIPT_SIZE, //@C10
        r is Ok ==> final(self).bytes() =~= old(self).bytes() + buf@, //@C10
        r is Err ==> final(self).bytes() == old(self).bytes(), //@C10

== fn transcript::Transcript::clear (self)
-- spec
    ensures final(self).wf(), final(self).bytes() =~= Seq::<u8>::empty(), //@C10

== fn transcript::Transcript::get (self)
-- spec
    requires self.wf(),
    ensures r@ == self.bytes(), r@.len() <= TRANSCRIPT_SIZE, //@C10

== fn transcript::Transcript::len (self)
-- spec
    requires self.wf(),
    ensures r == self.bytes().len(), //@C10

== fn transcript::Transcript::eq@PartialEq (self, other)
-- spec
    requires self.wf(), other.wf(),
    ensures r == (self.bytes() == other.bytes()), //@C22
