## Writer and Reader.
== mod msgs::encoding
pub use crate::vx::{rd16, rd24, rd32, le24, zeros, zseq, bits_of};

pub proof fn lemma_u24(a: u8, b: u8, c: u8)
    ensures
        ((0u32 | a as u32) | ((b as u32) << 8)) | ((c as u32) << 16) == a as int + 256 * (b as int) + 65536 * (c as int),
        ((0u32 | a as u32) | ((b as u32) << 8u32)) | ((c as u32) << 16u32) == a as int + 256 * (b as int) + 65536 * (c as int),
{
    assert(((0u32 | a as u32) | ((b as u32) << 8u32)) | ((c as u32) << 16u32) == add(add(a as u32, mul(256u32, b as u32)), mul(65536u32, c as u32))) by (bit_vector);
}

== impl msgs::encoding::Writer
    pub open spec fn blen(&self) -> nat { self.buf@.len() }
    pub open spec fn wf(&self) -> bool { self.offset <= self.buf@.len() && self.out().len() == self.offset }
    /// what has been written
    #[verifier::opaque]
    pub open spec fn out(&self) -> Seq<u8> { self.buf@.take(self.offset as int) }
    pub open spec fn room(&self) -> int { self.buf@.len() - self.offset }
    /// `n` is `o` with `s` appended; nothing else of the buffer changed
    #[verifier::prophetic]
    pub open spec fn app(o: Self, n: Self, s: Seq<u8>) -> bool {
        &&& n.wf()
        &&& n.buf@.len() == o.buf@.len()
        &&& n.offset == o.offset + s.len()
        &&& n.out() =~= o.out() + s
        &&& forall|i: int| n.offset <= i < o.buf@.len() ==> #[trigger] n.buf@[i] == o.buf@[i]
        &&& final(n.buf)@ == final(o.buf)@
    }
    /// `n` extends `o` by some bytes
    #[verifier::prophetic]
    pub open spec fn pre(o: Self, n: Self) -> bool {
        &&& n.wf()
        &&& n.buf@.len() == o.buf@.len()
        &&& o.offset <= n.offset
        &&& n.out().take(o.offset as int) =~= o.out()
        &&& forall|i: int| n.offset <= i < o.buf@.len() ==> #[trigger] n.buf@[i] == o.buf@[i]
        &&& final(n.buf)@ == final(o.buf)@
    }
    #[verifier::prophetic]
    pub open spec fn same(o: Self, n: Self) -> bool {
        n.buf@ == o.buf@ && n.offset == o.offset && n.out() == o.out() && final(n.buf)@ == final(o.buf)@
    }

== fn msgs::encoding::Writer::new (buf)
-- body
    reveal(Writer::out);
-- spec
    ensures
        r.offset == 0, r.wf(), //@C04
        r.buf@ == old(buf)@, final(r.buf)@ == final(buf)@,
        r.out() =~= Seq::<u8>::empty(),

== fn msgs::encoding::Writer::put (self, value)
-- spec
    requires old(self).wf(),
    ensures
        r is Ok <==> old(self).room() >= 1, //@C04
        r is Ok ==> Self::app(*old(self), *final(self), seq![value]) && r->Ok_0 == final(self).offset, //@C03,C04
        r is Err ==> Self::same(*old(self), *final(self)), //@C04
-- body
    reveal(Writer::out);

== fn msgs::encoding::Writer::put_reserved (self, num_bytes)
-- spec
    requires old(self).wf(),
    ensures
        r is Ok <==> old(self).room() >= num_bytes, //@C04
        r is Ok ==> Self::app(*old(self), *final(self), zseq(num_bytes as nat)) && r->Ok_0 == final(self).offset, //@C03,C04
        r is Err ==> Self::pre(*old(self), *final(self)), //@C04
-- loop 0 it
    invariant
        it.index@ <= num_bytes,
        Self::app(*old(self), *self, zseq(it.index@ as nat)),

== fn msgs::encoding::Writer::put_u16 (self, num)
-- spec
    requires old(self).wf(),
    ensures
        r is Ok <==> old(self).room() >= 2, //@C04
        r is Ok ==> Self::app(*old(self), *final(self), crate::vx::le16(num)) && r->Ok_0 == final(self).offset, //@C03,C04
        r is Err ==> Self::pre(*old(self), *final(self)), //@C04
-- loop 0
    invariant
        buf@ == crate::vx::le16(num),
        Self::app(*old(self), *self, buf@.take(i as int)),

== fn msgs::encoding::Writer::put_u24 (self, num)
-- spec
    requires old(self).wf(),
    ensures
        r is Ok <==> old(self).room() >= 3, //@C04
        r is Ok ==> Self::app(*old(self), *final(self), le24(num as int)) && r->Ok_0 == final(self).offset, //@C03,C04
        r is Err ==> Self::pre(*old(self), *final(self)), //@C04
-- loop 0
    invariant
        buf@ == crate::vx::LeBytes::<8>::le_spec(num),
        Self::app(*old(self), *self, buf@.take(i as int)),
-- end
    assert((num & 0xff) == num % 256) by (bit_vector);
    assert(((num >> 8) & 0xff) == (num / 256) % 256) by (bit_vector);
    assert(((num >> 16) & 0xff) == (num / 65536) % 256) by (bit_vector);
    assert(le24(num as int) =~= crate::vx::LeBytes::<8>::le_spec(num).take(3));

== fn msgs::encoding::Writer::put_u32 (self, num)
-- spec
    requires old(self).wf(),
    ensures
        r is Ok <==> old(self).room() >= 4, //@C04
        r is Ok ==> Self::app(*old(self), *final(self), crate::vx::le32(num)) && r->Ok_0 == final(self).offset, //@C03,C04
        r is Err ==> Self::pre(*old(self), *final(self)), //@C04
-- loop 0
    invariant
        buf@ == crate::vx::le32(num),
        Self::app(*old(self), *self, buf@.take(i as int)),

== fn msgs::encoding::Writer::extend (self, buf)
-- spec
    requires old(self).wf(),
    ensures
        r is Ok <==> old(self).room() >= buf@.len(), //@C04
        r is Ok ==> Self::app(*old(self), *final(self), buf@) && r->Ok_0 == final(self).offset, //@C03,C04
        r is Err ==> Self::same(*old(self), *final(self)), //@C04
-- body
    reveal(Writer::out);

== fn msgs::encoding::Writer::is_full (self)
-- spec
    ensures r == (self.offset == self.blen()), //@C04

== fn msgs::encoding::Writer::remaining (self)
-- spec
    requires self.wf(),
    ensures r == self.room(), //@C04

== fn msgs::encoding::Writer::offset (self)
-- spec
    ensures r == self.offset, //@C04

== impl msgs::encoding::Reader
    pub open spec fn wf(&self) -> bool {
        &&& self.byte_offset <= self.buf@.len()
        &&& self.bit_offset < 8
        &&& self.bit_offset != 0 ==> self.byte_offset < self.buf@.len()
    }
    /// aligned at byte `o`
    pub open spec fn at(&self, b: Seq<u8>, o: int) -> bool { self.buf@ == b && self.byte_offset == o && self.bit_offset == 0 && o <= b.len() }
    pub open spec fn al(&self) -> bool { self.bit_offset == 0 }
    pub open spec fn b(&self) -> Seq<u8> { self.buf@ }
    pub open spec fn o(&self) -> int { self.byte_offset as int }
    /// the cursor moved forward over the same buffer by `n` bytes, to a byte boundary
    pub open spec fn adv(o: Self, n: Self, k: int) -> bool {
        n.buf@ == o.buf@ && n.byte_offset == o.byte_offset + k && n.bit_offset == 0 && n.wf()
    }
    pub open spec fn frame(o: Self, n: Self) -> bool {
        n.buf@ == o.buf@ && n.wf() && n.byte_offset >= o.byte_offset
    }

== fn msgs::encoding::Reader::new (buf)
-- spec
    ensures r.wf(), r.at(buf@, 0), //@C06

== fn msgs::encoding::Reader::get_byte (self)
-- spec
    requires old(self).wf(),
    ensures
        Self::frame(*old(self), *final(self)), //@C06
        r is Ok <==> old(self).al() && old(self).o() < old(self).b().len(), //@C06
        r is Ok ==> Self::adv(*old(self), *final(self), 1) && r->Ok_0 == old(self).b()[old(self).o()], //@C03,C06
        r is Err && old(self).al() ==> r->Err_0 is BufferEmpty, //@C20
        r is Err ==> *final(self) == *old(self), //@C06

== fn msgs::encoding::Reader::skip_reserved (self, num_bytes)
-- spec
    requires old(self).wf(),
    ensures
        Self::frame(*old(self), *final(self)), //@C06
        r is Ok <==> num_bytes == 0 || (old(self).al() && old(self).o() + num_bytes <= old(self).b().len()
            && zeros(old(self).b(), old(self).o(), num_bytes as int)), //@C06
        r is Err && old(self).al() ==> (r->Err_0 is BufferEmpty && old(self).o() + num_bytes > old(self).b().len())
            || (r->Err_0 is ReservedByteNotZero && crate::vx::dirty(old(self).b(), old(self).o(), num_bytes as int)), //@C20
        r is Ok && old(self).al() ==> Self::adv(*old(self), *final(self), num_bytes as int), //@C06
        r is Ok && !old(self).al() ==> *final(self) == *old(self),
-- loop 0 it
    invariant
        it.index@ <= num_bytes,
        it.index@ == 0 ==> *self == *old(self),
        it.index@ > 0 ==> old(self).al() && Self::adv(*old(self), *self, it.index@ as int),
        zeros(old(self).b(), old(self).o(), it.index@ as int),

== fn msgs::encoding::Reader::skip_ignored (self, num_bytes)
-- spec
    requires old(self).wf(),
    ensures
        Self::frame(*old(self), *final(self)), //@C06
        r is Ok <==> num_bytes == 0 || (old(self).al() && old(self).o() + num_bytes <= old(self).b().len()), //@C06
        r is Err && old(self).al() ==> r->Err_0 is BufferEmpty, //@C20
        r is Ok && old(self).al() ==> Self::adv(*old(self), *final(self), num_bytes as int), //@C06
        r is Ok && !old(self).al() ==> *final(self) == *old(self),
-- loop 0 it
    invariant
        it.index@ <= num_bytes,
        it.index@ == 0 ==> *self == *old(self),
        it.index@ > 0 ==> old(self).al() && Self::adv(*old(self), *self, it.index@ as int),

== fn msgs::encoding::Reader::get_bits (self, count)
-- spec
    requires old(self).wf(), count >= 1,
    ensures
        Self::frame(*old(self), *final(self)), //@C06
        r is Ok <==> count <= 7 && old(self).o() < old(self).b().len()
            && (old(self).bit_offset + count <= 8 || old(self).o() + 1 < old(self).b().len()), //@C06
        r is Ok ==> final(self).o() * 8 + final(self).bit_offset == old(self).o() * 8 + old(self).bit_offset + count, //@C06
        r is Ok ==> r->Ok_0 == bits_of(old(self).b()[old(self).o()],
            if old(self).bit_offset + count <= 8 { 0 } else { old(self).b()[old(self).o() + 1] }, old(self).bit_offset, count), //@C06
        r is Err ==> *final(self) == *old(self), //@C06
-- body
    let lo = self.b()[self.o()];
    let off = self.bit_offset;
    if count <= 7 && off < 8 {
        if off + count == 8 {
            assert(off < 8 && count >= 1 && count <= 7 && off + count == 8 ==> lo >> off == bits_of(lo, 0, off, count)) by {
                assert(off < 8 && 1 <= count && count <= 7 && add(off, count) == 8 ==>
                    lo >> off == ((((lo as u16) | ((0u8 as u16) << 8u16)) >> (off as u16)) & (sub(1u16 << (count as u16), 1))) as u8) by (bit_vector);
                assert(1u16 << (count as u16) >= 1) by (bit_vector) requires count <= 7;
            }
        } else if off + count < 8 {
            let high = (off + count) as u8;
            assert((lo << sub(8, high)) >> sub(8, count) == bits_of(lo, 0, off, count)) by {
                assert(off < 8 && 1 <= count && count <= 7 && high < 8 && high == add(off, count) ==>
                    (lo << sub(8, high)) >> sub(8, count) == ((((lo as u16) | ((0u8 as u16) << 8u16)) >> (off as u16)) & (sub(1u16 << (count as u16), 1))) as u8) by (bit_vector);
                assert(1u16 << (count as u16) >= 1) by (bit_vector) requires count <= 7;
            }
        } else if self.o() + 1 < self.b().len() {
            let hi = self.b()[self.o() + 1];
            let nbo = (off + count - 8) as u8;
            assert((lo >> off) | ((hi << sub(8, nbo)) >> sub(sub(8, nbo), sub(8, off))) == bits_of(lo, hi, off, count)) by {
                assert(off < 8 && 1 <= count && count <= 7 && nbo >= 1 && nbo < 8 && add(nbo, 8) == add(off, count) ==>
                    (lo >> off) | ((hi << sub(8, nbo)) >> sub(sub(8, nbo), sub(8, off)))
                    == ((((lo as u16) | ((hi as u16) << 8u16)) >> (off as u16)) & (sub(1u16 << (count as u16), 1))) as u8) by (bit_vector);
                assert(1u16 << (count as u16) >= 1) by (bit_vector) requires count <= 7;
            }
        }
    }

== fn msgs::encoding::Reader::get_bit (self)
-- spec
    requires old(self).wf(),
    ensures
        Self::frame(*old(self), *final(self)), //@C06
        r is Ok <==> old(self).o() < old(self).b().len(), //@C06
        r is Ok ==> final(self).o() * 8 + final(self).bit_offset == old(self).o() * 8 + old(self).bit_offset + 1, //@C06
        r is Ok ==> r->Ok_0 == bits_of(old(self).b()[old(self).o()], 0, old(self).bit_offset, 1), //@C03,C06
        r is Err ==> *final(self) == *old(self), //@C06

== fn msgs::encoding::Reader::get_u16 (self)
-- spec
    requires old(self).wf(),
    ensures
        Self::frame(*old(self), *final(self)), //@C06
        r is Ok <==> old(self).al() && old(self).o() + 2 <= old(self).b().len(), //@C06
        r is Ok ==> Self::adv(*old(self), *final(self), 2) && r->Ok_0 == rd16(old(self).b(), old(self).o()), //@C03,C06
        r is Err && old(self).al() ==> r->Err_0 is BufferEmpty, //@C20
        r is Err ==> *final(self) == *old(self), //@C06

== fn msgs::encoding::Reader::get_slice (self, size, buf)
-- spec
    requires old(self).wf(), size <= old(buf)@.len(),
    ensures
        Self::frame(*old(self), *final(self)), //@C06
        r is Ok <==> old(self).al() && old(self).o() + size <= old(self).b().len(), //@C06
        r is Ok ==> Self::adv(*old(self), *final(self), size as int)
            && final(buf)@ =~= old(self).b().subrange(old(self).o(), old(self).o() + size) + old(buf)@.skip(size as int), //@C03,C06
        r is Err && old(self).al() ==> r->Err_0 is BufferEmpty, //@C20
        r is Err ==> *final(self) == *old(self) && final(buf)@ == old(buf)@, //@C06

== fn msgs::encoding::Reader::get_u24 (self)
-- spec
    requires old(self).wf(),
    ensures
        Self::frame(*old(self), *final(self)), //@C06
        r is Ok <==> old(self).al() && old(self).o() + 3 <= old(self).b().len(), //@C06
        r is Ok ==> Self::adv(*old(self), *final(self), 3) && r->Ok_0 == rd24(old(self).b(), old(self).o()), //@C03,C06

-- end
    let b = old(self).b();
    let o = old(self).o();
    lemma_u24(b[o], b[o + 1], b[o + 2]);

== fn msgs::encoding::Reader::get_u32 (self)
-- spec
    requires old(self).wf(),
    ensures
        Self::frame(*old(self), *final(self)), //@C06
        r is Ok <==> old(self).al() && old(self).o() + 4 <= old(self).b().len(), //@C06
        r is Ok ==> Self::adv(*old(self), *final(self), 4) && r->Ok_0 == rd32(old(self).b(), old(self).o()), //@C03,C06
        r is Err && old(self).al() ==> r->Err_0 is BufferEmpty, //@C20
        r is Err ==> *final(self) == *old(self), //@C06

== fn msgs::encoding::Reader::byte_offset (self)
-- spec
    ensures r == self.byte_offset, //@C06

== fn msgs::encoding::Reader::remaining (self)
-- spec
    requires self.wf(),
    ensures r == self.buf@.len() - self.byte_offset, //@C06

== fn msgs::encoding::Reader::is_empty (self)
-- spec
    ensures r == (self.buf@.len() == self.byte_offset), //@C06

== fn msgs::encoding::Reader::is_aligned (self)
-- spec
    ensures r == (self.bit_offset == 0), //@C06
