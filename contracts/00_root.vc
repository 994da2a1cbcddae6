## Crate-wide assumptions about core and about the external crates.
== root
#![verifier::loop_isolation(false)]

== mod +vx
//! Assumed contracts on core / vstd gaps.
use vstd::prelude::*;
use core::marker::PointeeSized;
verus! {
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(AsRefSpec via AsRefSpecImpl)]
pub trait ExAsRef<T: PointeeSized>: PointeeSized {
    type ExternalTraitSpecificationFor: core::convert::AsRef<T>;
    /// `r` is what `as_ref` returns
    spec fn as_ref_ok(&self, r: &T) -> bool;
    fn as_ref(&self) -> (r: &T) ensures self.as_ref_ok(r);
}
#[verifier::external_trait_specification]
pub trait ExAsMut<T: PointeeSized>: PointeeSized {
    type ExternalTraitSpecificationFor: core::convert::AsMut<T>;
    fn as_mut(&mut self) -> (r: &mut T);
}
#[verifier::external_trait_specification]
pub trait ExFromStr: Sized {
    type ExternalTraitSpecificationFor: core::str::FromStr;
    type Err;
    fn from_str(s: &str) -> Result<Self, Self::Err>;
}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTryFromSliceError(core::array::TryFromSliceError);

// ---- little/big endian bytes
pub open spec fn le16(x: u16) -> Seq<u8> { seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8] }
pub open spec fn le32(x: u32) -> Seq<u8> {
    seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8]
}
pub trait LeBytes<const N: usize>: Sized {
    spec fn le_spec(self) -> Seq<u8>;
    fn le_bytes(self) -> (r: [u8; N]) ensures r@ == self.le_spec();
}
impl LeBytes<2> for u16 {
    open spec fn le_spec(self) -> Seq<u8> { le16(self) }
    #[verifier::external_body] fn le_bytes(self) -> [u8; 2] { self.to_le_bytes() }
}
impl LeBytes<4> for u32 {
    open spec fn le_spec(self) -> Seq<u8> { le32(self) }
    #[verifier::external_body] fn le_bytes(self) -> [u8; 4] { self.to_le_bytes() }
}
impl LeBytes<8> for usize {
    open spec fn le_spec(self) -> Seq<u8> {
        seq![(self & 0xff) as u8, ((self >> 8) & 0xff) as u8, ((self >> 16) & 0xff) as u8, ((self >> 24) & 0xff) as u8,
             ((self >> 32) & 0xff) as u8, ((self >> 40) & 0xff) as u8, ((self >> 48) & 0xff) as u8, ((self >> 56) & 0xff) as u8]
    }
    #[verifier::external_body] fn le_bytes(self) -> [u8; 8] { self.to_le_bytes() }
}
pub trait BeBytes<const N: usize>: Sized {
    spec fn be_spec(self) -> Seq<u8>;
    fn be_bytes(self) -> (r: [u8; N]) ensures r@ == self.be_spec();
}
impl BeBytes<2> for u16 {
    open spec fn be_spec(self) -> Seq<u8> { seq![((self >> 8) & 0xff) as u8, (self & 0xff) as u8] }
    #[verifier::external_body] fn be_bytes(self) -> [u8; 2] { self.to_be_bytes() }
}
#[verifier::external_body]
pub fn u16_from_le_bytes(b: [u8; 2]) -> (r: u16)
    ensures r == (b@[0] as u16) | ((b@[1] as u16) << 8)
{ u16::from_le_bytes(b) }
#[verifier::external_body]
pub fn u32_from_le_bytes(b: [u8; 4]) -> (r: u32)
    ensures r == (b@[0] as u32) | ((b@[1] as u32) << 8) | ((b@[2] as u32) << 16) | ((b@[3] as u32) << 24)
{ u32::from_le_bytes(b) }
#[verifier::external_body]
pub fn u16_from_be_bytes(b: [u8; 2]) -> (r: u16)
    ensures r == (b@[1] as u16) | ((b@[0] as u16) << 8)
{ u16::from_be_bytes(b) }
#[verifier::external_body]
pub fn u32_from_be_bytes(b: [u8; 4]) -> (r: u32)
    ensures r == (b@[3] as u32) | ((b@[2] as u32) << 8) | ((b@[1] as u32) << 16) | ((b@[0] as u32) << 24)
{ u32::from_be_bytes(b) }
// library functions that the tree does not use, for changes that do
pub assume_specification<T, E> [ Result::<T, E>::unwrap_or ] (r: Result<T, E>, d: T) -> (o: T)
    ensures o == (match r { Ok(v) => v, Err(_) => d });
pub assume_specification<T, E, F> [ Result::<T, E>::or ] (r: Result<T, E>, d: Result<T, F>) -> (o: Result<T, F>)
    ensures o == (match r { Ok(v) => Ok(v), Err(_) => d });
pub assume_specification<T, E, U> [ Result::<T, E>::and ] (r: Result<T, E>, d: Result<U, E>) -> (o: Result<U, E>)
    ensures o == (match r { Ok(_) => d, Err(e) => Err(e) });
pub assume_specification<T> [ Option::<T>::or ] (r: Option<T>, d: Option<T>) -> (o: Option<T>)
    ensures o == (if r is Some { r } else { d });
pub assume_specification<T, U> [ Option::<T>::and ] (r: Option<T>, d: Option<U>) -> (o: Option<U>)
    ensures o == (if r is Some { d } else { None });
pub assume_specification<T> [ Option::<T>::xor ] (r: Option<T>, d: Option<T>) -> (o: Option<T>)
    ensures o == (if r is Some && d is None { r } else if r is None && d is Some { d } else { None });
pub assume_specification<T: Copy> [ Option::<&T>::copied ] (r: Option<&T>) -> (o: Option<T>)
    ensures o == (match r { Some(v) => Some(*v), None => None });
pub assume_specification<T> [ Option::<Option<T>>::flatten ] (r: Option<Option<T>>) -> (o: Option<T>)
    ensures o == (match r { Some(v) => v, None => None });
pub assume_specification<T> [ Option::<T>::replace ] (r: &mut Option<T>, v: T) -> (o: Option<T>)
    ensures o == *old(r), *final(r) == Some(v);
pub assume_specification<T> [ core::mem::replace ] (r: &mut T, v: T) -> (o: T)
    ensures o == *old(r), *final(r) == v;
pub assume_specification<T> [ bool::then_some ] (b: bool, v: T) -> (o: Option<T>)
    ensures o == (if b { Some(v) } else { None });
pub assume_specification<T: Clone> [ <[T]>::fill ] (s: &mut [T], v: T)
    ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < old(s)@.len() ==> cloned(v, #[trigger] final(s)@[i]);
pub assume_specification<T: Clone> [ <[T]>::clone_from_slice ] (s: &mut [T], t: &[T])
    requires old(s)@.len() == t@.len(),
    ensures final(s)@.len() == t@.len(), forall|i: int| 0 <= i < t@.len() ==> cloned(t@[i], #[trigger] final(s)@[i]);
pub assume_specification<T> [ <[T]>::reverse ] (s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
pub assume_specification<T> [ <[T]>::swap ] (s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification [ u8::is_power_of_two ] (x: u8) -> (o: bool)
    ensures o == (x != 0 && x & (x - 1) as u8 == 0);
pub assume_specification [ u16::is_power_of_two ] (x: u16) -> (o: bool)
    ensures o == (x != 0 && x & (x - 1) as u16 == 0);
pub assume_specification [ u32::is_power_of_two ] (x: u32) -> (o: bool)
    ensures o == (x != 0 && x & (x - 1) as u32 == 0);
pub assume_specification [ u16::swap_bytes ] (x: u16) -> (r: u16)
    ensures r == (x >> 8) | ((x & 0xff) << 8);
#[verifier::external_body]
pub fn array_fill<T, const N: usize>(v: T) -> (r: [T; N])
    ensures forall|i: int| 0 <= i < N ==> r@[i] == v
{ unimplemented!() }

pub open spec fn one8(x: u8) -> bool { x != 0 && x & sub(x, 1) == 0 }
pub open spec fn one16(x: u16) -> bool { x != 0 && x & sub(x, 1) == 0 }
pub open spec fn one32(x: u32) -> bool { x != 0 && x & sub(x, 1) == 0 }
pub assume_specification [ u8::count_ones ] (x: u8) -> (r: u32)
    ensures (r == 1) == one8(x), (r == 0) == (x == 0), r <= 8;
pub assume_specification [ u16::count_ones ] (x: u16) -> (r: u32)
    ensures (r == 1) == one16(x), (r == 0) == (x == 0), r <= 16;
pub assume_specification [ u32::count_ones ] (x: u32) -> (r: u32)
    ensures (r == 1) == one32(x), (r == 0) == (x == 0), r <= 32;

// `?` converts the error with From
#[verifier::external_body]
pub broadcast proof fn axiom_question_mark<S, T: core::convert::From<S>>(v: S, r: T)
    requires
        #[trigger] vstd::std_specs::control_flow::spec_from::<T, S>(v, r),
        <T as vstd::std_specs::convert::FromSpec<S>>::obeys_from_spec(),
    ensures
        r == <T as vstd::std_specs::convert::FromSpec<S>>::from_spec(v),
{
}

// slice equality
#[verifier::external_body]
pub broadcast proof fn axiom_slice_eq(a: &[u8], b: &[u8])
    ensures
        #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(a, b) == (a@ == b@),
{
}

// ... also of slices of slices
#[verifier::external_body]
pub broadcast proof fn axiom_slices_eq(a: &[&[u8]], b: &[&[u8]])
    ensures
        #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(a, b) == (a@.len() == b@.len() && forall|i: int| 0 <= i < a@.len() ==> (#[trigger] a@[i])@ == b@[i]@),
{
}

// arrays are equal when their elements are
#[verifier::external_body]
pub broadcast proof fn axiom_array_eq_obeys<T: PartialEq, const N: usize>()
    ensures
        #[trigger] <[T; N] as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() == <T as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec(),
{
}

#[verifier::external_body]
pub broadcast proof fn axiom_array_eq<T: PartialEq, const N: usize>(a: [T; N], b: [T; N])
    ensures
        #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (forall|i: int| #![trigger a@[i]] 0 <= i < N ==> vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a@[i], &b@[i])),
{
}

// <[u8; N]>::try_from(&[u8]) succeeds exactly on a slice of N bytes, and copies it
#[verifier::external_body]
pub broadcast proof fn axiom_array_try_into<'a, const N: usize>(s: &'a [u8])
    ensures
        #![trigger <&'a [u8] as vstd::std_specs::convert::TryIntoSpec<[u8; N]>>::try_into_spec(s)]
        s@.len() == N ==> (<&'a [u8] as vstd::std_specs::convert::TryIntoSpec<[u8; N]>>::try_into_spec(s) is Ok
            && <&'a [u8] as vstd::std_specs::convert::TryIntoSpec<[u8; N]>>::try_into_spec(s)->Ok_0@ == s@),
        s@.len() != N ==> <&'a [u8] as vstd::std_specs::convert::TryIntoSpec<[u8; N]>>::try_into_spec(s) is Err,
{
}

#[verifier::external_body]
pub broadcast proof fn axiom_array_try_into_obeys<'a, const N: usize>()
    ensures #[trigger] <&'a [u8] as vstd::std_specs::convert::TryIntoSpec<[u8; N]>>::obeys_try_into_spec(),
{
}

// the reflexive conversion is the identity
#[verifier::external_body]
pub broadcast proof fn axiom_usize_into(s: usize)
    ensures #[trigger] <usize as vstd::std_specs::convert::IntoSpec<usize>>::into_spec(s) == s,
{
}
#[verifier::external_body]
pub broadcast proof fn axiom_usize_into_obeys()
    ensures #[trigger] <usize as vstd::std_specs::convert::IntoSpec<usize>>::obeys_into_spec(),
{
}

// a bool converts to 1 or 0
#[verifier::external_body]
pub broadcast proof fn axiom_u8_from_bool(b: bool)
    ensures #[trigger] <u8 as vstd::std_specs::convert::FromSpec<bool>>::from_spec(b) == (if b { 1u8 } else { 0 }),
{
}
#[verifier::external_body]
pub broadcast proof fn axiom_u8_from_bool_obeys()
    ensures #[trigger] <u8 as vstd::std_specs::convert::FromSpec<bool>>::obeys_from_spec(),
{
}
#[verifier::external_body]
pub broadcast proof fn axiom_u16_from_bool(b: bool)
    ensures #[trigger] <u16 as vstd::std_specs::convert::FromSpec<bool>>::from_spec(b) == (if b { 1u16 } else { 0 }),
{
}
#[verifier::external_body]
pub broadcast proof fn axiom_u16_from_bool_obeys()
    ensures #[trigger] <u16 as vstd::std_specs::convert::FromSpec<bool>>::obeys_from_spec(),
{
}
#[verifier::external_body]
pub broadcast proof fn axiom_u32_from_bool(b: bool)
    ensures #[trigger] <u32 as vstd::std_specs::convert::FromSpec<bool>>::from_spec(b) == (if b { 1u32 } else { 0 }),
{
}
#[verifier::external_body]
pub broadcast proof fn axiom_u32_from_bool_obeys()
    ensures #[trigger] <u32 as vstd::std_specs::convert::FromSpec<bool>>::obeys_from_spec(),
{
}
#[verifier::external_body]
pub broadcast proof fn axiom_u64_from_bool(b: bool)
    ensures #[trigger] <u64 as vstd::std_specs::convert::FromSpec<bool>>::from_spec(b) == (if b { 1u64 } else { 0 }),
{
}
#[verifier::external_body]
pub broadcast proof fn axiom_u64_from_bool_obeys()
    ensures #[trigger] <u64 as vstd::std_specs::convert::FromSpec<bool>>::obeys_from_spec(),
{
}
#[verifier::external_body]
pub broadcast proof fn axiom_usize_from_bool(b: bool)
    ensures #[trigger] <usize as vstd::std_specs::convert::FromSpec<bool>>::from_spec(b) == (if b { 1usize } else { 0 }),
{
}
#[verifier::external_body]
pub broadcast proof fn axiom_usize_from_bool_obeys()
    ensures #[trigger] <usize as vstd::std_specs::convert::FromSpec<bool>>::obeys_from_spec(),
{
}
// an allocation never exceeds isize::MAX bytes
#[verifier::external_body]
pub broadcast proof fn axiom_slice_len(a: &[u8])
    ensures
        #[trigger] a@.len() <= isize::MAX,
{
}

/// little endian 16-bit value at `o`
pub open spec fn rd16(b: Seq<u8>, o: int) -> u16 { (b[o] as u16) | ((b[o + 1] as u16) << 8) }
pub open spec fn rd24(b: Seq<u8>, o: int) -> int { b[o] as int + 256 * (b[o + 1] as int) + 65536 * (b[o + 2] as int) }
pub open spec fn rd32(b: Seq<u8>, o: int) -> u32 {
    (b[o] as u32) | ((b[o + 1] as u32) << 8) | ((b[o + 2] as u32) << 16) | ((b[o + 3] as u32) << 24)
}
pub open spec fn le24(x: int) -> Seq<u8> { seq![(x % 256) as u8, ((x / 256) % 256) as u8, ((x / 65536) % 256) as u8] }
pub open spec fn zeros(b: Seq<u8>, o: int, n: int) -> bool { forall|i: int| o <= i < o + n ==> b[i] == 0 }
/// some byte of the range that is there is not zero
pub open spec fn dirty(b: Seq<u8>, o: int, n: int) -> bool { exists|i: int| o <= i < o + n && i < b.len() && #[trigger] b[i] != 0 }
pub open spec fn zseq(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
/// the `count` bits starting at bit `off` of the 16-bit little endian value hi:lo
pub open spec fn bits_of(lo: u8, hi: u8, off: u8, count: u8) -> u8 {
    ((((lo as u16) | ((hi as u16) << 8u16)) >> (off as u16)) & (((1u16 << (count as u16)) - 1) as u16)) as u8
}


pub proof fn lemma_rd16(x: u16)
    ensures ((((x & 0xff) as u8) as u16) | (((((x >> 8) & 0xff) as u8) as u16) << 8)) == x,
{
    assert((((x & 0xff) as u8) as u16) | (((((x >> 8) & 0xff) as u8) as u16) << 8) == x) by (bit_vector);
}
pub proof fn lemma_rd32(x: u32)
    ensures
        ((((x & 0xff) as u8) as u32) | (((((x >> 8) & 0xff) as u8) as u32) << 8) | (((((x >> 16) & 0xff) as u8) as u32) << 16)
            | (((((x >> 24) & 0xff) as u8) as u32) << 24)) == x,
{
    assert((((x & 0xff) as u8) as u32) | (((((x >> 8) & 0xff) as u8) as u32) << 8) | (((((x >> 16) & 0xff) as u8) as u32) << 16)
            | (((((x >> 24) & 0xff) as u8) as u32) << 24) == x) by (bit_vector);
}
// what put_u16/put_u32 wrote is what get_u16/get_u32 read
pub proof fn rd16_of(b: Seq<u8>, o: int, x: u16)
    requires 0 <= o, o + 2 <= b.len(), b[o] == le16(x)[0], b[o + 1] == le16(x)[1],
    ensures rd16(b, o) == x,
{ lemma_rd16(x); }
pub proof fn rd32_of(b: Seq<u8>, o: int, x: u32)
    requires 0 <= o, o + 4 <= b.len(), b[o] == le32(x)[0], b[o + 1] == le32(x)[1], b[o + 2] == le32(x)[2], b[o + 3] == le32(x)[3],
    ensures rd32(b, o) == x,
{ lemma_rd32(x); }
// ---- facts on bits and byte sequences, for the retry of a proof that fails in changed code
pub proof fn hint()
    ensures
        forall|x: u8, y: u8| #[trigger] (x | y) == y | x,
        forall|x: u8, y: u8| #[trigger] (x & y) == y & x,
        forall|x: u8, y: u8| #[trigger] (x ^ y) == y ^ x,
        forall|x: u8| #[trigger] (x | 0) == x,
        forall|x: u8| #[trigger] (x ^ 0) == x,
        forall|x: u8| #[trigger] (x & 0) == 0,
        forall|x: u8| #[trigger] (x & 1) == x % 2,
        forall|x: u8| #[trigger] (x & 0xff) == x,
        forall|k: u8| k < 8 ==> #[trigger] (0u8 << k) == 0,
        forall|x: u8, k: u8| k < 8 ==> ((#[trigger] (x >> k)) & 1 == 1) == (x & (1u8 << k) != 0),
        forall|x: u8, k: u8| k < 8 ==> ((#[trigger] (x & (1u8 << k))) == 0 || x & (1u8 << k) == 1u8 << k),
        forall|x: u8| x != 0 ==> ((#[trigger] (x & sub(x, 1)) == 0) == (x > 0 && x & sub(x, 1) == 0)),
        forall|x: u16, y: u16| #[trigger] (x | y) == y | x,
        forall|x: u16, y: u16| #[trigger] (x & y) == y & x,
        forall|x: u16, y: u16| #[trigger] (x ^ y) == y ^ x,
        forall|x: u16| #[trigger] (x | 0) == x,
        forall|x: u16| #[trigger] (x ^ 0) == x,
        forall|x: u16| #[trigger] (x & 0) == 0,
        forall|x: u16| #[trigger] (x & 1) == x % 2,
        forall|x: u16| #[trigger] (x & 0xff) == x % 256,
        forall|k: u16| k < 16 ==> #[trigger] (0u16 << k) == 0,
        forall|x: u16, k: u16| k < 16 ==> ((#[trigger] (x >> k)) & 1 == 1) == (x & (1u16 << k) != 0),
        forall|x: u16, k: u16| k < 16 ==> ((#[trigger] (x & (1u16 << k))) == 0 || x & (1u16 << k) == 1u16 << k),
        forall|x: u16| x != 0 ==> ((#[trigger] (x & sub(x, 1)) == 0) == (x > 0 && x & sub(x, 1) == 0)),
        forall|x: u32, y: u32| #[trigger] (x | y) == y | x,
        forall|x: u32, y: u32| #[trigger] (x & y) == y & x,
        forall|x: u32, y: u32| #[trigger] (x ^ y) == y ^ x,
        forall|x: u32| #[trigger] (x | 0) == x,
        forall|x: u32| #[trigger] (x ^ 0) == x,
        forall|x: u32| #[trigger] (x & 0) == 0,
        forall|x: u32| #[trigger] (x & 1) == x % 2,
        forall|x: u32| #[trigger] (x & 0xff) == x % 256,
        forall|k: u32| k < 32 ==> #[trigger] (0u32 << k) == 0,
        forall|x: u32, k: u32| k < 32 ==> ((#[trigger] (x >> k)) & 1 == 1) == (x & (1u32 << k) != 0),
        forall|x: u32, k: u32| k < 32 ==> ((#[trigger] (x & (1u32 << k))) == 0 || x & (1u32 << k) == 1u32 << k),
        forall|x: u32| x != 0 ==> ((#[trigger] (x & sub(x, 1)) == 0) == (x > 0 && x & sub(x, 1) == 0)),
        forall|x: usize, y: usize| #[trigger] (x | y) == y | x,
        forall|x: usize, y: usize| #[trigger] (x & y) == y & x,
        forall|x: usize, y: usize| #[trigger] (x ^ y) == y ^ x,
        forall|x: usize| #[trigger] (x | 0) == x,
        forall|x: usize| #[trigger] (x ^ 0) == x,
        forall|x: usize| #[trigger] (x & 0) == 0,
        forall|x: usize| #[trigger] (x & 1) == x % 2,
        forall|x: usize| #[trigger] (x & 0xff) == x % 256,
        forall|x: u8| #[trigger] (x & 0x7f) == x % 128,
        forall|x: u8| #[trigger] (x & 0x0f) == x % 16,
        forall|x: u8| (#[trigger] (x & 0x80) == 0) == (x < 128),
        forall|x: u8| (#[trigger] (x & 0x80) == 0x80) == (x >= 128),
        forall|x: u8| x < 128 ==> #[trigger] (x | 0x80) == add(x, 0x80),
        forall|x: u8| x < 128 ==> #[trigger] (x ^ 0x80) == add(x, 0x80),
        forall|x: u8| #[trigger] (x >> 4u8) == x / 16,
        forall|x: u8| #[trigger] (x >> 7u8) == x / 128,
        forall|x: u8| x < 16 ==> #[trigger] (x << 4u8) == mul(x, 16),
        forall|x: u8| x < 2 ==> #[trigger] (x << 7u8) == mul(x, 128),
        forall|x: u8, y: u8| x < 16 ==> #[trigger] (x | (y << 4u8)) == add(x, y << 4u8),
        forall|h: u8, l: u8| #[trigger] ((h as u16) << 8 | (l as u16)) == add(mul(h as u16, 256), l as u16),
        forall|h: u8, l: u8| #[trigger] ((h as u32) << 8 | (l as u32)) == add(mul(h as u32, 256), l as u32),
        forall|h: u8, l: u8| #[trigger] ((h as usize) << 8 | (l as usize)) == add(mul(h as usize, 256), l as usize),
        forall|x: u16| #[trigger] (x >> 8u16) == x / 256,
        forall|x: u32| #[trigger] (x >> 8u32) == x / 256,
        forall|x: u32| #[trigger] (x >> 16u32) == x / 65536,
        forall|x: u32| #[trigger] (x >> 24u32) == x / 16777216,
        forall|x: usize| #[trigger] (x >> 8usize) == x / 256,
        1u8 << 0u8 == 1 && 1u8 << 1u8 == 2 && 1u8 << 2u8 == 4 && 1u8 << 3u8 == 8 && 1u8 << 4u8 == 16 && 1u8 << 5u8 == 32 && 1u8 << 6u8 == 64 && 1u8 << 7u8 == 128,
        1u16 << 0u16 == 1 && 1u16 << 1u16 == 2 && 1u16 << 2u16 == 4 && 1u16 << 3u16 == 8 && 1u16 << 4u16 == 16 && 1u16 << 5u16 == 32 && 1u16 << 6u16 == 64 && 1u16 << 7u16 == 128 && 1u16 << 8u16 == 256 && 1u16 << 9u16 == 512 && 1u16 << 10u16 == 1024 && 1u16 << 11u16 == 2048 && 1u16 << 12u16 == 4096 && 1u16 << 13u16 == 8192 && 1u16 << 14u16 == 16384 && 1u16 << 15u16 == 32768,
        1u32 << 0u32 == 1 && 1u32 << 1u32 == 2 && 1u32 << 2u32 == 4 && 1u32 << 3u32 == 8 && 1u32 << 4u32 == 16 && 1u32 << 5u32 == 32 && 1u32 << 6u32 == 64 && 1u32 << 7u32 == 128 && 1u32 << 8u32 == 256 && 1u32 << 9u32 == 512 && 1u32 << 10u32 == 1024 && 1u32 << 11u32 == 2048 && 1u32 << 12u32 == 4096 && 1u32 << 13u32 == 8192 && 1u32 << 14u32 == 16384 && 1u32 << 15u32 == 32768 && 1u32 << 16u32 == 65536 && 1u32 << 17u32 == 131072 && 1u32 << 18u32 == 262144 && 1u32 << 19u32 == 524288 && 1u32 << 20u32 == 1048576 && 1u32 << 21u32 == 2097152 && 1u32 << 22u32 == 4194304 && 1u32 << 23u32 == 8388608 && 1u32 << 24u32 == 16777216 && 1u32 << 25u32 == 33554432 && 1u32 << 26u32 == 67108864 && 1u32 << 27u32 == 134217728 && 1u32 << 28u32 == 268435456 && 1u32 << 29u32 == 536870912 && 1u32 << 30u32 == 1073741824 && 1u32 << 31u32 == 2147483648,
        forall|h: u16| h < 256 ==> #[trigger] (h << 8u16) == mul(h, 256),
        forall|h: u16| h < 256 ==> #[trigger] (h << 8i32) == mul(h, 256),
        forall|l: u16, h: u16| l < 256 && h < 256 ==> #[trigger] (l | (h << 8u16)) == add(l, h << 8u16),
        forall|l: u16, h: u16| l < 256 && h < 256 ==> #[trigger] (l | (h << 8i32)) == add(l, h << 8i32),
        forall|h: u32| h < 256 ==> #[trigger] (h << 8u32) == mul(h, 256),
        forall|h: u32| h < 256 ==> #[trigger] (h << 8i32) == mul(h, 256),
        forall|l: u32, h: u32| l < 256 && h < 256 ==> #[trigger] (l | (h << 8u32)) == add(l, h << 8u32),
        forall|l: u32, h: u32| l < 256 && h < 256 ==> #[trigger] (l | (h << 8i32)) == add(l, h << 8i32),
        forall|h: u32| h < 256 ==> #[trigger] (h << 16u32) == mul(h, 65536),
        forall|h: u32| h < 256 ==> #[trigger] (h << 16i32) == mul(h, 65536),
        forall|l: u32, h: u32| l < 65536 && h < 256 ==> #[trigger] (l | (h << 16u32)) == add(l, h << 16u32),
        forall|l: u32, h: u32| l < 65536 && h < 256 ==> #[trigger] (l | (h << 16i32)) == add(l, h << 16i32),
        forall|h: u32| h < 256 ==> #[trigger] (h << 24u32) == mul(h, 16777216),
        forall|h: u32| h < 256 ==> #[trigger] (h << 24i32) == mul(h, 16777216),
        forall|l: u32, h: u32| l < 16777216 && h < 256 ==> #[trigger] (l | (h << 24u32)) == add(l, h << 24u32),
        forall|l: u32, h: u32| l < 16777216 && h < 256 ==> #[trigger] (l | (h << 24i32)) == add(l, h << 24i32),
        forall|h: usize| h < 256 ==> #[trigger] (h << 8usize) == mul(h, 256),
        forall|h: usize| h < 256 ==> #[trigger] (h << 8i32) == mul(h, 256),
        forall|l: usize, h: usize| l < 256 && h < 256 ==> #[trigger] (l | (h << 8usize)) == add(l, h << 8usize),
        forall|l: usize, h: usize| l < 256 && h < 256 ==> #[trigger] (l | (h << 8i32)) == add(l, h << 8i32),
        forall|h: usize| h < 256 ==> #[trigger] (h << 16usize) == mul(h, 65536),
        forall|h: usize| h < 256 ==> #[trigger] (h << 16i32) == mul(h, 65536),
        forall|l: usize, h: usize| l < 65536 && h < 256 ==> #[trigger] (l | (h << 16usize)) == add(l, h << 16usize),
        forall|l: usize, h: usize| l < 65536 && h < 256 ==> #[trigger] (l | (h << 16i32)) == add(l, h << 16i32),
        forall|h: usize| h < 256 ==> #[trigger] (h << 24usize) == mul(h, 16777216),
        forall|h: usize| h < 256 ==> #[trigger] (h << 24i32) == mul(h, 16777216),
        forall|l: usize, h: usize| l < 16777216 && h < 256 ==> #[trigger] (l | (h << 24usize)) == add(l, h << 24usize),
        forall|l: usize, h: usize| l < 16777216 && h < 256 ==> #[trigger] (l | (h << 24i32)) == add(l, h << 24i32),
        forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] ((a + b) + c) == a + (b + c),
        forall|a: Seq<u8>| #[trigger] (a + Seq::<u8>::empty()) == a,
        forall|a: Seq<u8>| #[trigger] (Seq::<u8>::empty() + a) == a,
        forall|a: Seq<u8>, x: u8| #[trigger] a.push(x) == a + seq![x],
        forall|a: Seq<u8>, n: int| 0 <= n <= a.len() ==> #[trigger] a.take(n) == a.subrange(0, n),
        forall|a: Seq<u8>, n: int| 0 <= n <= a.len() ==> #[trigger] a.skip(n) == a.subrange(n, a.len() as int),
        forall|a: Seq<u8>| #[trigger] a.subrange(0, a.len() as int) == a,
{
    assert(forall|x: u8, y: u8| #[trigger] (x | y) == y | x) by (bit_vector);
    assert(forall|x: u8, y: u8| #[trigger] (x & y) == y & x) by (bit_vector);
    assert(forall|x: u8, y: u8| #[trigger] (x ^ y) == y ^ x) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x | 0) == x) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x ^ 0) == x) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 0) == 0) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 1) == x % 2) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 0xff) == x) by (bit_vector);
    assert(forall|k: u8| k < 8 ==> #[trigger] (0u8 << k) == 0) by (bit_vector);
    assert(forall|x: u8, k: u8| k < 8 ==> ((#[trigger] (x >> k)) & 1 == 1) == (x & (1u8 << k) != 0)) by (bit_vector);
    assert(forall|x: u8, k: u8| k < 8 ==> ((#[trigger] (x & (1u8 << k))) == 0 || x & (1u8 << k) == 1u8 << k)) by (bit_vector);
    assert(forall|x: u8| x != 0 ==> ((#[trigger] (x & sub(x, 1)) == 0) == (x > 0 && x & sub(x, 1) == 0))) by (bit_vector);
    assert(forall|x: u16, y: u16| #[trigger] (x | y) == y | x) by (bit_vector);
    assert(forall|x: u16, y: u16| #[trigger] (x & y) == y & x) by (bit_vector);
    assert(forall|x: u16, y: u16| #[trigger] (x ^ y) == y ^ x) by (bit_vector);
    assert(forall|x: u16| #[trigger] (x | 0) == x) by (bit_vector);
    assert(forall|x: u16| #[trigger] (x ^ 0) == x) by (bit_vector);
    assert(forall|x: u16| #[trigger] (x & 0) == 0) by (bit_vector);
    assert(forall|x: u16| #[trigger] (x & 1) == x % 2) by (bit_vector);
    assert(forall|x: u16| #[trigger] (x & 0xff) == x % 256) by (bit_vector);
    assert(forall|k: u16| k < 16 ==> #[trigger] (0u16 << k) == 0) by (bit_vector);
    assert(forall|x: u16, k: u16| k < 16 ==> ((#[trigger] (x >> k)) & 1 == 1) == (x & (1u16 << k) != 0)) by (bit_vector);
    assert(forall|x: u16, k: u16| k < 16 ==> ((#[trigger] (x & (1u16 << k))) == 0 || x & (1u16 << k) == 1u16 << k)) by (bit_vector);
    assert(forall|x: u16| x != 0 ==> ((#[trigger] (x & sub(x, 1)) == 0) == (x > 0 && x & sub(x, 1) == 0))) by (bit_vector);
    assert(forall|x: u32, y: u32| #[trigger] (x | y) == y | x) by (bit_vector);
    assert(forall|x: u32, y: u32| #[trigger] (x & y) == y & x) by (bit_vector);
    assert(forall|x: u32, y: u32| #[trigger] (x ^ y) == y ^ x) by (bit_vector);
    assert(forall|x: u32| #[trigger] (x | 0) == x) by (bit_vector);
    assert(forall|x: u32| #[trigger] (x ^ 0) == x) by (bit_vector);
    assert(forall|x: u32| #[trigger] (x & 0) == 0) by (bit_vector);
    assert(forall|x: u32| #[trigger] (x & 1) == x % 2) by (bit_vector);
    assert(forall|x: u32| #[trigger] (x & 0xff) == x % 256) by (bit_vector);
    assert(forall|k: u32| k < 32 ==> #[trigger] (0u32 << k) == 0) by (bit_vector);
    assert(forall|x: u32, k: u32| k < 32 ==> ((#[trigger] (x >> k)) & 1 == 1) == (x & (1u32 << k) != 0)) by (bit_vector);
    assert(forall|x: u32, k: u32| k < 32 ==> ((#[trigger] (x & (1u32 << k))) == 0 || x & (1u32 << k) == 1u32 << k)) by (bit_vector);
    assert(forall|x: u32| x != 0 ==> ((#[trigger] (x & sub(x, 1)) == 0) == (x > 0 && x & sub(x, 1) == 0))) by (bit_vector);
    assert(forall|x: usize, y: usize| #[trigger] (x | y) == y | x) by (bit_vector);
    assert(forall|x: usize, y: usize| #[trigger] (x & y) == y & x) by (bit_vector);
    assert(forall|x: usize, y: usize| #[trigger] (x ^ y) == y ^ x) by (bit_vector);
    assert(forall|x: usize| #[trigger] (x | 0) == x) by (bit_vector);
    assert(forall|x: usize| #[trigger] (x ^ 0) == x) by (bit_vector);
    assert(forall|x: usize| #[trigger] (x & 0) == 0) by (bit_vector);
    assert(forall|x: usize| #[trigger] (x & 1) == x % 2) by (bit_vector);
    assert(forall|x: usize| #[trigger] (x & 0xff) == x % 256) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 0x7f) == x % 128) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 0x0f) == x % 16) by (bit_vector);
    assert(forall|x: u8| (#[trigger] (x & 0x80) == 0) == (x < 128)) by (bit_vector);
    assert(forall|x: u8| (#[trigger] (x & 0x80) == 0x80) == (x >= 128)) by (bit_vector);
    assert(forall|x: u8| x < 128 ==> #[trigger] (x | 0x80) == add(x, 0x80)) by (bit_vector);
    assert(forall|x: u8| x < 128 ==> #[trigger] (x ^ 0x80) == add(x, 0x80)) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x >> 4u8) == x / 16) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x >> 7u8) == x / 128) by (bit_vector);
    assert(forall|x: u8| x < 16 ==> #[trigger] (x << 4u8) == mul(x, 16)) by (bit_vector);
    assert(forall|x: u8| x < 2 ==> #[trigger] (x << 7u8) == mul(x, 128)) by (bit_vector);
    assert(forall|x: u8, y: u8| x < 16 ==> #[trigger] (x | (y << 4u8)) == add(x, y << 4u8)) by (bit_vector);
    assert(forall|h: u8, l: u8| #[trigger] ((h as u16) << 8 | (l as u16)) == add(mul(h as u16, 256), l as u16)) by (bit_vector);
    assert(forall|h: u8, l: u8| #[trigger] ((h as u32) << 8 | (l as u32)) == add(mul(h as u32, 256), l as u32)) by (bit_vector);
    assert(forall|h: u8, l: u8| #[trigger] ((h as usize) << 8 | (l as usize)) == add(mul(h as usize, 256), l as usize)) by (bit_vector);
    assert(forall|x: u16| #[trigger] (x >> 8u16) == x / 256) by (bit_vector);
    assert(forall|x: u32| #[trigger] (x >> 8u32) == x / 256) by (bit_vector);
    assert(forall|x: u32| #[trigger] (x >> 16u32) == x / 65536) by (bit_vector);
    assert(forall|x: u32| #[trigger] (x >> 24u32) == x / 16777216) by (bit_vector);
    assert(forall|x: usize| #[trigger] (x >> 8usize) == x / 256) by (bit_vector);
    assert(1u8 << 0u8 == 1 && 1u8 << 1u8 == 2 && 1u8 << 2u8 == 4 && 1u8 << 3u8 == 8 && 1u8 << 4u8 == 16 && 1u8 << 5u8 == 32 && 1u8 << 6u8 == 64 && 1u8 << 7u8 == 128) by (bit_vector);
    assert(1u16 << 0u16 == 1 && 1u16 << 1u16 == 2 && 1u16 << 2u16 == 4 && 1u16 << 3u16 == 8 && 1u16 << 4u16 == 16 && 1u16 << 5u16 == 32 && 1u16 << 6u16 == 64 && 1u16 << 7u16 == 128 && 1u16 << 8u16 == 256 && 1u16 << 9u16 == 512 && 1u16 << 10u16 == 1024 && 1u16 << 11u16 == 2048 && 1u16 << 12u16 == 4096 && 1u16 << 13u16 == 8192 && 1u16 << 14u16 == 16384 && 1u16 << 15u16 == 32768) by (bit_vector);
    assert(1u32 << 0u32 == 1 && 1u32 << 1u32 == 2 && 1u32 << 2u32 == 4 && 1u32 << 3u32 == 8 && 1u32 << 4u32 == 16 && 1u32 << 5u32 == 32 && 1u32 << 6u32 == 64 && 1u32 << 7u32 == 128 && 1u32 << 8u32 == 256 && 1u32 << 9u32 == 512 && 1u32 << 10u32 == 1024 && 1u32 << 11u32 == 2048 && 1u32 << 12u32 == 4096 && 1u32 << 13u32 == 8192 && 1u32 << 14u32 == 16384 && 1u32 << 15u32 == 32768 && 1u32 << 16u32 == 65536 && 1u32 << 17u32 == 131072 && 1u32 << 18u32 == 262144 && 1u32 << 19u32 == 524288 && 1u32 << 20u32 == 1048576 && 1u32 << 21u32 == 2097152 && 1u32 << 22u32 == 4194304 && 1u32 << 23u32 == 8388608 && 1u32 << 24u32 == 16777216 && 1u32 << 25u32 == 33554432 && 1u32 << 26u32 == 67108864 && 1u32 << 27u32 == 134217728 && 1u32 << 28u32 == 268435456 && 1u32 << 29u32 == 536870912 && 1u32 << 30u32 == 1073741824 && 1u32 << 31u32 == 2147483648) by (bit_vector);
    assert(forall|h: u16| h < 256 ==> #[trigger] (h << 8u16) == mul(h, 256)) by (bit_vector);
    assert(forall|h: u16| h < 256 ==> #[trigger] (h << 8i32) == mul(h, 256)) by (bit_vector);
    assert(forall|l: u16, h: u16| l < 256 && h < 256 ==> #[trigger] (l | (h << 8u16)) == add(l, h << 8u16)) by (bit_vector);
    assert(forall|l: u16, h: u16| l < 256 && h < 256 ==> #[trigger] (l | (h << 8i32)) == add(l, h << 8i32)) by (bit_vector);
    assert(forall|h: u32| h < 256 ==> #[trigger] (h << 8u32) == mul(h, 256)) by (bit_vector);
    assert(forall|h: u32| h < 256 ==> #[trigger] (h << 8i32) == mul(h, 256)) by (bit_vector);
    assert(forall|l: u32, h: u32| l < 256 && h < 256 ==> #[trigger] (l | (h << 8u32)) == add(l, h << 8u32)) by (bit_vector);
    assert(forall|l: u32, h: u32| l < 256 && h < 256 ==> #[trigger] (l | (h << 8i32)) == add(l, h << 8i32)) by (bit_vector);
    assert(forall|h: u32| h < 256 ==> #[trigger] (h << 16u32) == mul(h, 65536)) by (bit_vector);
    assert(forall|h: u32| h < 256 ==> #[trigger] (h << 16i32) == mul(h, 65536)) by (bit_vector);
    assert(forall|l: u32, h: u32| l < 65536 && h < 256 ==> #[trigger] (l | (h << 16u32)) == add(l, h << 16u32)) by (bit_vector);
    assert(forall|l: u32, h: u32| l < 65536 && h < 256 ==> #[trigger] (l | (h << 16i32)) == add(l, h << 16i32)) by (bit_vector);
    assert(forall|h: u32| h < 256 ==> #[trigger] (h << 24u32) == mul(h, 16777216)) by (bit_vector);
    assert(forall|h: u32| h < 256 ==> #[trigger] (h << 24i32) == mul(h, 16777216)) by (bit_vector);
    assert(forall|l: u32, h: u32| l < 16777216 && h < 256 ==> #[trigger] (l | (h << 24u32)) == add(l, h << 24u32)) by (bit_vector);
    assert(forall|l: u32, h: u32| l < 16777216 && h < 256 ==> #[trigger] (l | (h << 24i32)) == add(l, h << 24i32)) by (bit_vector);
    assert(forall|h: usize| h < 256 ==> #[trigger] (h << 8usize) == mul(h, 256)) by (bit_vector);
    assert(forall|h: usize| h < 256 ==> #[trigger] (h << 8i32) == mul(h, 256)) by (bit_vector);
    assert(forall|l: usize, h: usize| l < 256 && h < 256 ==> #[trigger] (l | (h << 8usize)) == add(l, h << 8usize)) by (bit_vector);
    assert(forall|l: usize, h: usize| l < 256 && h < 256 ==> #[trigger] (l | (h << 8i32)) == add(l, h << 8i32)) by (bit_vector);
    assert(forall|h: usize| h < 256 ==> #[trigger] (h << 16usize) == mul(h, 65536)) by (bit_vector);
    assert(forall|h: usize| h < 256 ==> #[trigger] (h << 16i32) == mul(h, 65536)) by (bit_vector);
    assert(forall|l: usize, h: usize| l < 65536 && h < 256 ==> #[trigger] (l | (h << 16usize)) == add(l, h << 16usize)) by (bit_vector);
    assert(forall|l: usize, h: usize| l < 65536 && h < 256 ==> #[trigger] (l | (h << 16i32)) == add(l, h << 16i32)) by (bit_vector);
    assert(forall|h: usize| h < 256 ==> #[trigger] (h << 24usize) == mul(h, 16777216)) by (bit_vector);
    assert(forall|h: usize| h < 256 ==> #[trigger] (h << 24i32) == mul(h, 16777216)) by (bit_vector);
    assert(forall|l: usize, h: usize| l < 16777216 && h < 256 ==> #[trigger] (l | (h << 24usize)) == add(l, h << 24usize)) by (bit_vector);
    assert(forall|l: usize, h: usize| l < 16777216 && h < 256 ==> #[trigger] (l | (h << 24i32)) == add(l, h << 24i32)) by (bit_vector);
    assert(forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] ((a + b) + c) =~= a + (b + c));
    assert(forall|a: Seq<u8>| #[trigger] (a + Seq::<u8>::empty()) =~= a);
    assert(forall|a: Seq<u8>| #[trigger] (Seq::<u8>::empty() + a) =~= a);
    assert(forall|a: Seq<u8>, x: u8| #[trigger] a.push(x) =~= a + seq![x]);
    assert(forall|a: Seq<u8>, n: int| 0 <= n <= a.len() ==> #[trigger] a.take(n) =~= a.subrange(0, n));
    assert(forall|a: Seq<u8>, n: int| 0 <= n <= a.len() ==> #[trigger] a.skip(n) =~= a.subrange(n, a.len() as int));
    assert(forall|a: Seq<u8>| #[trigger] a.subrange(0, a.len() as int) =~= a);
}
// bit fields inside one byte
pub broadcast proof fn lemma_bits_0_4(a: u8) ensures #[trigger] bits_of(a, 0, 0, 4) == a & 15u8 {
    assert(((((a as u16) | ((0u8 as u16) << 8u16)) >> 0u16) & ((sub(1u16 << 4u16, 1u16)) as u16)) as u8 == a & 15u8) by (bit_vector);
    assert(1u16 << 4u16 == 16) by (bit_vector);
}
pub broadcast proof fn lemma_bits_4_4(a: u8) ensures #[trigger] bits_of(a, 0, 4, 4) == (a >> 4u8) & 15u8 {
    assert(((((a as u16) | ((0u8 as u16) << 8u16)) >> 4u16) & ((sub(1u16 << 4u16, 1u16)) as u16)) as u8 == (a >> 4u8) & 15u8) by (bit_vector);
    assert(1u16 << 4u16 == 16) by (bit_vector);
}
pub broadcast proof fn lemma_bits_0_1(a: u8) ensures #[trigger] bits_of(a, 0, 0, 1) == a & 1u8 {
    assert(((((a as u16) | ((0u8 as u16) << 8u16)) >> 0u16) & ((sub(1u16 << 1u16, 1u16)) as u16)) as u8 == a & 1u8) by (bit_vector);
    assert(1u16 << 1u16 == 2) by (bit_vector);
}
pub broadcast proof fn lemma_bits_1_1(a: u8) ensures #[trigger] bits_of(a, 0, 1, 1) == (a >> 1u8) & 1u8 {
    assert(((((a as u16) | ((0u8 as u16) << 8u16)) >> 1u16) & ((sub(1u16 << 1u16, 1u16)) as u16)) as u8 == (a >> 1u8) & 1u8) by (bit_vector);
    assert(1u16 << 1u16 == 2) by (bit_vector);
}
pub broadcast proof fn lemma_bits_2_6(a: u8) ensures #[trigger] bits_of(a, 0, 2, 6) == (a >> 2u8) & 63u8 {
    assert(((((a as u16) | ((0u8 as u16) << 8u16)) >> 2u16) & ((sub(1u16 << 6u16, 1u16)) as u16)) as u8 == (a >> 2u8) & 63u8) by (bit_vector);
    assert(1u16 << 6u16 == 64) by (bit_vector);
}
pub broadcast proof fn lemma_bits_4_3(a: u8) ensures #[trigger] bits_of(a, 0, 4, 3) == (a >> 4u8) & 7u8 {
    assert(((((a as u16) | ((0u8 as u16) << 8u16)) >> 4u16) & ((sub(1u16 << 3u16, 1u16)) as u16)) as u8 == (a >> 4u8) & 7u8) by (bit_vector);
    assert(1u16 << 3u16 == 8) by (bit_vector);
}
pub broadcast proof fn lemma_bits_7_1(a: u8) ensures #[trigger] bits_of(a, 0, 7, 1) == (a >> 7u8) & 1u8 {
    assert(((((a as u16) | ((0u8 as u16) << 8u16)) >> 7u16) & ((sub(1u16 << 1u16, 1u16)) as u16)) as u8 == (a >> 7u8) & 1u8) by (bit_vector);
    assert(1u16 << 1u16 == 2) by (bit_vector);
}
pub broadcast proof fn lemma_bits_4_2(a: u8) ensures #[trigger] bits_of(a, 0, 4, 2) == (a >> 4u8) & 3u8 {
    assert(((((a as u16) | ((0u8 as u16) << 8u16)) >> 4u16) & ((sub(1u16 << 2u16, 1u16)) as u16)) as u8 == (a >> 4u8) & 3u8) by (bit_vector);
    assert(1u16 << 2u16 == 4) by (bit_vector);
}
pub broadcast proof fn lemma_bits_6_2(a: u8) ensures #[trigger] bits_of(a, 0, 6, 2) == (a >> 6u8) & 3u8 {
    assert(((((a as u16) | ((0u8 as u16) << 8u16)) >> 6u16) & ((sub(1u16 << 2u16, 1u16)) as u16)) as u8 == (a >> 6u8) & 3u8) by (bit_vector);
    assert(1u16 << 2u16 == 4) by (bit_vector);
}

pub broadcast group group_vx {
    axiom_question_mark,
    axiom_slice_eq,
    axiom_slices_eq,
    axiom_array_eq_obeys,
    axiom_array_eq,
    axiom_usize_into,
    axiom_usize_into_obeys,
    axiom_slice_len,
    axiom_u8_from_bool,
    axiom_u8_from_bool_obeys,
    axiom_u16_from_bool,
    axiom_u16_from_bool_obeys,
    axiom_u32_from_bool,
    axiom_u32_from_bool_obeys,
    axiom_u64_from_bool,
    axiom_u64_from_bool_obeys,
    axiom_usize_from_bool,
    axiom_usize_from_bool_obeys,
    crate::ext::crypto::digest::axiom_bytes_of_slice,
    lemma_bits_0_4,
    lemma_bits_4_4,
    lemma_bits_0_1,
    lemma_bits_1_1,
    lemma_bits_2_6,
    lemma_bits_4_3,
    lemma_bits_7_1,
    lemma_bits_4_2,
    lemma_bits_6_2,
    axiom_array_try_into_obeys,
    axiom_array_try_into,
}
}
== dropped crypto::digest::Digest unused trait (nothing in the crate implements or calls it)
