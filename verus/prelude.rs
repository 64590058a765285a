// The specification vocabulary: what a byte stream, an encoding and a decoding are.
// Lines starting with `//A ` belong to pass A only (totality: what is documented not to panic does
// not panic), lines starting with `//B ` to pass B only (a panic is allowed to end the call, and the
// contract says when a call cannot return).

/// The outcome of decoding a value at the front of some bytes: too few bytes (a panic), a value and
/// the number of bytes it took, or an error.
pub enum D<V, E> { Panics, Ok(V, nat), Err(E) }

/// The abstract value of a concrete one.
pub trait Val { type V; spec fn val(&self) -> Self::V; }

impl<'a> Input<'a> {
    pub open spec fn wf(&self) -> bool { self.pos <= self.buf@.len() }
    pub open spec fn rest(&self) -> Seq<u8> { self.buf@.skip(self.pos as int) }
}

impl<'a> Output<'a> {
    pub open spec fn wf(&self) -> bool { self.pos <= self.buf@.len() }
    pub open spec fn written(&self) -> Seq<u8> { self.buf@.take(self.pos as int) }
    pub open spec fn unwritten(&self) -> Seq<u8> { self.buf@.skip(self.pos as int) }
    pub open spec fn all(&self) -> Seq<u8> { self.buf@ }
    pub open spec fn room(&self) -> int { self.buf@.len() - self.pos }
}

/// `to` is `from` after exactly `bytes` were written: they follow what was written, and everything
/// beyond them is as it was; the underlying buffer is still the same one.
#[verifier::prophetic]
pub open spec fn appended(from: Output, to: Output, bytes: Seq<u8>) -> bool {
    &&& to.wf() && to.all().len() == from.all().len() && to.pos == from.pos + bytes.len()
    &&& to.written() =~= from.written() + bytes
    &&& forall|i: int| to.pos <= i < to.all().len() ==> #[trigger] to.all()[i] == from.all()[i]
    &&& final(to.buf)@ == final(from.buf)@
}
pub mod vf_seq {
use vstd::prelude::*;
pub open spec fn somes<T>(s: Seq<T>) -> Seq<Option<T>> { Seq::new(s.len(), |i: int| Some(s[i])) }
pub open spec fn vals_of<T>(s: Seq<Option<T>>, from: int, n: int) -> Seq<T> { Seq::new(n as nat, |i: int| s[from + i]->0) }
pub broadcast proof fn vals_of_somes<T>(s: Seq<T>, from: int, n: int)
    requires 0 <= from, 0 <= n, from + n <= s.len()
    ensures (#[trigger] vals_of(somes(s), from, n)) == s.subrange(from, from + n), from == 0 && n == s.len() ==> vals_of(somes(s), from, n) == s
{ assert(vals_of(somes(s), from, n) =~= s.subrange(from, from + n)); assert(s.subrange(0, s.len() as int) =~= s); }
pub broadcast proof fn seq_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn seq_empty(a: Seq<u8>)
    ensures #[trigger] (a + Seq::<u8>::empty()) == a, #[trigger] (Seq::<u8>::empty() + a) == a
{ assert(a + Seq::<u8>::empty() =~= a); assert(Seq::<u8>::empty() + a =~= a); }
pub broadcast proof fn seq_skip_add(a: Seq<u8>, b: Seq<u8>)
    ensures #[trigger] (a + b).skip(a.len() as int) == b
{ assert((a + b).skip(a.len() as int) =~= b); }
}
pub use vf_seq::*;
broadcast use {vf_seq::seq_assoc, vf_seq::seq_empty, vf_seq::vals_of_somes};
pub use vf_seq::{somes, vals_of};

/// `to` is `from` after exactly `n` bytes were read.
pub open spec fn advanced(from: Input, to: Input, n: nat) -> bool {
    to.wf() && to.buf@ == from.buf@ && to.pos == from.pos + n && to.rest() =~= from.rest().skip(n as int)
}

pub trait Encode {
    type Error;
    /// what is written (on failure: before the failing part gave up)
    spec fn emit(&self) -> Seq<u8>;
    spec fn ok(&self) -> bool;
    spec fn err(&self) -> Self::Error;
    fn encode(&self, output: &mut Output) -> (r: Result<(), Self::Error>)
        requires old(output).wf(),
//A         old(output).room() >= self.emit().len(),
        ensures appended(*old(output), *final(output), self.emit()),
            r is Ok <==> self.ok(), r is Err ==> r->Err_0 == self.err();
}

pub trait SizedEncode: Encode + Sized {
    spec fn msize() -> nat;
    fn vf_max() -> (r: usize)
        ensures r == Self::msize();
    proof fn fits(&self) ensures self.emit().len() <= Self::msize();
}

pub trait Decode: Sized + Val {
    type Error;
    spec fn dec(b: Seq<u8>) -> D<Self::V, Self::Error>;
    fn decode(input: &mut Input) -> (r: Result<Self, Self::Error>)
        requires old(input).wf(),
//A         !(Self::dec(old(input).rest()) is Panics),
        ensures final(input).wf(), final(input).buf@ == old(input).buf@,
            match Self::dec(old(input).rest()) {
                D::Panics => false,
                D::Ok(v, n) => r is Ok && r->Ok_0.val() == v && n <= old(input).rest().len() && advanced(*old(input), *final(input), n),
                D::Err(e) => r is Err && r->Err_0 == e,
            };
}

/// The round trip, as a lemma over the contracts of `encode` and `decode`.
pub trait RoundTrip: Encode + Decode {
    proof fn round_trip(&self, rest: Seq<u8>)
        requires self.ok(),
        ensures Self::dec(self.emit() + rest) == D::<Self::V, <Self as Decode>::Error>::Ok(self.val(), self.emit().len());
}

// ---------------------------------------------------------------- exits

#[verifier::external_body]
pub fn vf_panic() -> !
//A     requires false,
{ panic!() }

#[verifier::external_body]
pub unsafe fn vf_unreachable() -> !
    requires false,
{ unsafe { core::hint::unreachable_unchecked() } }

pub trait VfUnwrap<T>: Sized {
    spec fn vf_has(self) -> bool;
    spec fn vf_get(self) -> T;
    fn vf_unwrap(self) -> (r: T)
//A         requires self.vf_has(),
        ensures self.vf_has(), r == self.vf_get();
    fn vf_expect(self, message: &str) -> (r: T)
//A         requires self.vf_has(),
        ensures self.vf_has(), r == self.vf_get();
}
impl<T, E> VfUnwrap<T> for Result<T, E> {
    open spec fn vf_has(self) -> bool { self is Ok }
    open spec fn vf_get(self) -> T { self->Ok_0 }
    #[verifier::external_body]
    fn vf_unwrap(self) -> T { match self { Ok(v) => v, Err(_) => panic!() } }
    #[verifier::external_body]
    fn vf_expect(self, message: &str) -> T { match self { Ok(v) => v, Err(_) => panic!() } }
}
impl<T> VfUnwrap<T> for Option<T> {
    open spec fn vf_has(self) -> bool { self is Some }
    open spec fn vf_get(self) -> T { self->Some_0 }
    #[verifier::external_body]
    fn vf_unwrap(self) -> T { match self { Some(v) => v, None => panic!() } }
    #[verifier::external_body]
    fn vf_expect(self, message: &str) -> T { match self { Some(v) => v, None => panic!() } }
}

// ---------------------------------------------------------------- memory (rule E3)

/// The source of a copy: what its places hold.
pub trait VfSrc<T> { spec fn src(&self) -> Seq<Option<T>>; }
impl<'a, T: Copy> VfSrc<T> for &'a [T] { open spec fn src(&self) -> Seq<Option<T>> { somes((*self)@) } }
impl<'a, T: Copy> VfSrc<T> for &'a mut [T] { open spec fn src(&self) -> Seq<Option<T>> { somes((*self)@) } }
impl<T: Copy, const N: usize> VfSrc<T> for [T; N] { open spec fn src(&self) -> Seq<Option<T>> { somes(self@) } }
impl<T: Copy> VfSrc<T> for Vec<T> { open spec fn src(&self) -> Seq<Option<T>> { somes(self@) } }
impl<T, const N: usize> VfSrc<T> for [MaybeUninit<T>; N] { open spec fn src(&self) -> Seq<Option<T>> { self@.map_values(|x: MaybeUninit<T>| mu(x)) } }
pub open spec fn full<T>(s: Seq<Option<T>>, from: int, n: int) -> bool { forall|i: int| from <= i < from + n ==> (#[trigger] s[i]) is Some }
/// The destination of a copy.
pub trait VfDst<T> {
    spec fn can(&self, at: int, src: Seq<Option<T>>, from: int, n: int) -> bool;
    spec fn did(from_: &Self, to: &Self, at: int, src: Seq<Option<T>>, from: int, n: int) -> bool;
    /// `copy_nonoverlapping(src + from, self + at, n)`
    unsafe fn vf_copy_in<S: VfSrc<T>>(&mut self, at: usize, src: &S, from: usize, n: usize)
        requires from + n <= src.src().len(), old(self).can(at as int, src.src(), from as int, n as int),
        ensures Self::did(old(self), final(self), at as int, src.src(), from as int, n as int);
}
impl VfDst<u8> for [u8] {
    open spec fn can(&self, at: int, src: Seq<Option<u8>>, from: int, n: int) -> bool { at + n <= self@.len() && full(src, from, n) }
    open spec fn did(from_: &Self, to: &Self, at: int, src: Seq<Option<u8>>, from: int, n: int) -> bool {
        to@.len() == from_@.len() && forall|i: int| 0 <= i < to@.len() ==> #[trigger] to@[i] == if at <= i < at + n { src[from + i - at]->0 } else { from_@[i] }
    }
    #[verifier::external_body] unsafe fn vf_copy_in<S: VfSrc<u8>>(&mut self, at: usize, src: &S, from: usize, n: usize) { unimplemented!() }
}

pub trait VfSub<T> {
    spec fn vf_all(&self) -> Seq<T>;
    /// `from_raw_parts(self + at, n)`
    fn vf_sub(&self, at: usize, n: usize) -> (r: &[T])
        requires at + n <= self.vf_all().len(),
        ensures r@ == self.vf_all().subrange(at as int, at + n);
}
impl<T> VfSub<T> for [T] {
    open spec fn vf_all(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vf_sub(&self, at: usize, n: usize) -> &[T] { &self[at..at + n] }
}

pub assume_specification [usize::unchecked_sub](x: usize, y: usize) -> (r: usize)
    requires x >= y,
    ensures r == x - y;
