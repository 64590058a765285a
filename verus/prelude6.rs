// ---------------------------------------------------------------- comparing and hashing

use core::cmp::Ordering;
use core::hash::Hasher;

#[verifier::external_trait_specification] pub trait ExHasher { type ExternalTraitSpecificationFor: Hasher; }

/// What `==`, `partial_cmp` and `cmp` say of two elements.
pub uninterp spec fn eq_of<T: PartialEq<U> + ?Sized, U: ?Sized>(a: &T, b: &U) -> bool;
pub uninterp spec fn pcmp_of<T: PartialOrd<U> + ?Sized, U: ?Sized>(a: &T, b: &U) -> Option<Ordering>;
pub uninterp spec fn cmp_of<T: Ord + ?Sized>(a: &T, b: &T) -> Ordering;
/// A hasher that has been fed a value.
pub uninterp spec fn fed<T: Hash + ?Sized, H: Hasher>(t: &T, h: H) -> H;

/// Slices are equal where they are as long and equal element by element; they are ordered as words are.
pub open spec fn seq_eq<T: PartialEq<U>, U>(a: Seq<T>, b: Seq<U>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> eq_of::<T, U>(#[trigger] &a[i], &b[i]) }
pub open spec fn seq_pcmp<T: PartialOrd>(a: Seq<T>, b: Seq<T>) -> Option<Ordering> decreases a.len() {
    if a.len() == 0 || b.len() == 0 { Some(int_cmp(a.len() as int, b.len() as int)) }
    else { match pcmp_of(&a[0], &b[0]) { Some(Ordering::Equal) => seq_pcmp(a.drop_first(), b.drop_first()), c => c } }
}
pub open spec fn seq_cmp<T: Ord>(a: Seq<T>, b: Seq<T>) -> Ordering decreases a.len() {
    if a.len() == 0 || b.len() == 0 { int_cmp(a.len() as int, b.len() as int) }
    else { match cmp_of(&a[0], &b[0]) { Ordering::Equal => seq_cmp(a.drop_first(), b.drop_first()), c => c } }
}
pub open spec fn int_cmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
/// Text is ordered by its bytes.
pub open spec fn byte_cmp(a: Seq<u8>, b: Seq<u8>) -> Ordering decreases a.len() {
    if a.len() == 0 || b.len() == 0 || a[0] != b[0] { if a.len() > 0 && b.len() > 0 { int_cmp(a[0] as int, b[0] as int) } else { int_cmp(a.len() as int, b.len() as int) } }
    else { byte_cmp(a.drop_first(), b.drop_first()) }
}

pub trait VfEq<R: ?Sized> { spec fn eq_spec(&self, o: &R) -> bool; fn vf_eq(&self, o: &R) -> (r: bool) ensures r == self.eq_spec(o); }
impl<T: PartialEq<U>, U> VfEq<[U]> for [T] {
    open spec fn eq_spec(&self, o: &[U]) -> bool { seq_eq(self@, o@) }
    #[verifier::external_body] fn vf_eq(&self, o: &[U]) -> bool { self == o }
}
impl<T: PartialEq<U>, U, const M: usize> VfEq<[U; M]> for [T] {
    open spec fn eq_spec(&self, o: &[U; M]) -> bool { seq_eq(self@, o@) }
    #[verifier::external_body] fn vf_eq(&self, o: &[U; M]) -> bool { self == o }
}
impl VfEq<str> for str {
    open spec fn eq_spec(&self, o: &str) -> bool { self@ == o@ }
    #[verifier::external_body] fn vf_eq(&self, o: &str) -> bool { self == o }
}
pub trait VfCmp {
    spec fn cmp_spec(&self, o: &Self) -> Ordering;
    fn vf_cmp(&self, o: &Self) -> (r: Ordering) ensures r == self.cmp_spec(o);
}
pub trait VfPartialCmp {
    spec fn pcmp_spec(&self, o: &Self) -> Option<Ordering>;
    fn vf_partial_cmp(&self, o: &Self) -> (r: Option<Ordering>) ensures r == self.pcmp_spec(o);
}
impl<T: Ord> VfCmp for [T] {
    open spec fn cmp_spec(&self, o: &[T]) -> Ordering { seq_cmp(self@, o@) }
    #[verifier::external_body] fn vf_cmp(&self, o: &[T]) -> Ordering { self.cmp(o) }
}
impl<T: PartialOrd> VfPartialCmp for [T] {
    open spec fn pcmp_spec(&self, o: &[T]) -> Option<Ordering> { seq_pcmp(self@, o@) }
    #[verifier::external_body] fn vf_partial_cmp(&self, o: &[T]) -> Option<Ordering> { self.partial_cmp(o) }
}
impl VfCmp for str {
    open spec fn cmp_spec(&self, o: &str) -> Ordering { byte_cmp(encode_utf8(self@), encode_utf8(o@)) }
    #[verifier::external_body] fn vf_cmp(&self, o: &str) -> Ordering { self.cmp(o) }
}
impl VfPartialCmp for str {
    open spec fn pcmp_spec(&self, o: &str) -> Option<Ordering> { Some(byte_cmp(encode_utf8(self@), encode_utf8(o@))) }
    #[verifier::external_body] fn vf_partial_cmp(&self, o: &str) -> Option<Ordering> { self.partial_cmp(o) }
}
pub trait VfFeed: Hash {
    spec fn fed<H: Hasher>(&self, h: H) -> H;
    fn vf_hash<H: Hasher>(&self, state: &mut H) ensures *final(state) == self.fed(*old(state));
}
/// What a hasher becomes that is fed a slice or a text.
pub uninterp spec fn fed_seq<T: Hash, H: Hasher>(s: Seq<T>, h: H) -> H;
pub uninterp spec fn fed_text<H: Hasher>(s: Seq<char>, h: H) -> H;
impl<T: Hash> VfFeed for [T] {
    open spec fn fed<H: Hasher>(&self, h: H) -> H { fed_seq(self@, h) }
    #[verifier::external_body] fn vf_hash<H: Hasher>(&self, state: &mut H) { self.hash(state) }
}
impl VfFeed for str {
    open spec fn fed<H: Hasher>(&self, h: H) -> H { fed_text(self@, h) }
    #[verifier::external_body] fn vf_hash<H: Hasher>(&self, state: &mut H) { self.hash(state) }
}

/// The traits themselves, without the standard library's own specification of them.
pub trait VfPartialEq<R: ?Sized> { fn eq(&self, other: &R) -> bool; }
pub trait VfPartialOrd<R: ?Sized> { fn partial_cmp(&self, other: &R) -> Option<Ordering>; }
pub trait VfOrd { fn cmp(&self, other: &Self) -> Ordering; }
pub trait VfHash { fn hash<H: Hasher>(&self, state: &mut H); }

// ---------------------------------------------------------------- drawing from an iterator

/// What an iterator yields next, and what it is after that (it is taken to be a function of its state).
pub uninterp spec fn yields<I: Iterator>(i: I) -> Option<I::Item>;
pub uninterp spec fn beyond<I: Iterator>(i: I) -> I;
pub uninterp spec fn iter_of<I: IntoIterator>(i: I) -> I::IntoIter;
#[verifier::external_body] pub fn vf_next<I: Iterator>(i: &mut I) -> (r: Option<I::Item>) ensures r == yields(*old(i)), *final(i) == beyond(*old(i)) { i.next() }
#[verifier::external_body] pub fn vf_into_iter<I: IntoIterator>(i: I) -> (r: I::IntoIter) ensures r == iter_of(i) { i.into_iter() }
/// The first `k` items, or as many as there are.
pub open spec fn drawn<I: Iterator>(i: I, k: nat) -> Seq<I::Item> decreases k {
    if k == 0 { Seq::empty() } else { match yields(i) { None => Seq::empty(), Some(x) => seq![x] + drawn(beyond(i), (k - 1) as nat) } }
}
pub trait VfFromIterator<A>: Sized { fn from_iter<I: IntoIterator<Item = A>>(iter: I) -> Self; }
#[verifier::external_body] pub broadcast proof fn eq_u8(a: &u8, b: &u8) ensures (#[trigger] eq_of::<u8, u8>(a, b)) == (*a == *b) {}
pub broadcast proof fn seq_eq_u8(a: Seq<u8>, b: Seq<u8>) ensures (#[trigger] seq_eq::<u8, u8>(a, b)) == (a == b) {
    broadcast use eq_u8;
    if seq_eq::<u8, u8>(a, b) { assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(eq_of::<u8, u8>(&a[i], &b[i])); } assert(a =~= b); }
}

// ---------------------------------------------------------------- characters
pub assume_specification<'a> [char::encode_utf8](c: char, b: &'a mut [u8]) -> (r: &'a mut str)
    requires encode_utf8(seq![c]).len() <= old(b)@.len()
    ensures r@ == seq![c], final(r)@ == seq![c] ==> final(b)@ == encode_utf8(seq![c]) + old(b)@.skip(encode_utf8(seq![c]).len() as int);
pub proof fn one_char(c: char) ensures encode_utf8(seq![c]) == vstd::utf8::encode_scalar(c as u32), 1 <= encode_utf8(seq![c]).len() <= 4 {
    assert(seq![c].drop_first() =~= Seq::empty());
    reveal_with_fuel(encode_utf8, 3);
    assert(encode_utf8(seq![c]) =~= vstd::utf8::encode_scalar(c as u32));
}
/// The characters an iterator yields, up to the first that does not fit into what is left of `room` bytes.
pub open spec fn fitted<I: Iterator<Item = char>>(i: I, room: nat) -> Seq<char> decreases room {
    match yields(i) { None => Seq::empty(), Some(c) => if 0 < encode_utf8(seq![c]).len() <= room { seq![c] + fitted(beyond(i), (room - encode_utf8(seq![c]).len()) as nat) } else { Seq::empty() } }
}

// ---------------------------------------------------------------- lazy values
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(F)] pub struct ExLazyCell<T, F>(LazyCell<T, F>);
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(F)] pub struct ExLazyLock<T, F>(LazyLock<T, F>);
/// The value a lazy cell holds once it has been asked for.
pub uninterp spec fn forced<C, T>(c: &C) -> &T;
pub assume_specification<'x, T, F: FnOnce() -> T> [<LazyCell<T, F> as core::ops::Deref>::deref](c: &'x LazyCell<T, F>) -> (r: &'x T) ensures r == forced::<LazyCell<T, F>, T>(c);
pub assume_specification<'x, T, F: FnOnce() -> T> [<LazyLock<T, F> as core::ops::Deref>::deref](c: &'x LazyLock<T, F>) -> (r: &'x T) ensures r == forced::<LazyLock<T, F>, T>(c);

// ---------------------------------------------------------------- derived implementations
/// `Into::into` where the bound is left out.
#[verifier::external_body] pub fn vf_conv<A, B>(a: A) -> (r: B) ensures r == into_of::<A, B>(a) { unimplemented!() }

// ---------------------------------------------------------------- indexing and iteration by reference
pub trait VfIndex<I> {
    type Output: ?Sized;
    spec fn vf_in(&self, index: I) -> bool;
    fn index(&self, index: I) -> &Self::Output
//A         requires self.vf_in(index)
    ;
}
pub trait VfIndexMut<I>: VfIndex<I> {
    spec fn vf_in_mut(&self, index: I) -> bool;
    fn index_mut(&mut self, index: I) -> &mut Self::Output
//A         requires old(self).vf_in_mut(index)
    ;
}
pub assume_specification<I: SliceIndex<str>> [str::get::<I>](s: &str, i: I) -> (r: Option<&<I as SliceIndex<str>>::Output>)
    ensures match r { Some(x) => i.in_bounds(s) && i.index_postcondition(s, x), None => !i.in_bounds(s) };
pub assume_specification<I: SliceIndex<str>> [str::get_mut::<I>](s: &mut str, i: I) -> (r: Option<&mut <I as SliceIndex<str>>::Output>)
    ensures match r { Some(x) => i.in_bounds(old(s)) && i.index_mut_postcondition(old(s), final(s), x, final(x)), None => !i.in_bounds(old(s)) && final(s)@ == old(s)@ };
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExCharIndices<'a>(std::str::CharIndices<'a>);
pub uninterp spec fn indices_text(c: std::str::CharIndices) -> Seq<char>;
pub assume_specification [str::char_indices](s: &str) -> (r: std::str::CharIndices<'_>) ensures indices_text(r) == s@;

// ---------------------------------------------------------------- mutable references to the places of a buffer, each handed out once (rule E3)
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct VfLent<'a, T>(Vec<Option<&'a mut MaybeUninit<T>>>);
impl<'a, T> VfLent<'a, T> {
    pub uninterp spec fn rest(&self) -> Seq<Option<&'a mut MaybeUninit<T>>>;
    #[verifier::external_body]
    pub fn vf_take(&mut self, i: usize) -> (r: &'a mut T)
        requires i < old(self).rest().len(), old(self).rest()[i as int] is Some, mu(*old(self).rest()[i as int]->0) is Some,
        ensures final(self).rest() == old(self).rest().update(i as int, None),
            Some(*r) == mu(*old(self).rest()[i as int]->0), mu(*final(old(self).rest()[i as int]->0)) == Some(*final(r)),
    { unsafe { self.0[i].take().unwrap().assume_init_mut() } }
}
#[verifier::external_body]
pub fn vf_lend<'a, T, const N: usize>(b: &'a mut [MaybeUninit<T>; N]) -> (r: VfLent<'a, T>)
    ensures r.rest().len() == N, final(b)@.len() == N,
        forall|i: int| #![trigger r.rest()[i]] #![trigger final(b)@[i]] 0 <= i < N ==> r.rest()[i] is Some && *(r.rest()[i]->0) == old(b)@[i] && final(b)@[i] == *final(r.rest()[i]->0),
{ VfLent(b.iter_mut().map(Some).collect()) }

// ---------------------------------------------------------------- owned memory behind a raw pointer: the caller says what is there
pub uninterp spec fn raw_parts<T>(p: *mut [T]) -> (*mut T, usize);
pub uninterp spec fn owned_at<T>(p: *mut T, n: usize) -> Seq<T>;
pub assume_specification<T> [core::ptr::slice_from_raw_parts_mut::<T>](p: *mut T, n: usize) -> (r: *mut [T]) ensures raw_parts(r) == (p, n);
#[verifier::external_body]
pub unsafe fn vf_box_from_raw<T>(p: *mut [T]) -> (r: Box<[T]>) ensures r@.len() == raw_parts(p).1, r@ == owned_at(raw_parts(p).0, raw_parts(p).1) { unsafe { Box::from_raw(p) } }

// ---------------------------------------------------------------- formatting
/// What formatting a value with this view does to a formatter, and whether it succeeds: as `Debug` or `Display`, with the formatter's options or (`plain`) none.
pub uninterp spec fn shown<V>(v: V, debug: bool, plain: bool, f: Formatter) -> (Formatter, bool);
pub trait VfShow { type V; spec fn vf_face(&self) -> Self::V; }
impl VfShow for str { type V = Seq<char>; open spec fn vf_face(&self) -> Seq<char> { self@ } }
impl<T> VfShow for [T] { type V = Seq<T>; open spec fn vf_face(&self) -> Seq<T> { self@ } }
#[verifier::external_body]
pub fn vf_show<S: VfShow + ?Sized>(s: &S, f: &mut Formatter, debug: bool, plain: bool) -> (r: core::fmt::Result)
    ensures (*final(f), r is Ok) == shown(s.vf_face(), debug, plain, *old(f))
{ unimplemented!() }
pub trait VfDebug {
    type Of;
    spec fn vf_debug(&self) -> Self::Of;
    spec fn vf_debug_plain() -> bool;
    fn fmt(&self, f: &mut Formatter) -> (r: core::fmt::Result) ensures (*final(f), r is Ok) == shown(self.vf_debug(), true, Self::vf_debug_plain(), *old(f));
}
pub trait VfDisplay {
    type Of;
    spec fn vf_display(&self) -> Self::Of;
    spec fn vf_display_plain() -> bool;
    fn fmt(&self, f: &mut Formatter) -> (r: core::fmt::Result) ensures (*final(f), r is Ok) == shown(self.vf_display(), false, Self::vf_display_plain(), *old(f));
}

// ---------------------------------------------------------------- causes of errors
/// An error as a trait object: which error it shows is all that is known of it.
#[verifier::external_body] pub struct VfDyn<'a>(&'a dyn std::error::Error);
pub uninterp spec fn dyn_of<E>(e: E) -> VfDyn<'static>;
#[verifier::external_body] pub fn vf_dyn<E>(e: &E) -> (r: VfDyn<'static>) ensures r == dyn_of(*e) { unimplemented!() }
pub trait VfError { spec fn vf_cause(&self) -> Option<VfDyn<'static>>; fn source(&self) -> (r: Option<VfDyn<'static>>) ensures r == self.vf_cause(); }
