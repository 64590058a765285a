// ---------------------------------------------------------------- bounded buffers

/// What `n` places from `a` on hold, and that they all hold something.
pub open spec fn win<T>(s: Seq<MaybeUninit<T>>, a: int, n: int) -> Seq<T> { Seq::new(n as nat, |i: int| mu(s[a + i])->0) }
pub open spec fn inits<T>(s: Seq<MaybeUninit<T>>, a: int, n: int) -> bool { forall|i: int| a <= i < a + n ==> (#[trigger] mu(s[i])) is Some }
pub open spec fn all_cloned<T: Clone>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> cloned(#[trigger] a[i], b[i]) }

/// Any value will do for an array of possibly uninitialised places.
pub trait VfGarbage: Sized { unsafe fn vf_garbage() -> Self; }
impl<T, const N: usize> VfGarbage for [MaybeUninit<T>; N] { #[verifier::external_body] unsafe fn vf_garbage() -> Self { [const { MaybeUninit::uninit() }; N] } }
pub unsafe fn vf_garbage<A: VfGarbage>() -> A { unsafe { A::vf_garbage() } }

/// References into initialised places (rule E3).
pub trait VfView<T> {
    spec fn places(&self) -> Seq<MaybeUninit<T>>;
    /// nothing but the places differs
    spec fn same(from: &Self, to: &Self) -> bool;
    /// `from_raw_parts(self + a, n)`
    unsafe fn vf_sub(&self, a: usize, n: usize) -> (r: &[T])
        requires a + n <= self.places().len(), inits(self.places(), a as int, n as int),
        ensures r@ == win(self.places(), a as int, n as int);
    unsafe fn vf_sub_mut(&mut self, a: usize, n: usize) -> (r: &mut [T])
        requires a + n <= old(self).places().len(), inits(old(self).places(), a as int, n as int),
        ensures r@ == win(old(self).places(), a as int, n as int), Self::same(old(self), final(self)),
            final(r)@.len() == n ==> final(self).places().len() == old(self).places().len() && inits(final(self).places(), a as int, n as int) && win(final(self).places(), a as int, n as int) == final(r)@,
            forall|i: int| 0 <= i < old(self).places().len() && !(a <= i < a + n) ==> #[trigger] final(self).places()[i] == old(self).places()[i];
    /// `&*(self + i)`
    unsafe fn vf_at(&self, i: usize) -> (r: &T)
        requires i < self.places().len(), mu(self.places()[i as int]) is Some,
        ensures Some(*r) == mu(self.places()[i as int]);
}
impl<T, const N: usize> VfView<T> for [MaybeUninit<T>; N] {
    open spec fn places(&self) -> Seq<MaybeUninit<T>> { self@ }
    open spec fn same(from: &Self, to: &Self) -> bool { true }
    #[verifier::external_body] unsafe fn vf_sub(&self, a: usize, n: usize) -> &[T] { unsafe { core::slice::from_raw_parts(self.as_ptr().add(a).cast(), n) } }
    #[verifier::external_body] unsafe fn vf_sub_mut(&mut self, a: usize, n: usize) -> &mut [T] { unsafe { core::slice::from_raw_parts_mut(self.as_mut_ptr().add(a).cast(), n) } }
    #[verifier::external_body] unsafe fn vf_at(&self, i: usize) -> &T { unsafe { self[i].assume_init_ref() } }
}
/// The same bytes at another type (rule E3).
pub trait VfReadPlaces<T, const N: usize> {
    spec fn vf_read(&self) -> Seq<Option<T>>;
    unsafe fn vf_read_places(&self) -> (r: [MaybeUninit<T>; N])
        ensures self.vf_read().len() == N, forall|i: int| 0 <= i < N ==> mu(#[trigger] r@[i]) == self.vf_read()[i];
}
impl<T, const N: usize> VfReadPlaces<T, N> for [MaybeUninit<T>; N] {
    open spec fn vf_read(&self) -> Seq<Option<T>> { self@.map_values(|x| mu(x)) }
    #[verifier::external_body] unsafe fn vf_read_places(&self) -> [MaybeUninit<T>; N] { unsafe { core::ptr::read(self) } }
}
impl<const N: usize> VfReadPlaces<u8, N> for [u8; N] {
    open spec fn vf_read(&self) -> Seq<Option<u8>> { self@.map_values(|x| Some(x)) }
    #[verifier::external_body] unsafe fn vf_read_places(&self) -> [MaybeUninit<u8>; N] { unsafe { self.as_ptr().cast::<[MaybeUninit<u8>; N]>().read() } }
}
/// Owned elements may be read as places only where they are not destroyed afterwards.
impl<T, const N: usize> VfReadPlaces<T, N> for ManuallyDrop<[T; N]> {
    open spec fn vf_read(&self) -> Seq<Option<T>> { self@@.map_values(|x| Some(x)) }
    #[verifier::external_body] unsafe fn vf_read_places(&self) -> [MaybeUninit<T>; N] { unsafe { self.as_ptr().cast::<[MaybeUninit<T>; N]>().read() } }
}

// ---------------------------------------------------------------- conversions of the standard library

pub assume_specification<T, A: std::alloc::Allocator>[Vec::<T, A>::into_boxed_slice](v: Vec<T, A>) -> (r: Box<[T], A>) ensures r@ == v@;

#[verifier::external_trait_specification]
pub trait ExBorrowMut<Borrowed: ?Sized>: Borrow<Borrowed> { type ExternalTraitSpecificationFor: BorrowMut<Borrowed>; fn borrow_mut(&mut self) -> &mut Borrowed; }
pub open spec fn slice<T>(s: &[T]) -> Seq<T> { s@ }

/// The traits of iteration, without the standard library's own specification of them.
pub trait VfIterator { type Item; fn next(&mut self) -> Option<Self::Item>; fn size_hint(&self) -> (usize, Option<usize>); }
pub trait VfDouble: VfIterator { fn next_back(&mut self) -> Option<Self::Item>; }
pub trait VfIntoIterator: Sized { type Item; type IntoIter; fn into_iter(self) -> Self::IntoIter; }

/// A mutable reference into part of a buffer.
pub trait VfSubMut {
    spec fn vf_whole(&self) -> Seq<u8>;
    unsafe fn vf_sub_mut(&mut self, a: usize, n: usize) -> (r: &mut [u8])
        requires a + n <= old(self).vf_whole().len(),
        ensures r@ == old(self).vf_whole().subrange(a as int, a + n),
            final(r)@.len() == n ==> final(self).vf_whole() == old(self).vf_whole().take(a as int) + final(r)@ + old(self).vf_whole().skip(a + n);
}
impl VfSubMut for [u8] {
    open spec fn vf_whole(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] unsafe fn vf_sub_mut(&mut self, a: usize, n: usize) -> &mut [u8] { &mut self[a..a + n] }
}
impl<const N: usize> VfReadArray<u8, N> for ManuallyDrop<[MaybeUninit<u8>; N]> {
    open spec fn vf_places(&self) -> Seq<MaybeUninit<u8>> { self@@ }
    #[verifier::external_body] unsafe fn vf_read_array(&self) -> [u8; N] { unsafe { self.as_ptr().cast::<[u8; N]>().read() } }
}

// ---------------------------------------------------------------- text in memory

pub assume_specification<'a> [core::str::from_utf8_unchecked](b: &'a [u8]) -> (r: &'a str) requires valid_utf8(b@) ensures r@ == decode_utf8(b@), encode_utf8(r@) == b@;
pub assume_specification<'a> [core::str::from_utf8_unchecked_mut](b: &'a mut [u8]) -> (r: &'a mut str) requires valid_utf8(old(b)@)
    ensures r@ == decode_utf8(old(b)@), encode_utf8(r@) == old(b)@, final(b)@ == encode_utf8(final(r)@), final(b)@.len() == old(b)@.len();
pub assume_specification [alloc::str::from_boxed_utf8_unchecked](b: Box<[u8]>) -> (r: Box<str>) requires valid_utf8(b@) ensures r@ == decode_utf8(b@), encode_utf8(r@) == b@;
pub assume_specification [<str>::into_string](b: Box<str>) -> (r: String) ensures r@ == b@;
/// What `Borrow` shows of a value.
pub uninterp spec fn lent<U: Borrow<T>, T: ?Sized>(u: &U) -> &T;
#[verifier::external_body] pub fn vf_borrow<U: Borrow<T>, T: ?Sized>(u: &U) -> (r: &T) ensures r == lent::<U, T>(u) { u.borrow() }
/// `vec![..].into()` for a boxed slice.
#[verifier::external_body] pub broadcast proof fn boxed<T>(v: Vec<T>) ensures (#[trigger] into_of::<Vec<T>, Box<[T]>>(v))@ == v@ {}
/// The conversions of the standard library that may stand where a constructor does.
#[verifier::external_body] pub broadcast proof fn into_self<T>(v: T) ensures #[trigger] into_of::<T, T>(v) == v {}
#[verifier::external_body] pub broadcast proof fn into_some<T>(v: T) ensures #[trigger] into_of::<T, Option<T>>(v) == Some(v) {}
#[verifier::external_body] pub broadcast proof fn into_socket4(v: SocketAddrV4) ensures #[trigger] into_of::<SocketAddrV4, SocketAddr>(v) == SocketAddr::V4(v) {}
#[verifier::external_body] pub broadcast proof fn into_socket6(v: SocketAddrV6) ensures #[trigger] into_of::<SocketAddrV6, SocketAddr>(v) == SocketAddr::V6(v) {}
#[verifier::external_body] pub broadcast proof fn into_ip4(v: Ipv4Addr) ensures #[trigger] into_of::<Ipv4Addr, IpAddr>(v) == IpAddr::V4(v) {}
#[verifier::external_body] pub broadcast proof fn into_ip6(v: Ipv6Addr) ensures #[trigger] into_of::<Ipv6Addr, IpAddr>(v) == IpAddr::V6(v) {}
#[verifier::external_body] pub broadcast proof fn into_u16(v: u8) ensures #[trigger] into_of::<u8, u16>(v) == v as u16 {}
#[verifier::external_body] pub broadcast proof fn into_u32(v: u8) ensures #[trigger] into_of::<u8, u32>(v) == v as u32 {}
#[verifier::external_body] pub broadcast proof fn into_u64(v: u32) ensures #[trigger] into_of::<u32, u64>(v) == v as u64 {}
#[verifier::external_body] pub broadcast proof fn into_usize(v: u16) ensures #[trigger] into_of::<u16, usize>(v) == v as usize {}
#[verifier::external_body] pub broadcast proof fn into_isize(v: i16) ensures #[trigger] into_of::<i16, isize>(v) == v as isize {}
#[verifier::external_body] pub broadcast proof fn into_bit(v: bool) ensures #[trigger] into_of::<bool, u8>(v) == if v { 1u8 } else { 0u8 } {}
#[verifier::external_body] pub broadcast proof fn into_code(v: char) ensures #[trigger] into_of::<char, u32>(v) == v as u32 {}
broadcast group std_conversions { into_self, into_some, into_socket4, into_socket6, into_ip4, into_ip6, into_u16, into_u32, into_u64, into_usize, into_isize, into_bit, into_code }
#[verifier::external_trait_specification]
pub trait ExFromStr: Sized { type ExternalTraitSpecificationFor: FromStr; type Err; fn from_str(s: &str) -> Result<Self, Self::Err>; }
#[verifier::external_body] pub fn vf_str_len(s: &str) -> (r: usize) ensures r == encode_utf8(s@).len() { s.len() }
