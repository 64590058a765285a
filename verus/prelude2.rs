// ---------------------------------------------------------------- constants (compile-time arithmetic)
// An overflow while rustc evaluates a constant is a compilation error, so a constant that exists did not overflow.
#[verifier::external_body]
pub fn vf_add(a: usize, b: usize) -> (r: usize) ensures r == a + b { a + b }
#[verifier::external_body]
pub fn vf_mul(a: usize, b: usize) -> (r: usize) ensures r == a * b { a * b }

// ---------------------------------------------------------------- little-endian numbers

/// The `w` low bytes of `n`, lowest first.
pub open spec fn le_of(n: nat, w: nat) -> Seq<u8> decreases w {
    if w == 0 { Seq::empty() } else { seq![(n % 256) as u8] + le_of(n / 256, (w - 1) as nat) }
}
pub open spec fn nat_of(b: Seq<u8>) -> nat decreases b.len() {
    if b.len() == 0 { 0 } else { (b[0] as nat) + 256 * nat_of(b.skip(1)) }
}
pub open spec fn pow256(w: nat) -> nat decreases w { if w == 0 { 1 } else { 256 * pow256((w - 1) as nat) } }

pub broadcast proof fn le_of_len(n: nat, w: nat)
    ensures #[trigger] le_of(n, w).len() == w
    decreases w
{ if w > 0 { le_of_len(n / 256, (w - 1) as nat); } }

pub proof fn le_of_nat_of(n: nat, w: nat)
    requires n < pow256(w)
    ensures nat_of(le_of(n, w)) == n
    decreases w
{
    if w > 0 {
        assert(n / 256 < pow256((w - 1) as nat)) by (nonlinear_arith) requires n < 256 * pow256((w - 1) as nat);
        le_of_nat_of(n / 256, (w - 1) as nat);
        assert(le_of(n, w).skip(1) =~= le_of(n / 256, (w - 1) as nat));
    }
}
pub proof fn nat_of_bound(b: Seq<u8>)
    ensures nat_of(b) < pow256(b.len())
    decreases b.len()
{ if b.len() > 0 { nat_of_bound(b.skip(1)); } }

pub proof fn pow256s()
    ensures pow256(1) == 0x100, pow256(2) == 0x1_0000, pow256(4) == 0x1_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000,
        pow256(16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000,
{ reveal_with_fuel(pow256, 17); }

/// Numbers as the trusted conversions of the standard library see them.
pub trait VfNum<const N: usize>: Sized {
    /// the number, reinterpreted as an unsigned one of the same width
    spec fn bits(self) -> nat;
    spec fn of_bits(n: nat) -> Self;
    fn vf_to_le_bytes(&self) -> (r: [u8; N]) ensures r@ == le_of(self.bits(), N as nat);
    fn vf_from_le_bytes(b: [u8; N]) -> (r: Self) ensures r.bits() == nat_of(b@);
}

pub uninterp spec fn f32_bits(x: f32) -> nat;
pub uninterp spec fn f64_bits(x: f64) -> nat;
#[verifier::external_body]
pub proof fn f32_bits_bound(x: f32) ensures f32_bits(x) < 0x1_0000_0000 {}
#[verifier::external_body]
pub proof fn float_sizes() ensures core::mem::size_of::<f32>() == 4, core::mem::size_of::<f64>() == 8 {}
#[verifier::external_body]
pub proof fn f64_bits_bound(x: f64) ensures f64_bits(x) < 0x1_0000_0000_0000_0000 {}

// ---------------------------------------------------------------- sequences of bytes

pub proof fn cat(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures a + b + c == a + (b + c), (a + (b + c)).skip(a.len() as int) == b + c, (a + b).take(a.len() as int) == a
{
    assert(a + b + c =~= a + (b + c));
    assert((a + (b + c)).skip(a.len() as int) =~= b + c);
    assert((a + b).take(a.len() as int) =~= a);
}

pub trait VfFrom<S>: Sized {
    spec fn vf_of(s: S) -> Self;
    fn vf_from(s: S) -> (r: Self) ensures r == Self::vf_of(s);
}
impl VfFrom<bool> for u8 { open spec fn vf_of(s: bool) -> u8 { if s { 1 } else { 0 } } #[verifier::external_body] fn vf_from(s: bool) -> u8 { u8::from(s) } }
impl VfFrom<char> for u32 { open spec fn vf_of(s: char) -> u32 { s as u32 } #[verifier::external_body] fn vf_from(s: char) -> u32 { u32::from(s) } }

pub open spec fn is_scalar(c: u32) -> bool { c <= 0xD7FF || 0xE000 <= c <= 0x10FFFF }
pub assume_specification [char::from_u32_unchecked](c: u32) -> (r: char)
    requires is_scalar(c),
    ensures r as u32 == c;

/// vstd leaves the 128-bit instances out.
#[verifier::external_body]
pub proof fn wide_zero() ensures forall|x: u128| #[trigger] x.is_zero() <==> x == 0, forall|x: i128| #[trigger] x.is_zero() <==> x == 0 {}

// ---------------------------------------------------------------- sequences of values

pub open spec fn oks<T: Encode>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).ok() }

/// Everything up to and including the first element that fails.
pub open spec fn emits<T: Encode>(s: Seq<T>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        let p = s.drop_last();
        if oks(p) { emits(p) + s.last().emit() } else { emits(p) }
    }
}
pub open spec fn first_bad<T: Encode>(s: Seq<T>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else if oks(s.drop_last()) { s.len() - 1 } else { first_bad(s.drop_last()) }
}

pub proof fn oks_push<T: Encode>(s: Seq<T>)
    requires s.len() > 0
    ensures oks(s) <==> oks(s.drop_last()) && s.last().ok()
{
    if oks(s.drop_last()) && s.last().ok() {
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).ok() by {
            if i < s.len() - 1 { assert(s[i] == s.drop_last()[i]); }
        }
    }
    if oks(s) {
        assert forall|i: int| 0 <= i < s.len() - 1 implies (#[trigger] s.drop_last()[i]).ok() by { assert(s[i] == s.drop_last()[i]); }
        assert(s[s.len() - 1].ok());
    }
}

/// What the loop over a sequence needs: a failing prefix decides, and prefixes are no longer than the whole.
pub proof fn emits_prefix<T: Encode>(s: Seq<T>, k: int)
    requires 0 <= k <= s.len()
    ensures
        emits(s.take(k)).len() <= emits(s).len(),
        !oks(s.take(k)) ==> !oks(s) && emits(s) == emits(s.take(k)) && first_bad(s) == first_bad(s.take(k)),
        k == s.len() ==> s.take(k) == s,
    decreases s.len() - k
{
    if k == s.len() { assert(s.take(k) =~= s); }
    else {
        emits_prefix(s, k + 1);
        assert(s.take(k + 1).drop_last() =~= s.take(k));
        oks_push(s.take(k + 1));
    }
}
/// One step of that loop.
pub proof fn emits_step<T: Encode>(s: Seq<T>, k: int)
    requires 0 <= k < s.len(), oks(s.take(k))
    ensures
        emits(s.take(k + 1)) == emits(s.take(k)) + s[k].emit(),
        oks(s.take(k + 1)) <==> s[k].ok(),
        first_bad(s.take(k + 1)) == k,
        emits(s.take(k + 1)).len() <= emits(s).len(),
        !s[k].ok() ==> !oks(s) && emits(s) == emits(s.take(k + 1)) && first_bad(s) == k,
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    oks_push(s.take(k + 1));
    emits_prefix(s, k + 1);
}

pub proof fn emits_fit<T: SizedEncode>(s: Seq<T>)
    ensures emits(s).len() <= T::msize() * s.len()
    decreases s.len()
{
    if s.len() > 0 {
        emits_fit(s.drop_last());
        s.last().fits();
        assert(T::msize() * s.len() == T::msize() * (s.len() - 1) + T::msize()) by (nonlinear_arith) requires s.len() > 0;
    }
}

/// Decoding `n` values one after the other.
pub open spec fn decs<T: Decode>(b: Seq<u8>, n: nat) -> D<Seq<T::V>, ItemDecodeError<usize, T::Error>> decreases n {
    if n == 0 { D::Ok(Seq::empty(), 0) } else {
        match decs::<T>(b, (n - 1) as nat) {
            D::Ok(vs, k) => match T::dec(b.skip(k as int)) {
                D::Ok(v, j) => D::Ok(vs.push(v), k + j),
                D::Err(e) => D::Err(ItemDecodeError { index: (n - 1) as usize, error: e }),
                D::Panics => D::Panics,
            },
            other => other,
        }
    }
}
pub proof fn decs_prefix<T: Decode>(b: Seq<u8>, k: nat, n: nat)
    requires k <= n
    ensures
        decs::<T>(b, k) is Err ==> decs::<T>(b, n) == decs::<T>(b, k),
        decs::<T>(b, k) is Panics ==> decs::<T>(b, n) is Panics,
        decs::<T>(b, k) is Ok ==> decs::<T>(b, k)->Ok_0.len() == k,
    decreases n
{
    if k < n { decs_prefix::<T>(b, k, (n - 1) as nat); }
    if k > 0 && k == n { decs_prefix::<T>(b, (k - 1) as nat, (k - 1) as nat); }
}

/// The round trip of a sequence.
pub proof fn decs_emits<T: RoundTrip>(s: Seq<T>, rest: Seq<u8>)
    requires oks(s)
    ensures decs::<T>(emits(s) + rest, s.len()) == D::<Seq<T::V>, ItemDecodeError<usize, <T as Decode>::Error>>::Ok(vals(s), emits(s).len())
    decreases s.len()
{
    if s.len() == 0 { assert(vals(s) =~= Seq::<T::V>::empty()); } else {
        let p = s.drop_last();
        oks_push(s);
        let tail = s.last().emit() + rest;
        decs_emits(p, tail);
        cat(emits(p), s.last().emit(), rest);
        s.last().round_trip(rest);
        assert(vals(s) =~= vals(p).push(s.last().val()));
    }
}
pub open spec fn vals<T: Val>(s: Seq<T>) -> Seq<T::V> { s.map_values(|x: T| x.val()) }

// ---------------------------------------------------------------- loops over elements (rule E2)

pub trait VfIter<T> {
    spec fn vf_elems(&self) -> Seq<T>;
    fn vf_len(&self) -> (r: usize) ensures r == self.vf_elems().len();
    fn vf_nth(&self, i: usize) -> (r: &T) requires i < self.vf_elems().len() ensures *r == self.vf_elems()[i as int];
}
impl<T> VfIter<T> for [T] {
    open spec fn vf_elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vf_len(&self) -> usize { self.len() }
    #[verifier::external_body] fn vf_nth(&self, i: usize) -> &T { &self[i] }
}
pub fn vf_min(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }

/// User-supplied error conversions are taken to be functions of their argument.
pub uninterp spec fn into_of<A, B>(a: A) -> B;
#[verifier::external_body]
pub fn vf_into<A: Into<B>, B>(a: A) -> (r: B) ensures r == into_of::<A, B>(a) { a.into() }

// ---------------------------------------------------------------- uninitialised memory (rule E3)

/// What a possibly uninitialised place holds.
pub uninterp spec fn mu<T>(x: MaybeUninit<T>) -> Option<T>;
#[verifier::external_body]
pub fn vf_uninit<T, const N: usize>() -> (r: [MaybeUninit<T>; N]) { [const { MaybeUninit::uninit() }; N] }
pub trait VfSlots<T> {
    spec fn vf_slots(&self) -> Seq<MaybeUninit<T>>;
    /// `write(self + i, v)`
    fn vf_put(&mut self, i: usize, v: T)
        requires i < old(self).vf_slots().len(),
        ensures final(self).vf_slots().len() == old(self).vf_slots().len(), mu(final(self).vf_slots()[i as int]) == Some(v),
            forall|j: int| 0 <= j < old(self).vf_slots().len() && j != i ==> #[trigger] final(self).vf_slots()[j] == old(self).vf_slots()[j];
    /// `read(self + i)`
    fn vf_take(&self, i: usize) -> (r: T)
        requires i < self.vf_slots().len(), mu(self.vf_slots()[i as int]) is Some,
        ensures mu(self.vf_slots()[i as int]) == Some(r);
}
impl<T> VfSlots<T> for [MaybeUninit<T>] {
    open spec fn vf_slots(&self) -> Seq<MaybeUninit<T>> { self@ }
    #[verifier::external_body] fn vf_put(&mut self, i: usize, v: T) { self[i].write(v); }
    #[verifier::external_body] fn vf_take(&self, i: usize) -> T { unsafe { self[i].assume_init_read() } }
}
/// What a slice of possibly uninitialised places holds.
pub open spec fn held<T>(s: Seq<MaybeUninit<T>>, k: int) -> Seq<T> { Seq::new(k as nat, |i: int| mu(s[i])->0) }
pub trait VfReadArray<T, const N: usize> {
    spec fn vf_places(&self) -> Seq<MaybeUninit<T>>;
    unsafe fn vf_read_array(&self) -> (r: [T; N])
        requires forall|i: int| 0 <= i < N ==> (#[trigger] mu(self.vf_places()[i])) is Some,
        ensures r@ == held(self.vf_places(), N as int);
}
impl<T, const N: usize> VfReadArray<T, N> for [MaybeUninit<T>; N] {
    open spec fn vf_places(&self) -> Seq<MaybeUninit<T>> { self@ }
    #[verifier::external_body] unsafe fn vf_read_array(&self) -> [T; N] { unsafe { self.as_ptr().cast::<[T; N]>().read() } }
}
pub open spec fn kept<T>(s: Seq<Option<T>>, k: int) -> Seq<T> { Seq::new(k as nat, |i: int| s[i]->0) }

/// The allocation behind a vector: the elements, then what was written beyond them.
pub uninterp spec fn spare<T>(v: &Vec<T>) -> Seq<Option<T>>;
pub trait VfVec<T>: Sized {
    spec fn elems(&self) -> Seq<T>;
    spec fn memory(&self) -> Seq<Option<T>>;
    fn vf_with_capacity(n: usize) -> (r: Self) ensures r.elems() == Seq::<T>::empty(), r.memory().len() >= n;
    unsafe fn vf_put(&mut self, i: usize, v: T)
        requires old(self).elems().len() <= i < old(self).memory().len(),
        ensures final(self).elems() == old(self).elems(), final(self).memory() == old(self).memory().update(i as int, Some(v));
    unsafe fn vf_set_len(&mut self, n: usize)
        requires n <= old(self).memory().len(), forall|i: int| 0 <= i < n ==> (#[trigger] old(self).memory()[i]) is Some,
        ensures final(self).elems() == kept(old(self).memory(), n as int), final(self).memory() == old(self).memory();
}
impl<T> VfVec<T> for Vec<T> {
    open spec fn elems(&self) -> Seq<T> { self@ }
    open spec fn memory(&self) -> Seq<Option<T>> { spare(self) }
    #[verifier::external_body] fn vf_with_capacity(n: usize) -> Self { Vec::with_capacity(n) }
    #[verifier::external_body] unsafe fn vf_put(&mut self, i: usize, v: T) { unsafe { self.as_mut_ptr().add(i).write(v) } }
    #[verifier::external_body] unsafe fn vf_set_len(&mut self, n: usize) { unsafe { self.set_len(n) } }
}
impl<T> VfDst<T> for Vec<T> {
    open spec fn can(&self, at: int, src: Seq<Option<T>>, from: int, n: int) -> bool { self@.len() <= at && at + n <= spare(self).len() }
    open spec fn did(from_: &Self, to: &Self, at: int, src: Seq<Option<T>>, from: int, n: int) -> bool {
        to@ == from_@ && spare(to).len() == spare(from_).len()
        && (forall|i: int| 0 <= i < spare(to).len() ==> #[trigger] spare(to)[i] == if at <= i < at + n { src[from + i - at] } else { spare(from_)[i] })
        && (at == 0 ==> kept(spare(to), n) == vals_of(src, from, n))
    }
    unsafe fn vf_copy_in<S: VfSrc<T>>(&mut self, at: usize, src: &S, from: usize, n: usize) {
        unsafe { vf_raw_copy(self, at, src, from, n); }
        proof { if at == 0 { assert(kept(spare(&*self), n as int) =~= vals_of(src.src(), from as int, n as int)); } }
    }
}
#[verifier::external_body]
unsafe fn vf_raw_copy<T, S: VfSrc<T>>(v: &mut Vec<T>, at: usize, src: &S, from: usize, n: usize)
    requires from + n <= src.src().len(), old(v)@.len() <= at, at + n <= spare(&*old(v)).len()
    ensures final(v)@ == old(v)@, spare(&*final(v)).len() == spare(&*old(v)).len(),
        forall|i: int| 0 <= i < spare(&*final(v)).len() ==> #[trigger] spare(&*final(v))[i] == if at <= i < at + n { src.src()[from + i - at] } else { spare(&*old(v))[i] }
{ unimplemented!() }
impl<T, const N: usize> VfDst<T> for [MaybeUninit<T>; N] {
    open spec fn can(&self, at: int, src: Seq<Option<T>>, from: int, n: int) -> bool { at + n <= N }
    open spec fn did(from_: &Self, to: &Self, at: int, src: Seq<Option<T>>, from: int, n: int) -> bool {
        forall|i: int| 0 <= i < N ==> mu(#[trigger] to@[i]) == if at <= i < at + n { src[from + i - at] } else { mu(from_@[i]) }
    }
    #[verifier::external_body] unsafe fn vf_copy_in<S: VfSrc<T>>(&mut self, at: usize, src: &S, from: usize, n: usize) { unimplemented!() }
}

// ---------------------------------------------------------------- sequences of bytes and text

/// A sequence of bytes, encoded element by element, is itself.
pub proof fn emits_bytes(s: Seq<u8>)
    ensures emits(s) == s, oks(s)
    decreases s.len()
{
    if s.len() > 0 {
        emits_bytes(s.drop_last());
        let x = s.last();
        assert(le_of(x as nat, 1) =~= seq![x]) by { reveal_with_fuel(le_of, 2); }
        assert(emits(s) =~= s);
    } else { assert(emits(s) =~= s); }
}
