//! C14: derived implementations follow the declaration.
use crate::common::*;
use crate::{contracts, returned, Src};
use core::num::NonZero;
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output, SizedEncode};
use oct::error::*;

/// The documented encoding of a field type, written without the library.
pub trait Field: Sized {
    const MAX: usize;
    fn any<S: Src>(s: &mut S) -> Self;
    fn emit(&self, o: &mut Vec<u8>);
}
pub trait Shape: Field + Encode + Decode + SizedEncode {
    /// Size of the discriminant, 0 for a structure.
    const WIDTH: usize;
    fn assigned(d: u128) -> bool;
    /// The discriminant named by a decoding error.
    fn reported(e: &<Self as Decode>::Error) -> Option<u128>;
}
macro_rules! field {
    ($($t:ty, $n:literal, $s:ident => $any:expr, $x:ident, $o:ident => $emit:expr;)*) => { $(
        impl Field for $t {
            const MAX: usize = $n;
            fn any<S: Src>($s: &mut S) -> Self { $any }
            fn emit(&self, $o: &mut Vec<u8>) { let $x = *self; $emit }
        }
    )* };
}
field! {
    u8, 1, s => s.u8(), x, o => o.push(x);
    i8, 1, s => s.i8(), x, o => o.push(x as u8);
    u16, 2, s => s.u16(), x, o => le(x as u128, 2, o);
    i16, 2, s => s.i16(), x, o => le(x as u16 as u128, 2, o);
    u32, 4, s => s.u32(), x, o => le(x as u128, 4, o);
    i32, 4, s => s.i32(), x, o => le(x as u32 as u128, 4, o);
    u64, 8, s => s.u64(), x, o => le(x as u128, 8, o);
    i64, 8, s => s.i64(), x, o => le(x as u64 as u128, 8, o);
    u128, 16, s => s.u128(), x, o => le(x, 16, o);
    i128, 16, s => s.i128(), x, o => le(x as u128, 16, o);
    usize, 2, s => s.u16() as usize, x, o => le(x as u128, 2, o);
    isize, 2, s => s.i16() as isize, x, o => le(x as u16 as u128, 2, o);
    bool, 1, s => s.bool(), x, o => o.push(if x { 1 } else { 0 });
    (), 0, s => (), x, o => x;
    [u8; 3], 3, s => s.array::<3>(), x, o => { o.push(x[0]); o.push(x[1]); o.push(x[2]) };
    Option<u16>, 3, s => if s.bool() { Some(s.u16()) } else { None }, x, o => match x { Some(y) => { o.push(1); le(y as u128, 2, o) } None => o.push(0) };
    NonZero<u16>, 2, s => { let x = s.u16(); s.assume(x != 0); NonZero::new(x).unwrap() }, x, o => le(x.get() as u128, 2, o);
    (u8, u16), 3, s => (s.u8(), s.u16()), x, o => { o.push(x.0); le(x.1 as u128, 2, o) };
    f32, 4, s => s.f32(), x, o => le(x.to_bits() as u128, 4, o);
}
#[path = "shapes.rs"]
mod shapes;
use shapes::*;

fn good<T: Shape, S: Src>(s: &mut S) {
    let v = T::any(s);
    let mut e = Vec::with_capacity(T::MAX);
    v.emit(&mut e);
    assert!(T::MAX_ENCODED_SIZE == T::MAX, "the maximum size is the sum over the fields, the largest over the variants, plus the discriminant");
    assert!(e.len() <= T::MAX);
    let mut buf = [0xA5u8; 120];
    let n = {
        let mut o = Output::new(&mut buf);
        assert!(v.encode(&mut o).is_ok(), "encoding an encodable value succeeds");
        o.position()
    };
    assert!(same_bytes(&buf, n, &e), "discriminant and fields in declaration order");
    buf[n] = s.u8();
    let mut i = Input::new(&buf);
    match T::decode(&mut i) {
        Ok(w) => { let mut f = Vec::with_capacity(T::MAX); w.emit(&mut f); assert!(eq_slices(&e, &f), "decoding is the inverse"); }
        Err(_) => panic!("decoding an encoding succeeds"),
    }
    assert!(i.position() == n, "decoding consumes exactly the encoded bytes");
}
fn arbitrary<T: Shape, S: Src>(s: &mut S) {
    let mut buf = [1u8; 120];
    let mut k = 0;
    while k < T::WIDTH { buf[k] = s.u8(); k += 1; }
    let d = rd(&buf, 0, T::WIDTH);
    match T::decode(&mut Input::new(&buf)) {
        Ok(v) => {
            assert!(T::assigned(d), "an unassigned discriminant is rejected");
            let mut f = Vec::with_capacity(T::MAX);
            v.emit(&mut f);
            assert!(rd(&f, 0, T::WIDTH) == d, "the variant is the one the discriminant names");
        }
        Err(e) => { assert!(!T::assigned(d), "an assigned discriminant is accepted"); assert!(T::reported(&e) == Some(d), "the rejected discriminant is reported"); }
    }
}
fn both<T: Shape, S: Src>(s: &mut S) { good::<T, S>(s); if T::WIDTH > 0 { arbitrary::<T, S>(s) } }

#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub struct Generic<T: Clone + Encode<Error: Into<GenericEncodeError>> + Decode<Error: Into<GenericDecodeError>> + SizedEncode, U, const N: usize> where U: PartialEq + Encode<Error: Into<GenericEncodeError>> + Decode<Error: Into<GenericDecodeError>> + SizedEncode { a: T, b: [U; N], c: u8 }
#[derive(Encode)]
pub struct Borrowing<'a, T: ?Sized + Encode<Error: Into<GenericEncodeError>>> { a: &'a T, b: &'a [u16] }
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
#[repr(u8)]
pub enum Either<L: Encode<Error: Into<GenericEncodeError>> + Decode<Error: Into<GenericDecodeError>> + SizedEncode, R: Encode<Error: Into<GenericEncodeError>> + Decode<Error: Into<GenericDecodeError>> + SizedEncode> { Left(L) = 3, Right { x: R, y: L } }
#[derive(Clone, Copy, PartialEq, Debug, Encode, Decode, SizedEncode)]
#[repr(i16)]
pub enum Inner { A = 0x7F, B, C(u8) = 0x102 }
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
#[repr(u8)]
pub enum Outer { X(Inner, u8), Y { i: Inner, n: NonZero<u8> } = 9, Z(Vecs) }
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub struct Vecs { v: oct::SizedSlice<u8, 2>, k: usize }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum Wide { Small, Large = 40000 }
#[derive(Encode, Decode, SizedEncode)]
pub enum Never {}

impl Field for Inner {
    const MAX: usize = 3;
    fn any<S: Src>(s: &mut S) -> Self { match s.below(3) { 0 => Inner::A, 1 => Inner::B, _ => Inner::C(s.u8()) } }
    fn emit(&self, o: &mut Vec<u8>) { match *self { Inner::A => le(0x7F, 2, o), Inner::B => le(0x80, 2, o), Inner::C(x) => { le(0x102, 2, o); o.push(x) } } }
}
impl<L: Field + Encode<Error: Into<GenericEncodeError>> + Decode<Error: Into<GenericDecodeError>> + SizedEncode, R: Field + Encode<Error: Into<GenericEncodeError>> + Decode<Error: Into<GenericDecodeError>> + SizedEncode> Field for Either<L, R> {
    const MAX: usize = 1 + L::MAX + R::MAX;
    fn any<S: Src>(s: &mut S) -> Self { if s.bool() { Either::Left(L::any(s)) } else { Either::Right { y: L::any(s), x: R::any(s) } } }
    fn emit(&self, o: &mut Vec<u8>) { match self { Either::Left(x) => { o.push(3); x.emit(o) } Either::Right { x, y } => { o.push(4); x.emit(o); y.emit(o) } } }
}
impl Shape for Either<Inner, u32> {
    const WIDTH: usize = 1;
    fn assigned(d: u128) -> bool { d == 3 || d == 4 }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> {
        match e { EnumDecodeError::UnassignedDiscriminant { value } => Some(*value as u128), EnumDecodeError::BadField(GenericDecodeError::UnassignedDiscriminant { .. }) => None, _ => None }
    }
}
impl<T: Field + Clone + Encode<Error: Into<GenericEncodeError>> + Decode<Error: Into<GenericDecodeError>> + SizedEncode, U: Field + PartialEq + Encode<Error: Into<GenericEncodeError>> + Decode<Error: Into<GenericDecodeError>> + SizedEncode> Field for Generic<T, U, 2> {
    const MAX: usize = T::MAX + 2 * U::MAX + 1;
    fn any<S: Src>(s: &mut S) -> Self { Generic { a: T::any(s), b: [U::any(s), U::any(s)], c: s.u8() } }
    fn emit(&self, o: &mut Vec<u8>) { self.a.emit(o); self.b[0].emit(o); self.b[1].emit(o); o.push(self.c) }
}
impl Shape for Generic<u16, u32, 2> { const WIDTH: usize = 0; fn assigned(_: u128) -> bool { true } fn reported(_: &<Self as Decode>::Error) -> Option<u128> { None } }

macro_rules! native_shapes { ($s:ident: $($t:ident)*) => { { $( both::<$t, _>($s); )* } } }

contracts! {
    full 40 "all values of structures S0 to S5" fn c14_structs_1(s) { good::<S0, _>(s); good::<S1, _>(s); good::<S2, _>(s); good::<S3, _>(s); good::<S4, _>(s); good::<S5, _>(s) }
    full 40 "all values of structures S6 to S8" fn c14_structs_2(s) { good::<S6, _>(s); good::<S7, _>(s); good::<S8, _>(s) }
    full 40 "all values of structures S9 to S11" fn c14_structs_3(s) { good::<S9, _>(s); good::<S10, _>(s); good::<S11, _>(s) }
    full 40 "all values and discriminants (u8)" fn c14_enum_0(s) { both::<E0, _>(s) }
    full 40 "all values and discriminants (i8)" fn c14_enum_1(s) { both::<E1, _>(s) }
    full 40 "all values and discriminants (u16)" fn c14_enum_2(s) { both::<E2, _>(s) }
    full 40 "all values and discriminants (i16)" fn c14_enum_3(s) { both::<E3, _>(s) }
    full 40 "all values and discriminants (u32)" fn c14_enum_4(s) { both::<E4, _>(s) }
    full 40 "all values and discriminants (i32)" fn c14_enum_5(s) { both::<E5, _>(s) }
    full 40 "all values and discriminants (u64)" fn c14_enum_6(s) { both::<E6, _>(s) }
    full 40 "all values and discriminants (i64)" fn c14_enum_7(s) { good::<E7, _>(s) }
    full 40 "all discriminants (i64)" fn c14_enum_7_any(s) { arbitrary::<E7, _>(s) }
    native 0 "u128: Kani does not support 128-bit representations" fn c14_enum_8(s) { both::<E8, _>(s) }
    native 0 "i128: Kani does not support 128-bit representations" fn c14_enum_9(s) { both::<E9, _>(s) }
    full 40 "all values and discriminants (usize)" fn c14_enum_10(s) { both::<E10, _>(s) }
    full 40 "all values and discriminants (isize)" fn c14_enum_11(s) { both::<E11, _>(s) }
    full 40 "all values and discriminants (no representation)" fn c14_enum_12(s) { both::<E12, _>(s) }
    native 0 "further generated enumerations" fn c14_enum_more(s) { native_shapes!(s: E13 E14 E15 E16 E17 E18 E19 E20 E21 E22 E23 E24 E25) }
    native 0 "wide structures and enumerations, every literal form, names the macros use themselves" fn c14_wide(s) { good::<W0, _>(s); good::<W1, _>(s); native_shapes!(s: W2 W3 W4 W5 W6 W7 W8 W9 W10 W11) }
    full 12 "all values" fn c14_defaulted(s) {
        let (a, b, c, k) = (s.u16(), s.array::<3>(), s.bool(), s.u8());
        let mut e = Vec::with_capacity(8);
        le(a as u128, 2, &mut e); e.push(b[0]); e.push(b[1]); e.push(c as u8);
        let v: Defaulted = Defaulted { a, b: [b[0], b[1]], c };
        let (r, out, m) = encoded::<10, _, _>(s, &v, 1);
        assert!(r.is_ok() && same_bytes(&out, m, &e), "fields in declaration order");
        match <Defaulted>::decode(&mut Input::new(&out)) { Ok(w) => assert!(w.a == a && w.b == [b[0], b[1]] && w.c == c, "decoding is the inverse"), Err(_) => panic!("decoding an encoding succeeds") }
        assert!(<Defaulted as SizedEncode>::MAX_ENCODED_SIZE == 5 && <DefaultedEnum as SizedEncode>::MAX_ENCODED_SIZE == 4 && <DefaultedEnum<u64, 1> as SizedEncode>::MAX_ENCODED_SIZE == 9);
        let x: [u8; 4] = [k, b[0], b[1], b[2]];
        match <DefaultedEnum>::decode(&mut Input::new(&x)) {
            Ok(DefaultedEnum::A(y)) => assert!(k == 7 && y == b, "an explicit discriminant is used"),
            Ok(DefaultedEnum::B { t }) => assert!(k == 8 && t as u128 == rd(&x, 1, 2), "one more than the previous discriminant"),
            Err(EnumDecodeError::UnassignedDiscriminant { value }) => assert!(value == k && k != 7 && k != 8, "the rejected discriminant is reported"),
            Err(_) => panic!("the fields accept every byte"),
        }
    }
    full 16 "strings and slices of one element" fn c14_lent(s) {
        let t = [s.u8() & 0x7F];
        let t = core::str::from_utf8(&t).unwrap();
        let b = [s.u8()];
        let which = s.bool();
        let v: Lent = if which { Lent::A(t) } else { Lent::B { a: t, b: &b } };
        let mut e = Vec::with_capacity(8);
        if which { le(0, 2, &mut e) } else { le(0x300, 2, &mut e); le(1, 2, &mut e); e.push(b[0]) }
        le(1, 2, &mut e); e.push(t.as_bytes()[0]);
        let (r, out, m) = encoded::<10, _, _>(s, &v, 1);
        assert!(r.is_ok() && same_bytes(&out, m, &e), "discriminant and fields in declaration order");
    }
    full 12 "all values" fn c14_generic(s) { good::<Generic<u16, u32, 2>, _>(s); good::<Either<Inner, u32>, _>(s) }
    full 16 "slices of up to 2 elements" fn c14_borrowing(s) {
        let (a, b) = (s.u32(), [s.u16(), s.u16()]);
        let n = s.below(3) as usize;
        let v = Borrowing { a: &a, b: &b[..n] };
        let (r, out, m) = encoded::<14, _, _>(s, &v, 1);
        let mut e = Vec::with_capacity(10);
        le(a as u128, 4, &mut e);
        le(n as u128, 2, &mut e);
        let mut k = 0;
        while k < n { le(b[k] as u128, 2, &mut e); k += 1; }
        assert!(r.is_ok() && same_bytes(&out, m, &e), "fields in declaration order");
    }
    full 12 "every first byte and every nested discriminant" fn c14_nested(s) {
        let buf: [u8; 9] = s.array::<9>();
        let r = Outer::decode(&mut Input::new(&buf));
        let d = rd(&buf, 1, 2);
        let inner = d == 0x7F || d == 0x80 || d == 0x102;
        let w = if d == 0x102 { 3 } else { 2 };
        let i = if d == 0x7F { Inner::A } else if d == 0x80 { Inner::B } else { Inner::C(buf[3]) };
        match buf[0] {
            0 if inner => match r { Ok(Outer::X(j, x)) => assert!(i == j && x == buf[1 + w], "fields in declaration order"), _ => panic!("the first variant has discriminant zero") },
            9 if inner && buf[1 + w] == 0 => assert!(matches!(r, Err(EnumDecodeError::BadField(GenericDecodeError::NullInteger(_)))), "a field's error is reported"),
            9 if inner => match r { Ok(Outer::Y { i: j, n }) => assert!(i == j && n.get() == buf[1 + w], "fields in declaration order"), _ => panic!("an explicit discriminant is used") },
            0 | 9 => match r { Err(EnumDecodeError::BadField(GenericDecodeError::UnassignedDiscriminant { value })) => assert!(value == d, "the nested discriminant is reported"), _ => panic!("an unassigned nested discriminant is rejected") },
            10 if d <= 2 => match r { Ok(Outer::Z(Vecs { v, k })) => assert!(eq_slices(v.as_slice(), &buf[3..3 + d as usize]) && k as u128 == rd(&buf, 3 + d as usize, 2)), _ => panic!("one more than the previous discriminant") },
            10 => match r { Err(EnumDecodeError::BadField(GenericDecodeError::SmallBuffer(e))) => assert!(e.capacity == 2 && e.len as u128 == d, "a field's error is reported"), _ => panic!("a field's error is reported") },
            x => match r { Err(EnumDecodeError::UnassignedDiscriminant { value }) => assert!(value == x, "the rejected discriminant is reported"), _ => panic!("an unassigned discriminant is rejected") },
        }
    }
    full 12 "every usize" fn c14_bad_field(s) {
        let k = s.usize();
        let fits = k <= 65535;
        let v = Vecs { v: Default::default(), k };
        let mut buf = [0u8; 8];
        match v.encode(&mut Output::new(&mut buf)) { Ok(()) => assert!(fits, "an unencodable field makes the whole unencodable"), Err(GenericEncodeError::LargeUsize(e)) => assert!(!fits && e.0 == k, "the field's error is reported"), Err(_) => panic!("the field's error is reported") }
        match Outer::Z(v).encode(&mut Output::new(&mut buf)) { Ok(()) => assert!(fits), Err(EnumEncodeError::BadField(GenericEncodeError::LargeUsize(e))) => assert!(!fits && e.0 == k, "the field's error is reported"), Err(_) => panic!("the field's error is reported") }
    }
    full 12 "" fn c14_bad_discriminant(s) {
        // pointer-sized discriminants obey the rules of pointer-sized numbers
        let mut buf = [0u8; 8];
        match Wide::Large.encode(&mut Output::new(&mut buf)) { Err(EnumEncodeError::BadDiscriminant(e)) => assert!(e.0 == 40000, "the discriminant is reported"), _ => panic!("a discriminant that does not fit is refused") }
        assert!(Wide::Small.encode(&mut Output::new(&mut buf)).is_ok() && buf == [0; 8]);
        assert!(<Never as SizedEncode>::MAX_ENCODED_SIZE == 0);
        let b: [u8; 2] = s.array::<2>();
        match Never::decode(&mut Input::new(&b)) { Err(EnumDecodeError::UnassignedDiscriminant { value }) => assert!(value as u16 as u128 == rd(&b, 0, 2)), _ => panic!("no discriminant is assigned") }
    }
    full 12 "" fn c14_sizes(s) {
        let _ = s.bool();
        assert!(<Outer as SizedEncode>::MAX_ENCODED_SIZE == 1 + 6, "largest variant plus the discriminant");
        assert!(<Vecs as SizedEncode>::MAX_ENCODED_SIZE == 6 && <Inner as SizedEncode>::MAX_ENCODED_SIZE == 3);
        assert!(<Generic<u8, u64, 5> as SizedEncode>::MAX_ENCODED_SIZE == 42);
        assert!(<Either<u128, ()> as SizedEncode>::MAX_ENCODED_SIZE == 17 && <Either<(), u128> as SizedEncode>::MAX_ENCODED_SIZE == 17);
    }
}
