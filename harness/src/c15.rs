//! C15: errors report exactly what went wrong and survive conversion.
use crate::common::*;
use crate::{contracts, Src};
use core::cell::RefCell;
use core::num::NonZero;
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};
use oct::error::*;
use oct::{SizedSlice, SizedStr};
use std::collections::{HashMap, HashSet, LinkedList};
use std::error::Error;
use std::ffi::CString;
use std::time::SystemTime;

type Gd = GenericDecodeError;
type Ge = GenericEncodeError;

/// The low `w` bytes of a number, all other bits zero.
fn low(x: u128, w: u32) -> u128 { if w == 128 { x } else { x % (1u128 << w) } }

macro_rules! disc {
    ($s:ident: $($t:ty, $w:literal;)*) => { $(
        {
            let x = $s.u128();
            let v = x as $t;
            match Gd::from(EnumDecodeError::<$t, Gd>::UnassignedDiscriminant { value: v }) {
                Gd::UnassignedDiscriminant { value } => assert!(value == low(x, $w), "the discriminant is kept, zero-extended"),
                _ => panic!("an unassigned discriminant stays one"),
            }
        }
    )* };
}
type Never = core::convert::Infallible;
/// The decimal numbers an error's message names, in order.
fn numbers(e: &impl core::fmt::Display) -> Vec<u128> { e.to_string().split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() }
/// Every way of wrapping a decoding error converts to the same general error.
fn every_wrapping<E: Into<Gd>>(k: u8, i: usize, e: E) -> Gd {
    match k {
        0 => e.into(),
        1 => ItemDecodeError { index: i, error: e }.into(),
        2 => CollectionDecodeError::<core::convert::Infallible, ItemDecodeError<usize, E>>::BadItem(ItemDecodeError { index: i, error: e }).into(),
        3 => CollectionDecodeError::<E, NonZeroDecodeError>::BadLength(e).into(),
        4 => EnumDecodeError::<u8, E>::BadField(e).into(),
        5 => EnumDecodeError::<isize, E>::BadField(e).into(),
        6 => CollectionDecodeError::<LengthError, E>::BadItem(e).into(),
        7 => ItemDecodeError { index: i, error: ItemDecodeError { index: 0usize, error: e } }.into(),
        _ => EnumDecodeError::<u16, CollectionDecodeError<LengthError, ItemDecodeError<usize, E>>>::BadField(CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e })).into(),
    }
}
fn every_encode_wrapping<E: Into<Ge>>(k: u8, i: usize, e: E) -> Ge {
    match k {
        0 => e.into(),
        1 => ItemEncodeError { index: i, error: e }.into(),
        2 => CollectionEncodeError::<UsizeEncodeError, ItemEncodeError<usize, E>>::BadItem(ItemEncodeError { index: i, error: e }).into(),
        3 => CollectionEncodeError::<E, IsizeEncodeError>::BadLength(e).into(),
        4 => EnumEncodeError::<u8, E>::BadField(e).into(),
        5 => EnumEncodeError::<isize, E>::BadField(e).into(),
        _ => ItemEncodeError { index: i, error: CollectionEncodeError::<UsizeEncodeError, E>::BadItem(e) }.into(),
    }
}
fn dec<T: Decode>(b: &[u8]) -> Result<T, T::Error> { T::decode(&mut Input::new(b)) }
fn source_is<E: Error + 'static>(e: &dyn Error, f: impl FnOnce(&E) -> bool) -> bool { match e.source() { Some(x) => x.downcast_ref::<E>().is_some_and(f), None => false } }

contracts! {
    full 8 "" fn c15_discriminants(s) { disc! { s: u8, 8; i8, 8; u16, 16; i16, 16; u32, 32; i32, 32; u64, 64; i64, 64; u128, 128; i128, 128; usize, 64; isize, 64; } }
    full 8 "" fn c15_decode_conversions(s) {
        let (k, i) = (s.below(9), s.usize());
        let (v, n, m, t) = (s.u8(), s.usize(), s.usize(), s.i64());
        match s.below(6) {
            0 => match every_wrapping(k, i, Utf8Error { value: v, index: n }) { Gd::BadString(e) => assert!(e.value == v && e.index == n, "octet and offset are kept"), _ => panic!("the cause is kept") },
            1 => match every_wrapping(k, i, CStringDecodeError { index: n }) { Gd::NullString(e) => assert!(e.index == n, "the offset is kept"), _ => panic!("the cause is kept") },
            2 => match every_wrapping(k, i, NonZeroDecodeError) { Gd::NullInteger(_) => {} _ => panic!("the cause is kept") },
            3 => match every_wrapping(k, i, LengthError { capacity: n, len: m }) { Gd::SmallBuffer(e) => assert!(e.capacity == n && e.len == m, "capacity and length are kept"), _ => panic!("the cause is kept") },
            4 => match every_wrapping(k, i, SystemTimeDecodeError { timestamp: t }) { Gd::NarrowSystemTime(e) => assert!(e.timestamp == t, "the timestamp is kept"), _ => panic!("the cause is kept") },
            _ => match every_wrapping(k, i, Gd::UnassignedDiscriminant { value: n as u128 }) { Gd::UnassignedDiscriminant { value } => assert!(value == n as u128, "a converted discriminant is kept"), _ => panic!("the cause is kept") },
        }
    }
    full 8 "" fn c15_encode_conversions(s) {
        let (k, i, n) = (s.below(7), s.usize(), s.usize());
        match s.below(3) {
            0 => match every_encode_wrapping(k, i, UsizeEncodeError(n)) { Ge::LargeUsize(e) => assert!(e.0 == n, "the integer is kept"), _ => panic!("the cause is kept") },
            1 => match every_encode_wrapping(k, i, IsizeEncodeError(n as isize)) { Ge::LargeIsize(e) => assert!(e.0 == n as isize, "the integer is kept"), _ => panic!("the cause is kept") },
            _ => { let c = RefCell::new(0u8); let _g = c.borrow_mut(); let Err(e) = c.try_borrow() else { panic!("borrowed") }; match every_encode_wrapping(k, i, e) { Ge::BadBorrow(_) => {} _ => panic!("the cause is kept") } }
        }
        match Ge::from(EnumEncodeError::<isize, Ge>::BadDiscriminant(IsizeEncodeError(n as isize))) { Ge::LargeIsize(e) => assert!(e.0 == n as isize, "the discriminant is kept"), _ => panic!("the cause is kept") }
        match Ge::from(EnumEncodeError::<usize, Ge>::BadDiscriminant(UsizeEncodeError(n))) { Ge::LargeUsize(e) => assert!(e.0 == n, "the discriminant is kept"), _ => panic!("the cause is kept") }
    }
    full 20 "" fn c15_scalars(s) {
        let b: [u8; 16] = s.array::<16>();
        let x = rd(&b, 0, 4) as u32;
        if let Err(e) = dec::<char>(&b) { assert!(e.code_point == x, "the offending code point is reported") }
        let v = s.usize();
        let mut buf = [0u8; 2];
        if let Err(e) = v.encode(&mut Output::new(&mut buf)) { assert!(e.0 == v, "the offending integer is reported") }
        if let Err(e) = (v as isize).encode(&mut Output::new(&mut buf)) { assert!(e.0 == v as isize, "the offending integer is reported") }
        if let Err(e) = dec::<SystemTime>(&b) { assert!(e.timestamp == rd(&b, 0, 8) as i64, "the offending timestamp is reported") }
    }
    full 20 "" fn c15_discriminants_reported(s) {
        let b: [u8; 17] = s.array::<17>();
        match dec::<core::ops::Bound<u8>>(&b) { Err(EnumDecodeError::UnassignedDiscriminant { value }) => assert!(value == b[0] && b[0] > 2, "the discriminant is reported"), Err(_) => panic!("an integer never fails"), Ok(_) => assert!(b[0] <= 2) }
        match dec::<core::net::IpAddr>(&b) { Err(EnumDecodeError::UnassignedDiscriminant { value }) => assert!(value == b[0] && b[0] != 4 && b[0] != 6, "the discriminant is reported"), Err(_) => panic!("an address never fails"), Ok(_) => assert!(b[0] == 4 || b[0] == 6) }
    }
    full 10 "arrays of 4, every failing position" fn c15_array(s) {
        let b: [u8; 4] = s.array::<4>();
        let mut first = 4;
        let mut k = 4;
        while k > 0 { k -= 1; if b[k] == 0 { first = k } }
        match dec::<[NonZero<u8>; 4]>(&b) { Ok(_) => assert!(first == 4), Err(CollectionDecodeError::BadItem(e)) => assert!(e.index == first, "the first failing element is reported"), Err(_) => panic!("no length is read") }
        let a = [s.usize(), s.usize(), s.usize()];
        let mut first = 3;
        let mut k = 3;
        while k > 0 { k -= 1; if a[k] > 65535 { first = k } }
        let mut buf = [0u8; 8];
        match a.encode(&mut Output::new(&mut buf)) { Ok(()) => assert!(first == 3), Err(CollectionEncodeError::BadItem(e)) => assert!(e.index == first && e.error.0 == a[first], "the first failing element and its own error are reported"), Err(_) => panic!("no length is written") }
        match a[..].encode(&mut Output::new(&mut buf)) { Ok(()) => assert!(first == 3), Err(CollectionEncodeError::BadItem(e)) => assert!(e.index == first && e.error.0 == a[first], "the first failing element and its own error are reported"), Err(_) => panic!("the length fits") }
    }
    bounded 10 "capacity 2, 2 bytes" fn c15_sized_str(s) {
        let b = [2, 0, s.u8(), s.u8()];
        let w = utf8_prefix(&b[2..]);
        match dec::<SizedStr<2>>(&b) { Err(CollectionDecodeError::BadItem(e)) => assert!(w < 2 && e.index == w && e.value == b[2 + w], "octet and offset are reported"), Err(_) => panic!("the length fits"), Ok(_) => assert!(w == 2) }
    }
    bounded 10 "capacity 1, 2 bytes" fn c15_sized_str_long(s) {
        let b = [2, 0, s.u8() & 0x7F, s.u8() & 0x7F];
        match dec::<SizedStr<1>>(&b) { Err(CollectionDecodeError::BadLength(e)) => assert!(e.capacity == 1 && e.len == 2, "capacity and length are reported"), _ => panic!("the length does not fit") }
    }
    bounded 8 "capacity 2, every length prefix" fn c15_sized_slice(s) {
        let b: [u8; 4] = s.array::<4>();
        let len = rd(&b, 0, 2) as usize;
        let zero = if len > 0 && b[2] == 0 { Some(0) } else if len > 1 && b[3] == 0 { Some(1) } else { None };
        match dec::<SizedSlice<NonZero<u8>, 2>>(&b) { Err(CollectionDecodeError::BadLength(e)) => assert!(len > 2 && e.capacity == 2 && e.len == len, "capacity and length are reported"), Err(CollectionDecodeError::BadItem(e)) => assert!(len <= 2 && Some(e.index) == zero, "the first failing element is reported"), Ok(_) => assert!(len <= 2 && zero.is_none()) }
    }
    bounded 8 "at most 2 elements" fn c15_vec(s) {
        let mut b: [u8; 4] = s.array::<4>();
        b[0] = s.below(3); b[1] = 0;
        let len = b[0] as usize;
        let zero = if len > 0 && b[2] == 0 { Some(0) } else if len > 1 && b[3] == 0 { Some(1) } else { None };
        match dec::<Vec<NonZero<u8>>>(&b) { Err(CollectionDecodeError::BadItem(e)) => assert!(Some(e.index) == zero, "the first failing element is reported"), Err(_) => panic!("an integer never fails"), Ok(_) => assert!(zero.is_none()) }
    }
    native 0 "every position of a failing element among up to 400, in every collection, also nested and converted" fn c15_positions(s) {
        let n = 1 + s.len(2, 399);
        let at = s.usize() % n;
        let x = s.u8();
        // elements repeat
        let m = [1, 2, 3, 1000][s.below(4) as usize];
        let zeros: Vec<u16> = (0..n).map(|k| if k == at || (k > at && s.below(8) == 0) { 0 } else { 1 + (k % m) as u16 }).collect();
        let mut b = Vec::new();
        le(n as u128, 2, &mut b);
        for z in &zeros { le(*z as u128, 2, &mut b) }
        macro_rules! seq { ($($t:ty)*) => { $( match dec::<$t>(&b) { Err(CollectionDecodeError::BadItem(e)) => { assert!(e.index == at, "the first failing element is reported"); assert!(matches!(Gd::from(CollectionDecodeError::<core::convert::Infallible, _>::BadItem(e)), Gd::NullInteger(_))) } _ => panic!("a failing element fails the whole") } )* } }
        seq!(Vec<NonZero<u16>> LinkedList<NonZero<u16>> HashSet<NonZero<u16>> SizedSlice<NonZero<u16>, 400>);
        if n > 100 { match dec::<SizedSlice<NonZero<u16>, 100>>(&b) { Err(CollectionDecodeError::BadLength(e)) => assert!(e.capacity == 100 && e.len == n, "capacity and length are reported"), _ => panic!("an over-long length is rejected") } }
        // a map: the entry's index, whichever half fails
        let mut c = Vec::new();
        le(n as u128, 2, &mut c);
        for k in 0..n { le(if k == at && x % 2 == 0 { 0 } else { 1 + (k % m) as u128 }, 2, &mut c); le(if k == at && x % 2 == 1 { 0 } else { 7 }, 2, &mut c) }
        match dec::<HashMap<NonZero<u16>, NonZero<u16>>>(&c) { Err(CollectionDecodeError::BadItem(e)) => assert!(e.index == at, "the first failing entry is reported"), _ => panic!("a failing entry fails the whole") }
        // nested: the outer index, then the inner error
        let mut d = Vec::new();
        le(3, 2, &mut d); le(0, 2, &mut d); d.extend_from_slice(&b);
        match dec::<Vec<Vec<NonZero<u16>>>>(&d) { Err(CollectionDecodeError::BadItem(ItemDecodeError { index: 1, error: CollectionDecodeError::BadItem(e) })) => assert!(e.index == at), _ => panic!("the position in each collection is reported") }
        // text
        let mut t: Vec<u8> = (0..n).map(|k| b'a' + (k % 26) as u8).collect();
        t[at] = 0x80 | x;
        if at + 1 < n { t[at + 1] = b'!' }
        let mut b = Vec::new();
        le(n as u128, 2, &mut b);
        b.extend_from_slice(&t);
        match dec::<String>(&b) { Err(CollectionDecodeError::BadItem(e)) => { assert!(e.value == 0x80 | x && e.index == at, "octet and offset are reported"); match Gd::from(CollectionDecodeError::<core::convert::Infallible, _>::BadItem(e)) { Gd::BadString(e) => assert!(e.value == 0x80 | x && e.index == at), _ => panic!() } } _ => panic!("ill-formed text is rejected") }
        match dec::<SizedStr<400>>(&b) { Err(CollectionDecodeError::BadItem(e)) => assert!(e.value == 0x80 | x && e.index == at, "octet and offset are reported"), _ => panic!("ill-formed text is rejected") }
        match SizedStr::<400>::from_utf8(&t) { Err(StringError::BadUtf8(e)) => assert!(e.value == 0x80 | x && e.index == at, "octet and offset are reported"), _ => panic!("ill-formed text is rejected") }
        b[2 + at] = 0;
        match dec::<CString>(&b) { Err(e) => { assert!(e.index == at, "the offset is reported"); match Gd::from(e) { Gd::NullString(e) => assert!(e.index == at), _ => panic!() } } _ => panic!("an interior nul is rejected") }
        // encoding
        let big = 65536 + x as usize;
        let v: Vec<usize> = (0..n).map(|k| if k == at { big } else if k > at { 70000 } else { k }).collect();
        let is = |e: CollectionEncodeError<UsizeEncodeError, ItemEncodeError<usize, UsizeEncodeError>>| match e { CollectionEncodeError::BadItem(ref i) => i.index == at && i.error.0 == big && matches!(Ge::from(e), Ge::LargeUsize(y) if y.0 == big), _ => false };
        let cap = 2 * n + 4;
        assert!(is(encode_vec(&v, cap).0.unwrap_err()) && is(encode_vec(&v[..], cap).0.unwrap_err()) && is(encode_vec(&SizedSlice::<usize, 400>::new(&v).ok().unwrap(), cap).0.unwrap_err()));
        let l: LinkedList<usize> = v.iter().copied().collect();
        assert!(matches!(encode_vec(&l, cap).0, Err(CollectionEncodeError::BadItem((i, e))) if i == at && e.0 == big));
        // sources
        assert!(source_is::<UsizeEncodeError>(&Ge::from(UsizeEncodeError(n)), |e| e.0 == n));
        assert!(source_is::<LengthError>(&Gd::from(LengthError { capacity: 1, len: n }), |e| e.len == n));
        assert!(source_is::<Utf8Error>(&Gd::from(Utf8Error { value: x, index: n }), |e| e.index == n && e.value == x));
        assert!(source_is::<SystemTimeDecodeError>(&Gd::from(SystemTimeDecodeError { timestamp: n as i64 }), |e| e.timestamp == n as i64));
        assert!(source_is::<CStringDecodeError>(&Gd::from(CStringDecodeError { index: n }), |e| e.index == n));
        assert!(source_is::<NonZeroDecodeError>(&ItemDecodeError { index: n, error: NonZeroDecodeError }, |_| true));
        assert!(source_is::<UsizeEncodeError>(&CollectionEncodeError::<UsizeEncodeError, IsizeEncodeError>::BadLength(UsizeEncodeError(n)), |e| e.0 == n));
        assert!(source_is::<IsizeEncodeError>(&CollectionEncodeError::<UsizeEncodeError, IsizeEncodeError>::BadItem(IsizeEncodeError(at as isize)), |e| e.0 == at as isize));
        assert!(source_is::<LengthError>(&CollectionDecodeError::<LengthError, Utf8Error>::BadLength(LengthError { capacity: 1, len: n }), |e| e.len == n));
        assert!(source_is::<Utf8Error>(&CollectionDecodeError::<LengthError, Utf8Error>::BadItem(Utf8Error { value: 1, index: n }), |e| e.index == n));
        assert!(source_is::<UsizeEncodeError>(&EnumEncodeError::<usize, Never>::BadDiscriminant(UsizeEncodeError(n)), |e| e.0 == n));
        assert!(source_is::<UsizeEncodeError>(&EnumEncodeError::<u8, UsizeEncodeError>::BadField(UsizeEncodeError(n)), |e| e.0 == n));
        assert!(source_is::<CharDecodeError>(&EnumDecodeError::<char, Never>::InvalidDiscriminant(CharDecodeError { code_point: n as u32 }), |e| e.code_point == n as u32));
        assert!(source_is::<LengthError>(&EnumDecodeError::<u8, LengthError>::BadField(LengthError { capacity: at, len: n }), |e| e.len == n && e.capacity == at));
        assert!(EnumDecodeError::<u8, LengthError>::UnassignedDiscriminant { value: x }.source().is_none() && Gd::UnassignedDiscriminant { value: 1 }.source().is_none());
        assert!(source_is::<IsizeEncodeError>(&ItemEncodeError { index: n, error: IsizeEncodeError(at as isize) }, |e| e.0 == at as isize));
        assert!(source_is::<IsizeEncodeError>(&RefCellEncodeError::BadValue(IsizeEncodeError(at as isize)), |e| e.0 == at as isize));
        let busy = RefCell::new(1u8);
        let _lent = busy.borrow_mut();
        let cannot = || RefCellEncodeError::<IsizeEncodeError>::BadBorrow(busy.try_borrow().err().unwrap());
        assert!(source_is::<core::cell::BorrowError>(&cannot(), |_| true) && source_is::<core::cell::BorrowError>(&Ge::from(busy.try_borrow().err().unwrap()), |_| true));
        assert!(source_is::<Utf8Error>(&StringError::BadUtf8(Utf8Error { value: x, index: n }), |e| e.index == n && e.value == x));
        assert!(source_is::<Utf16Error>(&StringError::BadUtf16(Utf16Error { value: n as u16, index: at }), |e| e.index == at && e.value == n as u16));
        assert!(source_is::<LengthError>(&StringError::SmallBuffer(LengthError { capacity: at, len: n }), |e| e.len == n && e.capacity == at));
        assert!(source_is::<NonZeroDecodeError>(&Gd::from(NonZeroDecodeError), |_| true));
        assert!(source_is::<IsizeEncodeError>(&Ge::from(IsizeEncodeError(at as isize)), |e| e.0 == at as isize));
        // messages name the values
        assert_eq!(numbers(&UsizeEncodeError(big)), [big as u128, 65535]);
        assert_eq!(numbers(&IsizeEncodeError(big as isize)), [big as u128, 32768, 32767]);
        assert_eq!(numbers(&LengthError { capacity: n, len: big }), [n as u128, big as u128]);
        assert_eq!(numbers(&CStringDecodeError { index: n }), [n as u128]);
        assert_eq!(numbers(&SystemTimeDecodeError { timestamp: big as i64 }), [big as u128]);
        assert_eq!(numbers(&ItemDecodeError { index: n, error: CStringDecodeError { index: big } }), [n as u128, big as u128]);
        assert_eq!(numbers(&ItemEncodeError { index: n, error: CStringDecodeError { index: big } }), [n as u128, big as u128]);
        assert_eq!(numbers(&InputError { capacity: n, position: at, count: big }), [big as u128, at as u128, n as u128]);
        assert_eq!(numbers(&OutputError { capacity: n, position: at, count: big }), [big as u128, at as u128, n as u128]);
        assert_eq!(numbers(&EnumDecodeError::<u16, Never>::UnassignedDiscriminant { value: n as u16 }), [n as u16 as u128]);
        // a wrapper's message is that of the cause
        fn names(e: impl core::fmt::Display, cause: &dyn core::fmt::Display) -> bool { e.to_string().ends_with(&cause.to_string()) }
        let l = LengthError { capacity: n, len: big };
        assert!(names(CollectionDecodeError::<LengthError, Utf8Error>::BadLength(LengthError { ..l }), &l) && names(CollectionDecodeError::<Utf8Error, LengthError>::BadItem(LengthError { ..l }), &l));
        assert!(names(CollectionEncodeError::<LengthError, Utf8Error>::BadLength(LengthError { ..l }), &l) && names(CollectionEncodeError::<Utf8Error, LengthError>::BadItem(LengthError { ..l }), &l));
        assert!(names(EnumDecodeError::<u8, LengthError>::BadField(LengthError { ..l }), &l) && names(EnumEncodeError::<u8, LengthError>::BadField(LengthError { ..l }), &l) && names(RefCellEncodeError::BadValue(LengthError { ..l }), &l) && names(StringError::SmallBuffer(LengthError { ..l }), &l) && names(Gd::from(LengthError { ..l }), &l));
        let (u, c) = (UsizeEncodeError(big), CharDecodeError { code_point: n as u32 });
        assert!(names(Ge::from(UsizeEncodeError(big)), &u) && names(EnumEncodeError::<usize, Never>::BadDiscriminant(UsizeEncodeError(big)), &u) && names(EnumDecodeError::<char, Never>::InvalidDiscriminant(CharDecodeError { code_point: n as u32 }), &c));
    }
}
