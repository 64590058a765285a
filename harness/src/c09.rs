//! C09: unencodable values are rejected, never truncated.
use crate::common::*;
use crate::{contracts, Src};
use core::cell::{Cell, RefCell};
use core::num::{NonZero, Saturating, Wrapping};
use core::ops::*;
use oct::encode::{Encode, Output};
use oct::error::*;
use oct::{SizedSlice, SizedStr};
use std::borrow::Cow;
use std::collections::{HashMap, HashSet, LinkedList};
use std::ffi::{CStr, CString};
use std::rc::Rc;
use std::sync::{atomic::*, Arc, Mutex, RwLock};

const MAX: usize = 65535;

/// Encodes `v` after one byte of other data. Returns the result; `n` bytes follow it and
/// nothing else in the buffer changed (checked by [`encoded`]).
fn rejected<T: Encode + ?Sized, S: Src>(s: &mut S, v: &T, same: impl FnOnce(T::Error) -> bool) {
    let (r, _, n) = encoded::<4, T, S>(s, v, 1);
    match r { Ok(()) => panic!("an unencodable value is rejected"), Err(e) => assert!(same(e), "the error carries the offending value") }
    assert!(n == 0, "nothing is written for a rejected value");
}
fn accepted<T: Encode + ?Sized, S: Src>(s: &mut S, v: &T, x: u16) {
    let (r, b, n) = encoded::<4, T, S>(s, v, 1);
    assert!(r.is_ok(), "an encodable value is accepted");
    assert!(n == 2 && b[0] == (x % 256) as u8 && b[1] == (x / 256) as u8, "an encodable value is encoded in full");
}
/// Rejected because `n > 65535`, with nothing written.
fn too_long<T: Encode + ?Sized>(v: &T, n: usize, len: impl FnOnce(T::Error) -> Option<usize>) {
    let mut buf = [0x55u8; 5];
    let mut o = Output::new(&mut buf);
    o.write(&[1]).unwrap();
    match v.encode(&mut o) { Ok(()) => panic!("an over-long value is rejected"), Err(e) => assert!(len(e) == Some(n), "the error carries the offending length") }
    assert!(o.position() == 1, "nothing is written for a rejected value");
    assert!(buf == [1, 0x55, 0x55, 0x55, 0x55], "nothing is written for a rejected value");
}
fn full<T: Encode + ?Sized>(v: &T, n: usize, bytes: usize) {
    let mut buf = vec![0x55u8; bytes + 2];
    let mut o = Output::new(&mut buf);
    assert!(v.encode(&mut o).is_ok(), "an encodable value is accepted");
    assert!(o.position() == bytes, "an encodable value is encoded in full");
    assert!(buf[0] == (n % 256) as u8 && buf[1] == (n / 256) as u8 && buf[bytes] == 0x55, "the length is encoded");
}
fn clen<I>(e: CollectionEncodeError<UsizeEncodeError, I>) -> Option<usize> { match e { CollectionEncodeError::BadLength(UsizeEncodeError(n)) => Some(n), _ => None } }
static Z: [u8; 65540] = [b'z'; 65540];

macro_rules! both { ($s:ident, $v:ident, $($x:expr,)*) => { $( let x = $x; if $v > MAX { rejected($s, &x, |e| e.0 == $v) } else { accepted($s, &x, $v as u16) } )* } }

contracts! {
    full 8 "" fn c09_usize(s) {
        let v = s.usize();
        if v > MAX { rejected(s, &v, |e| e.0 == v) } else { accepted(s, &v, v as u16) }
    }
    full 8 "" fn c09_isize(s) {
        let v = s.isize();
        if v > 32767 || v < -32768 { rejected(s, &v, |e| e.0 == v) } else { accepted(s, &v, v as i16 as u16) }
    }
    full 8 "" fn c09_wrapped_usize(s) {
        let v = s.usize();
        both!(s, v, Wrapping(v), Saturating(v), Cell::new(v), Box::new(v), &v,);
    }
    full 8 "" fn c09_wrapped_usize_2(s) {
        let v = s.usize();
        both!(s, v, Rc::new(v), Arc::new(v), (v,), .. v, v .., ..=v,);
        if v != 0 { both!(s, v, NonZero::new(v).unwrap(),); }
    }
    full 8 "" fn c09_wrapped_usize_3(s) {
        let v = s.usize();
        both!(s, v, Mutex::new(v), RwLock::new(v), AtomicUsize::new(v), Cow::<usize>::Owned(v),);
    }
    full 8 "" fn c09_wrapped_usize_4(s) {
        let v = s.usize();
        if v > MAX { rejected(s, &RefCell::new(v), |e| matches!(e, RefCellEncodeError::BadValue(UsizeEncodeError(x)) if x == v)) } else { accepted(s, &RefCell::new(v), v as u16) }
    }
    full 8 "" fn c09_wrapped_isize(s) {
        let v = s.isize();
        macro_rules! both { ($($x:expr,)*) => { $( let x = $x; if v > 32767 || v < -32768 { rejected(s, &x, |e| e.0 == v) } else { accepted(s, &x, v as i16 as u16) } )* } }
        both!(Wrapping(v), Cell::new(v), Box::new(v), &v, (v,), AtomicIsize::new(v),);
        if v != 0 { both!(NonZero::new(v).unwrap(),); }
    }
    full 12 "" fn c09_parts(s) {
        // the first or second component is unencodable
        let (a, b) = (s.usize(), s.usize());
        s.assume(a > MAX || b > MAX);
        let w = if a > MAX { a } else { b };
        macro_rules! fail { ($($x:expr;)*) => { $( match encoded::<9, _, _>(s, &$x, 0).0 { Ok(()) => panic!("a failing component fails the whole"), Err(UsizeEncodeError(e)) => assert!(e == w, "the first failing component's error is returned") } )* } }
        fail!((a, b); a..b; a..=b; (1usize, a, 2usize, b););
    }
    full 8 "" fn c09_enums(s) {
        let v = s.usize();
        s.assume(v > MAX);
        assert!(matches!(encoded::<4, _, _>(s, &Some(v), 0).0, Err(UsizeEncodeError(e)) if e == v), "a failing payload fails the option");
        assert!(matches!(encoded::<4, _, _>(s, &Ok::<usize, usize>(v), 0).0, Err(UsizeEncodeError(e)) if e == v), "a failing payload fails the result");
        assert!(matches!(encoded::<4, _, _>(s, &Err::<usize, usize>(v), 0).0, Err(UsizeEncodeError(e)) if e == v), "a failing payload fails the result");
        assert!(matches!(encoded::<4, _, _>(s, &Bound::Included(v), 0).0, Err(EnumEncodeError::BadField(UsizeEncodeError(e))) if e == v), "a failing payload fails the bound");
        assert!(matches!(encoded::<4, _, _>(s, &Bound::Excluded(v), 0).0, Err(EnumEncodeError::BadField(UsizeEncodeError(e))) if e == v), "a failing payload fails the bound");
    }
    full 8 "every element position of an array of 4" fn c09_array(s) {
        let a = [s.usize(), s.usize(), s.usize(), s.usize()];
        let mut first = 4;
        let mut k = 4;
        while k > 0 { k -= 1; if a[k] > MAX { first = k } }
        let mut buf = [0u8; 9];
        let mut o = Output::new(&mut buf);
        match a.encode(&mut o) {
            Ok(()) => assert!(first == 4 && o.position() == 8, "a failing element fails the whole"),
            Err(CollectionEncodeError::BadItem(e)) => assert!(first < 4 && e.index == first && e.error.0 == a[first], "the first failing element is reported"),
            Err(_) => panic!("an array has no length to fail"),
        }
    }
    bounded 8 "at most 3 elements" fn c09_slice(s) {
        let a = [s.usize(), s.usize(), s.usize()];
        let n = s.below(4) as usize;
        let mut first = n;
        let mut k = n;
        while k > 0 { k -= 1; if a[k] > MAX { first = k } }
        let mut buf = [0u8; 9];
        let mut o = Output::new(&mut buf);
        match a[..n].encode(&mut o) {
            Ok(()) => assert!(first == n && o.position() == 2 + 2 * n, "a failing element fails the whole"),
            Err(CollectionEncodeError::BadItem(e)) => assert!(first < n && e.index == first && e.error.0 == a[first], "the first failing element is reported"),
            Err(_) => panic!("a short slice has an encodable length"),
        }
    }
    full 8 "every slice length above 65535 (zero-sized elements)" fn c09_slice_lengths(s) {
        let n = s.usize();
        s.assume(n > MAX);
        let v: &[()] = unsafe { core::slice::from_raw_parts(core::ptr::NonNull::dangling().as_ptr(), n) };
        too_long(v, n, clen);
        too_long(&v, n, clen);
        too_long(&Cow::Borrowed(v), n, clen);
    }
    full 8 "string lengths 65536 to 65540" fn c09_str_lengths(s) {
        let n = 65536 + s.below(5) as usize;
        let t = unsafe { core::str::from_utf8_unchecked(&Z[..n]) };
        too_long(t, n, clen);
        too_long(&Z[..n], n, clen);
    }
    native 0 "lengths 65533 to 65538 and up to 131072" fn c09_lengths(s) {
        let n = if s.bool() { 65533 + s.below(6) as usize } else { s.len(1, 131072) };
        let d = vec![b'q'; n];
        let t = String::from_utf8(d.clone()).unwrap();
        let c = CString::new(d.clone()).unwrap();
        macro_rules! all { ($($v:expr;)*) => { $( if n > MAX { too_long(&$v, n, clen) } else { full(&$v, n, n + 2) } )* } }
        all!(d[..]; d; t[..]; t; c; *c; Cow::Borrowed(&t[..]); Box::<str>::from(&t[..]); Rc::<[u8]>::from(&d[..]); SizedSlice::<u8, 131072>::new(&d).ok().unwrap(); SizedStr::<131072>::new(&t).ok().unwrap(); Mutex::new(d.clone()););
        let l: LinkedList<u8> = d.iter().copied().collect();
        if n > MAX { too_long(&l, n, clen) } else { full(&l, n, n + 2) }
        let m: HashSet<u32> = (0..n as u32).collect();
        if n > MAX { too_long(&m, n, clen) } else { full(&m, n, 4 * n + 2) }
        let m: HashMap<u32, u8> = (0..n as u32).map(|k| (k, 1)).collect();
        if n > MAX { too_long(&m, n, clen) } else { full(&m, n, 5 * n + 2) }
    }
    native 0 "every position of a failing element among up to 200" fn c09_positions(s) {
        let n = 1 + s.len(1, 199);
        let at = s.usize() % n;
        let x = s.u8();
        let mut v: Vec<Probe> = (0..n).map(|k| if k % 3 == 0 { Probe { tag: 0, x: 0 } } else { Probe { tag: 1, x: k as u8 } }).collect();
        v[at] = Probe { tag: 2, x };
        if at + 1 < n { let k = n - 1; v[k] = Probe { tag: 2, x: x.wrapping_add(1) } }
        let is = |e: CollectionEncodeError<UsizeEncodeError, ItemEncodeError<usize, ProbeErr>>| matches!(e, CollectionEncodeError::BadItem(e) if e.index == at && e.error == ProbeErr(x));
        let cap = 2 * n + 4;
        assert!(is(encode_vec(&v[..], cap).0.unwrap_err()) && is(encode_vec(&v, cap).0.unwrap_err()) && is(encode_vec(&Box::<[Probe]>::from(&v[..]), cap).0.unwrap_err()));
        let z = SizedSlice::<Probe, 200>::new(&v).ok().unwrap();
        assert!(is(encode_vec(&z, cap).0.unwrap_err()));
        let l: LinkedList<Probe> = v.iter().copied().collect();
        assert!(matches!(encode_vec(&l, cap).0, Err(CollectionEncodeError::BadItem((i, e))) if i == at && e == ProbeErr(x)));
        // a nested collection reports the position in each
        let nested = vec![vec![], v.clone(), vec![Probe { tag: 2, x: 9 }]];
        assert!(matches!(encode_vec(&nested, 2 * cap).0, Err(CollectionEncodeError::BadItem(ItemEncodeError { index: 1, error: CollectionEncodeError::BadItem(e) })) if e.index == at && e.error == ProbeErr(x)));
        // maps and sets: the failing entry is reported at its position in iteration order
        let m: HashSet<Probe> = (0..n).map(|k| if k == at { Probe { tag: 2, x } } else { Probe { tag: 1, x: k as u8 } }).collect();
        let k = m.iter().position(|p| p.tag == 2).unwrap();
        assert!(matches!(encode_vec(&m, cap).0, Err(CollectionEncodeError::BadItem(e)) if e.index == k && e.error == ProbeErr(x)));
        let m: HashMap<Probe, Probe> = (0..n).map(|k| (if k == at && x % 2 == 0 { Probe { tag: 2, x } } else { Probe { tag: 1, x: k as u8 } }, if k == at && x % 2 == 1 { Probe { tag: 2, x } } else { Probe { tag: 0, x: 0 } })).collect();
        if m.iter().any(|(k, v)| !k.ok() || !v.ok()) {
            let k = m.iter().position(|(k, v)| !k.ok() || !v.ok()).unwrap();
            assert!(matches!(encode_vec(&m, 2 * cap).0, Err(CollectionEncodeError::BadItem(e)) if e.index == k && e.error == ProbeErr(x)));
        } else { assert!(encode_vec(&m, 2 * cap).0.is_ok()) }
    }
    full 8 "" fn c09_probe_parts(s) {
        // every combination of failing and succeeding components
        let (a, b, c) = (Probe::any(s), Probe::any(s), Probe::any(s));
        let e = if !a.ok() { Some(a.x) } else if !b.ok() { Some(b.x) } else if !c.ok() { Some(c.x) } else { None };
        let r = encoded::<7, _, _>(s, &(a, b, c), 0);
        assert!(r.0 == match e { Some(x) => Err(ProbeErr(x)), None => Ok(()) }, "a tuple fails exactly when a component does");
        let (o, _, n) = encoded::<4, _, _>(s, &Some(a), 0);
        assert!(o == if a.ok() { Ok(()) } else { Err(ProbeErr(a.x)) }, "an option fails exactly when its payload does");
        assert!(!a.ok() || n == 1 + a.size(), "an encodable option is encoded in full");
    }
}
