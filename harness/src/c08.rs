//! C08: decoding arbitrary bytes never produces an invalid value. What each byte
//! string means is decided here, without the library.
use crate::common::*;
use crate::{contracts, returned, Src};
use core::cell::{Cell, RefCell};
use core::net::*;
use core::num::{NonZero, Saturating, Wrapping};
use core::ops::*;
use core::time::Duration;
use oct::decode::{Decode, Input};
use oct::error::*;
use oct::{SizedSlice, SizedStr};
use std::collections::{HashMap, HashSet, LinkedList};
use std::ffi::CString;
use std::rc::Rc;
use std::sync::{atomic::*, Arc, Mutex, RwLock};
use std::time::{SystemTime, UNIX_EPOCH};

/// Decodes a `T` from `b`; `f` judges the result and the number of bytes consumed.
fn dec<T: Decode>(b: &[u8], f: impl FnOnce(Result<T, T::Error>, usize)) {
    let mut i = Input::new(b);
    let r = T::decode(&mut i);
    assert!(i.position() <= b.len(), "decoding stays within the input");
    f(r, i.position());
}
/// `b` decodes as a `T` for which `same` holds, consuming `n` bytes.
fn good<T: Decode>(b: &[u8], n: usize, same: impl FnOnce(&T) -> bool) {
    dec::<T>(b, |r, m| match r { Ok(v) => { assert!(same(&v), "the bytes decode to the value they denote"); assert!(m == n, "exactly the value's bytes are consumed"); } Err(_) => panic!("valid bytes are accepted") });
}
fn bad<T: Decode>(b: &[u8], same: impl FnOnce(T::Error) -> bool) {
    dec::<T>(b, |r, _| match r { Ok(_) => panic!("invalid bytes are rejected"), Err(e) => assert!(same(e), "the error is the documented one") });
}
/// Decoding a `T` from the first `n < full` bytes of anything must panic.
fn short<T: Decode, S: Src>(s: &mut S, full: usize) {
    let b: [u8; 32] = s.array::<32>();
    let n = s.len(31, 31);
    s.assume(n < full);
    let mut i = Input::new(&b[..n]);
    let r = T::decode(&mut i);
    core::mem::forget(r);
    returned();
}
/// What the first bytes denote as a [`Probe`]: `Ok((value, length))` or the bad tag.
fn probe(b: &[u8]) -> Result<(Probe, usize), u8> {
    match b[0] { 0 => Ok((Probe { tag: 0, x: 0 }, 1)), 1 => Ok((Probe { tag: 1, x: b[1] }, 2)), t => Err(t) }
}
/// `L - 2` arbitrary bytes after their length.
fn string<const L: usize, S: Src>(s: &mut S) {
    let mut c: [u8; L] = s.array::<L>();
    c[0] = (L - 2) as u8; c[1] = 0;
    let w = utf8_prefix(&c[2..]);
    if w < L - 2 { bad::<String>(&c, |e| matches!(e, CollectionDecodeError::BadItem(Utf8Error { value, index }) if index == w && value == c[2 + w])) }
    else { good::<String>(&c, L, |v| same_bytes(&c[2..], L - 2, v.as_bytes())) }
}
fn sized_str<const L: usize, S: Src>(s: &mut S) {
    let mut c: [u8; L] = s.array::<L>();
    c[0] = (L - 2) as u8; c[1] = 0;
    let w = utf8_prefix(&c[2..]);
    if L - 2 > 2 { bad::<SizedStr<2>>(&c, |e| matches!(e, CollectionDecodeError::BadLength(LengthError { capacity: 2, len: l }) if l == L - 2)) }
    else if w < L - 2 { bad::<SizedStr<2>>(&c, |e| matches!(e, CollectionDecodeError::BadItem(Utf8Error { value, index }) if index == w && value == c[2 + w])) }
    else { good::<SizedStr<2>>(&c, L, |v| same_bytes(&c[2..], L - 2, v.as_bytes())) }
}
fn prefixed(d: &[u8]) -> Vec<u8> {
    let mut b = Vec::new();
    le(d.len() as u128, 2, &mut b);
    b.extend_from_slice(d);
    b.push(0x99);
    b
}

contracts! {
    full 20 "" fn c08_numbers(s) {
        let b: [u8; 17] = s.array::<17>();
        good::<u8>(&b, 1, |v| *v as u128 == rd(&b, 0, 1)); good::<u16>(&b, 2, |v| *v as u128 == rd(&b, 0, 2));
        good::<u32>(&b, 4, |v| *v as u128 == rd(&b, 0, 4)); good::<u64>(&b, 8, |v| *v as u128 == rd(&b, 0, 8)); good::<u128>(&b, 16, |v| *v == rd(&b, 0, 16));
        good::<i8>(&b, 1, |v| *v as u8 as u128 == rd(&b, 0, 1)); good::<i16>(&b, 2, |v| *v as u16 as u128 == rd(&b, 0, 2));
        good::<i32>(&b, 4, |v| *v as u32 as u128 == rd(&b, 0, 4)); good::<i64>(&b, 8, |v| *v as u64 as u128 == rd(&b, 0, 8)); good::<i128>(&b, 16, |v| *v as u128 == rd(&b, 0, 16));
        good::<f32>(&b, 4, |v| v.to_bits() as u128 == rd(&b, 0, 4)); good::<f64>(&b, 8, |v| v.to_bits() as u128 == rd(&b, 0, 8));
        good::<usize>(&b, 2, |v| *v as u128 == rd(&b, 0, 2)); good::<isize>(&b, 2, |v| *v == rd(&b, 0, 2) as u16 as i16 as isize);
    }
    full 8 "" fn c08_bool(s) {
        let b: [u8; 2] = s.array::<2>();
        good::<bool>(&b, 1, |v| *v == (b[0] != 0));
        good::<AtomicBool>(&b, 1, |v| v.load(Ordering::Relaxed) == (b[0] != 0));
    }
    full 8 "" fn c08_char(s) {
        let b: [u8; 5] = s.array::<5>();
        let x = rd(&b, 0, 4) as u32;
        if x >= 0x11_0000 || (x >= 0xD800 && x <= 0xDFFF) { bad::<char>(&b, |e| e.code_point == x) } else { good::<char>(&b, 4, |v| *v as u32 == x) }
    }
    full 20 "" fn c08_nonzero(s) {
        let b: [u8; 17] = s.array::<17>();
        macro_rules! nz { ($($t:ty, $w:literal, $u:ty;)*) => { $( let x = rd(&b, 0, $w); if x == 0 { bad::<NonZero<$t>>(&b, |_| true) } else { good::<NonZero<$t>>(&b, $w, |v| v.get() as $u as u128 == x) } )* } }
        nz!(u8, 1, u8; i8, 1, u8; u16, 2, u16; i16, 2, u16; u32, 4, u32; i32, 4, u32; u64, 8, u64; i64, 8, u64; u128, 16, u128; i128, 16, u128; usize, 2, u16; isize, 2, u16;);
    }
    full 12 "" fn c08_atomics(s) {
        let b: [u8; 9] = s.array::<9>();
        macro_rules! at { ($($t:ty, $w:literal, $u:ty;)*) => { $( good::<$t>(&b, $w, |v| v.load(Ordering::Relaxed) as $u as u128 == rd(&b, 0, $w)); )* } }
        at!(AtomicU8, 1, u8; AtomicI8, 1, u8; AtomicU16, 2, u16; AtomicI16, 2, u16; AtomicU32, 4, u32; AtomicI32, 4, u32; AtomicU64, 8, u64; AtomicI64, 8, u64; AtomicUsize, 2, u64; AtomicIsize, 2, u16;);
    }
    full 8 "" fn c08_option(s) {
        let b: [u8; 4] = s.array::<4>();
        if b[0] == 0 { good::<Option<Probe>>(&b, 1, |v| v.is_none()) } else {
            match probe(&b[1..]) { Ok((p, n)) => good::<Option<Probe>>(&b, 1 + n, |v| *v == Some(p)), Err(t) => bad::<Option<Probe>>(&b, |e| e == ProbeErr(t)) }
        }
    }
    full 8 "" fn c08_result(s) {
        let b: [u8; 4] = s.array::<4>();
        match probe(&b[1..]) {
            Ok((p, n)) => good::<Result<Probe, Probe>>(&b, 1 + n, |v| *v == if b[0] == 0 { Ok(p) } else { Err(p) }),
            Err(t) => bad::<Result<Probe, Probe>>(&b, |e| matches!(e, EnumDecodeError::BadField(x) if x == ProbeErr(t))),
        }
    }
    full 8 "" fn c08_bound(s) {
        let b: [u8; 4] = s.array::<4>();
        match b[0] {
            2 => good::<Bound<Probe>>(&b, 1, |v| *v == Bound::Unbounded),
            0 | 1 => match probe(&b[1..]) {
                Ok((p, n)) => good::<Bound<Probe>>(&b, 1 + n, |v| *v == if b[0] == 0 { Bound::Included(p) } else { Bound::Excluded(p) }),
                Err(t) => bad::<Bound<Probe>>(&b, |e| matches!(e, EnumDecodeError::BadField(x) if x == ProbeErr(t))),
            },
            d => bad::<Bound<Probe>>(&b, |e| matches!(e, EnumDecodeError::UnassignedDiscriminant { value } if value == d)),
        }
    }
    full 8 "" fn c08_wrappers(s) {
        let b: [u8; 3] = s.array::<3>();
        macro_rules! w { ($($t:ty, $v:ident => $e:expr;)*) => { $( match probe(&b) { Ok((p, n)) => good::<$t>(&b, n, |$v| $e == p), Err(t) => bad::<$t>(&b, |e| e == ProbeErr(t)) } )* } }
        w!(Wrapping<Probe>, v => v.0; Saturating<Probe>, v => v.0; Cell<Probe>, v => v.get(); RefCell<Probe>, v => *v.borrow(); Box<Probe>, v => **v; Rc<Probe>, v => **v; Arc<Probe>, v => **v; (Probe,), v => v.0; RangeFrom<Probe>, v => v.start; RangeTo<Probe>, v => v.end; RangeToInclusive<Probe>, v => v.end;);
    }
    full 8 "" fn c08_locks(s) {
        let b: [u8; 3] = s.array::<3>();
        match probe(&b) { Ok((p, n)) => { good::<Mutex<Probe>>(&b, n, |v| *v.lock().unwrap() == p); good::<RwLock<Probe>>(&b, n, |v| *v.read().unwrap() == p) } Err(t) => { bad::<Mutex<Probe>>(&b, |e| e == ProbeErr(t)); bad::<RwLock<Probe>>(&b, |e| e == ProbeErr(t)) } }
    }
    full 8 "" fn c08_pairs(s) {
        let b: [u8; 5] = s.array::<5>();
        macro_rules! pair { ($($t:ty, $v:ident => $x:expr, $y:expr;)*) => { $( match probe(&b) {
            Err(t) => bad::<$t>(&b, |e| e == ProbeErr(t)),
            Ok((p, n)) => match probe(&b[n..]) { Err(t) => bad::<$t>(&b, |e| e == ProbeErr(t)), Ok((q, m)) => good::<$t>(&b, n + m, |$v| $x == p && $y == q) },
        } )* } }
        pair!((Probe, Probe), v => v.0, v.1; Range<Probe>, v => v.start, v.end; RangeInclusive<Probe>, v => *v.start(), *v.end(););
    }
    full 34 "" fn c08_ip(s) {
        let b: [u8; 27] = s.array::<27>();
        good::<Ipv4Addr>(&b, 4, |v| v.to_bits() as u128 == rd(&b, 0, 4));
        good::<Ipv6Addr>(&b, 16, |v| v.to_bits() == rd(&b, 0, 16));
        match b[0] {
            4 => good::<IpAddr>(&b, 5, |v| matches!(*v, IpAddr::V4(a) if a.to_bits() as u128 == rd(&b, 1, 4))),
            6 => good::<IpAddr>(&b, 17, |v| matches!(*v, IpAddr::V6(a) if a.to_bits() == rd(&b, 1, 16))),
            d => bad::<IpAddr>(&b, |e| matches!(e, EnumDecodeError::UnassignedDiscriminant { value } if value == d)),
        }
    }
    full 34 "" fn c08_socket(s) {
        let b: [u8; 28] = s.array::<28>();
        let v4 = |a: &SocketAddrV4, k: usize| a.ip().to_bits() as u128 == rd(&b, k, 4) && a.port() as u128 == rd(&b, k + 4, 2);
        let v6 = |a: &SocketAddrV6, k: usize| a.ip().to_bits() == rd(&b, k, 16) && a.port() as u128 == rd(&b, k + 16, 2) && a.flowinfo() as u128 == rd(&b, k + 18, 4) && a.scope_id() as u128 == rd(&b, k + 22, 4);
        good::<SocketAddrV4>(&b, 6, |a| v4(a, 0));
        good::<SocketAddrV6>(&b, 26, |a| v6(a, 0));
        match b[0] {
            4 => good::<SocketAddr>(&b, 7, |a| matches!(a, SocketAddr::V4(a) if v4(a, 1))),
            6 => good::<SocketAddr>(&b, 27, |a| matches!(a, SocketAddr::V6(a) if v6(a, 1))),
            d => bad::<SocketAddr>(&b, |e| matches!(e, EnumDecodeError::UnassignedDiscriminant { value } if value == d)),
        }
    }
    full 20 "except byte strings whose nanoseconds carry the seconds past 2^64, listed as a known finding" fn c08_duration(s) {
        let b: [u8; 13] = s.array::<13>();
        let (x, y) = (rd(&b, 0, 8), rd(&b, 8, 4));
        let secs = x + y / 1_000_000_000;
        s.assume(secs <= u64::MAX as u128);
        good::<Duration>(&b, 12, |v| v.as_secs() as u128 == secs && v.subsec_nanos() as u128 == y % 1_000_000_000);
    }
    full 20 "" fn c08_system_time(s) {
        let b: [u8; 9] = s.array::<9>();
        let t = rd(&b, 0, 8) as u64 as i64;
        let e = if t >= 0 { UNIX_EPOCH.checked_add(Duration::new(t as u64, 0)) } else { UNIX_EPOCH.checked_sub(Duration::new((t as i128).unsigned_abs() as u64, 0)) };
        match e { Some(e) => good::<SystemTime>(&b, 8, |v| *v == e), None => bad::<SystemTime>(&b, |e| e.timestamp == t) }
    }
    full 8 "" fn c08_units(s) {
        let b: [u8; 2] = s.array::<2>();
        good::<()>(&b, 0, |_| true); good::<RangeFull>(&b, 0, |_| true); good::<core::marker::PhantomData<u8>>(&b, 0, |_| true); good::<core::marker::PhantomPinned>(&b, 0, |_| true);
    }
    bounded 8 "arrays of 2 and 3" fn c08_array(s) {
        let b: [u8; 7] = s.array::<7>();
        let mut at = 0;
        let mut k = 0;
        while k < 3 {
            match probe(&b[at..]) { Ok((_, n)) => at += n, Err(t) => { bad::<[Probe; 3]>(&b, |e| matches!(e, CollectionDecodeError::BadItem(x) if x.index == k && x.error == ProbeErr(t))); return } }
            k += 1;
        }
        good::<[Probe; 3]>(&b, at, |v| { let mut at = 0; let mut ok = true; let mut k = 0; while k < 3 { match probe(&b[at..]) { Ok((p, n)) => { ok = ok && v[k] == p; at += n } Err(_) => ok = false } k += 1; } ok });
    }
    slow 8 "at most 2 variable-length elements" fn c08_vec(s) {
        let mut b: [u8; 7] = s.array::<7>();
        b[0] = s.below(3); b[1] = 0;
        let len = b[0] as usize;
        let mut at = 2;
        let mut k = 0;
        while k < len {
            match probe(&b[at..]) { Ok((_, n)) => at += n, Err(t) => { bad::<Vec<Probe>>(&b, |e| matches!(e, CollectionDecodeError::BadItem(x) if x.index == k && x.error == ProbeErr(t))); return } }
            k += 1;
        }
        good::<Vec<Probe>>(&b, at, |v| { if v.len() != len { return false } let mut at = 2; let mut ok = true; let mut k = 0; while k < len { match probe(&b[at..]) { Ok((p, n)) => { ok = ok && v[k] == p; at += n } Err(_) => ok = false } k += 1; } ok });
    }
    slow 8 "capacity 2, variable-length elements, every length prefix" fn c08_sized_slice(s) {
        let b: [u8; 7] = s.array::<7>();
        let len = rd(&b, 0, 2) as usize;
        if len > 2 { bad::<SizedSlice<Probe, 2>>(&b, |e| matches!(e, CollectionDecodeError::BadLength(LengthError { capacity: 2, len: l }) if l == len)); return }
        let mut at = 2;
        let mut k = 0;
        while k < len {
            match probe(&b[at..]) { Ok((_, n)) => at += n, Err(t) => { bad::<SizedSlice<Probe, 2>>(&b, |e| matches!(e, CollectionDecodeError::BadItem(x) if x.index == k && x.error == ProbeErr(t))); return } }
            k += 1;
        }
        good::<SizedSlice<Probe, 2>>(&b, at, |v| { if v.len() != len { return false } let mut at = 2; let mut ok = true; let mut k = 0; while k < len { match probe(&b[at..]) { Ok((p, n)) => { ok = ok && v.as_slice()[k] == p; at += n } Err(_) => ok = false } k += 1; } ok });
    }
    bounded 8 "at most 2 elements" fn c08_vec_nz(s) {
        let mut b: [u8; 5] = s.array::<5>();
        b[0] = s.below(3); b[1] = 0;
        let len = b[0] as usize;
        let zero = if len > 0 && b[2] == 0 { Some(0) } else if len > 1 && b[3] == 0 { Some(1) } else { None };
        match zero { Some(k) => bad::<Vec<NonZero<u8>>>(&b, |e| matches!(e, CollectionDecodeError::BadItem(x) if x.index == k)), None => good::<Vec<NonZero<u8>>>(&b, 2 + len, |v| v.len() == len && (len < 1 || v[0].get() == b[2]) && (len < 2 || v[1].get() == b[3])) }
    }
    bounded 8 "capacity 2, every length prefix" fn c08_sized_slice_nz(s) {
        let b: [u8; 5] = s.array::<5>();
        let len = rd(&b, 0, 2) as usize;
        if len > 2 { bad::<SizedSlice<NonZero<u8>, 2>>(&b, |e| matches!(e, CollectionDecodeError::BadLength(LengthError { capacity: 2, len: l }) if l == len)); return }
        let zero = if len > 0 && b[2] == 0 { Some(0) } else if len > 1 && b[3] == 0 { Some(1) } else { None };
        match zero { Some(k) => bad::<SizedSlice<NonZero<u8>, 2>>(&b, |e| matches!(e, CollectionDecodeError::BadItem(x) if x.index == k)), None => good::<SizedSlice<NonZero<u8>, 2>>(&b, 2 + len, |v| { let v = v.as_slice(); v.len() == len && (len < 1 || v[0].get() == b[2]) && (len < 2 || v[1].get() == b[3]) }) }
    }
    bounded 10 "at most 2 bytes" fn c08_c_string(s) {
        let mut b: [u8; 5] = s.array::<5>();
        b[0] = s.below(3); b[1] = 0;
        let len = b[0] as usize;
        if len > 0 && b[2] == 0 { bad::<CString>(&b, |e| e.index == 0) }
        else if len > 1 && b[3] == 0 { bad::<CString>(&b, |e| e.index == 1) }
        else { good::<CString>(&b, 2 + len, |v| { let v = v.as_bytes(); v.len() == len && (len == 0 || v[0] == b[2]) && (len < 2 || v[1] == b[3]) }) }
    }
    bounded 10 "2 bytes" fn c08_string_2(s) { string::<4, _>(s) }
    bounded 10 "3 bytes" fn c08_string_3(s) { string::<5, _>(s) }
    bounded 10 "capacity 2, 2 bytes" fn c08_sized_str_2(s) { sized_str::<4, _>(s) }
    bounded 10 "capacity 2, 3 bytes" fn c08_sized_str_3(s) { sized_str::<5, _>(s) }
    native 0 "every code point around the boundaries, and windows of 64 anywhere" fn c08_char_edges(s) {
        let w = s.u32();
        let mut k = 0;
        while k < 64 * 24 {
            let base = match k / 64 { 0 => 0xD800, 1 => 0xE000, 2 => 0x10_0000, 3 => 0x11_0000, 4 => 0, 5 => 0x80, 6 => 0x800, 7 => 0x1_0000, n @ 8..=22 => 1 << (n + 9), _ => w };
            let x = (base as u32).wrapping_add(k % 64).wrapping_sub(32);
            let b = x.to_le_bytes();
            if x >= 0x11_0000 || (x >= 0xD800 && x <= 0xDFFF) { bad::<char>(&b, |e| e.code_point == x) } else { good::<char>(&b, 4, |v| *v as u32 == x) }
            k += 1;
        }
    }
    native 0 "up to 65535 bytes" fn c08_text_long(s) {
        let d = nearly_text(s, 65535);
        let b = prefixed(&d);
        let w = utf8_prefix(&d);
        if w < d.len() { bad::<String>(&b, |e| matches!(e, CollectionDecodeError::BadItem(Utf8Error { value, index }) if index == w && value == d[w])) }
        else { good::<String>(&b, 2 + d.len(), |v| v.as_bytes() == d) }
        if d.len() > 100 { bad::<SizedStr<100>>(&b, |e| matches!(e, CollectionDecodeError::BadLength(LengthError { capacity: 100, len }) if len == d.len())) }
        else if w < d.len() { bad::<SizedStr<100>>(&b, |e| matches!(e, CollectionDecodeError::BadItem(Utf8Error { value, index }) if index == w && value == d[w])) }
        else { good::<SizedStr<100>>(&b, 2 + d.len(), |v| v.as_bytes() == d) }
        let mut d: Vec<u8> = d.iter().map(|x| x | 1).collect();
        if !d.is_empty() && s.bool() { let k = s.usize() % d.len(); d[k] = 0; if s.bool() { let n = d.len(); d[n - 1] = 0 } }
        let b = prefixed(&d);
        match d.iter().position(|x| *x == 0) { Some(k) => bad::<CString>(&b, |e| e.index == k), None => good::<CString>(&b, 2 + d.len(), |v| v.as_bytes() == d) }
    }
    native 0 "up to 300 elements" fn c08_sequences_long(s) {
        let n = s.len(2, 300);
        let mut b = Vec::new();
        le(n as u128, 2, &mut b);
        let mut v = Vec::new();
        let mut badat = None;
        for k in 0..n {
            let t = match s.below(40) { 0 => 2 + s.below(200), x => x & 1 };
            b.push(t);
            if t == 1 { let x = s.u8(); b.push(x); v.push(Probe { tag: 1, x }) } else if t == 0 { v.push(Probe { tag: 0, x: 0 }) } else if badat.is_none() { badat = Some((k, t)) }
        }
        let used = b.len();
        for _ in 0..4 { let x = s.u8(); b.push(x) }
        macro_rules! seq { ($($t:ty, $v:ident => $e:expr;)*) => { $( match badat { Some((k, t)) => bad::<$t>(&b, |e| matches!(e, CollectionDecodeError::BadItem(x) if x.index == k && x.error == ProbeErr(t))), None => good::<$t>(&b, used, |$v| $e) } )* } }
        seq!(Vec<Probe>, w => *w == v; LinkedList<Probe>, w => w.iter().eq(v.iter()); HashSet<Probe>, w => *w == v.iter().copied().collect::<HashSet<Probe>>(););
        if n > 100 { bad::<SizedSlice<Probe, 100>>(&b, |e| matches!(e, CollectionDecodeError::BadLength(LengthError { capacity: 100, len }) if len == n)) }
        else { seq!(SizedSlice<Probe, 100>, w => w.as_slice() == v;); }
        let n2 = (n / 2) as u16;
        b[0] = n2 as u8; b[1] = (n2 >> 8) as u8;
        let half = 2 * n2 as usize;
        match badat {
            Some((k, t)) if k < half => bad::<HashMap<Probe, Probe>>(&b, |e| matches!(e, CollectionDecodeError::BadItem(x) if x.index == k / 2 && x.error == ProbeErr(t))),
            _ => { let used = 2 + v[..half].iter().map(|p| p.size()).sum::<usize>(); let m: HashMap<Probe, Probe> = v[..half].chunks(2).map(|c| (c[0], c[1])).collect(); good::<HashMap<Probe, Probe>>(&b, used, |w| *w == m) }
        }
    }
    native 0 "arrays of 12, every failing position" fn c08_array_long(s) {
        let n = s.below(13) as usize;
        let x = s.u8();
        let mut b = Vec::new();
        for k in 0..12 { if k == n { b.push(7) } else { b.push(1); b.push(x.wrapping_add(k as u8)) } }
        if n < 12 { bad::<[Probe; 12]>(&b, |e| matches!(e, CollectionDecodeError::BadItem(x) if x.index == n && x.error == ProbeErr(7))) } else { good::<[Probe; 12]>(&b, 24, |v| v.iter().enumerate().all(|(k, p)| *p == Probe { tag: 1, x: x.wrapping_add(k as u8) })) }
    }

    panics 34 "" fn c08_short_numbers(s) {
        match s.below(9) { 0 => short::<u8, _>(s, 1), 1 => short::<u16, _>(s, 2), 2 => short::<u32, _>(s, 4), 3 => short::<u64, _>(s, 8), 4 => short::<u128, _>(s, 16), 5 => short::<i64, _>(s, 8), 6 => short::<usize, _>(s, 2), 7 => short::<isize, _>(s, 2), _ => short::<f64, _>(s, 8) }
    }
    panics 34 "" fn c08_short_scalars(s) {
        match s.below(7) { 0 => short::<bool, _>(s, 1), 1 => short::<char, _>(s, 4), 2 => short::<NonZero<u32>, _>(s, 4), 3 => short::<AtomicU16, _>(s, 2), 4 => short::<SystemTime, _>(s, 8), 5 => short::<Ipv6Addr, _>(s, 16), _ => short::<SocketAddrV4, _>(s, 6) }
    }
    panics 34 "" fn c08_short_compound(s) {
        match s.below(5) { 0 => short::<Option<u8>, _>(s, 1), 1 => short::<(u8, u16), _>(s, 3), 2 => short::<[u16; 2], _>(s, 4), 3 => short::<Range<u16>, _>(s, 4), _ => short::<Duration, _>(s, 12) }
    }
    native_panics 0 "byte strings and text shorter than announced" fn c08_short_collections(s) {
        let n = s.u16() as usize;
        s.assume(n > 0);
        let k = s.usize() % n;
        let mut b = Vec::new();
        le(n as u128, 2, &mut b);
        b.resize(2 + k, b'a');
        if s.below(10) == 0 { b.truncate(1) }
        let mut i = Input::new(&b);
        match s.below(8) { 0 => { let _ = String::decode(&mut i); } 1 => { let _ = CString::decode(&mut i); } 2 => { let _ = Vec::<u8>::decode(&mut i); } 3 => { let _ = LinkedList::<u8>::decode(&mut i); } 4 => { let _ = HashSet::<u8>::decode(&mut i); } 5 => { let _ = HashMap::<u8, u8>::decode(&mut i); } 6 => { let _ = SizedStr::<70000>::decode(&mut i); } _ => { let _ = SizedSlice::<u8, 70000>::decode(&mut i); } }
        returned();
    }
    known 0 "Duration::decode panics although its error type is Infallible when the nanoseconds carry the seconds past 2^64 (secs=u64::MAX, nanos=1000000000)" fn c08_known_duration(s) {
        let _ = s.bound(1, 1);
        let b = [0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x00, 0xCA, 0x9A, 0x3B];
        let mut i = Input::new(&b);
        let _ = Duration::decode(&mut i);
    }
}
