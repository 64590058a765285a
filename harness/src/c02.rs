//! C02: compound and wrapper values survive a round trip.
use crate::common::*;
use crate::{contracts, Src};
use core::cell::{Cell, LazyCell, RefCell};
use core::marker::{PhantomData, PhantomPinned};
use core::num::{Saturating, Wrapping};
use core::ops::*;
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};
use std::borrow::Cow;
use std::rc::Rc;
use std::sync::{Arc, LazyLock, Mutex, RwLock};

/// `T` encodes (e.g. a reference or lazy value), `U` decodes.
fn cross<const B: usize, T: Encode, U: Decode, S: Src>(s: &mut S, v: &T, same: impl FnOnce(&U) -> bool) {
    let mut buf: [u8; B] = s.array::<B>();
    let n = {
        let mut o = Output::new(&mut buf);
        assert!(v.encode(&mut o).is_ok(), "encoding an encodable value succeeds");
        o.position()
    };
    let mut i = Input::new(&buf);
    match U::decode(&mut i) {
        Ok(w) => assert!(same(&w), "decoding yields the encoded value"),
        Err(_) => panic!("decoding an encoding succeeds"),
    }
    assert!(i.position() == n, "decoding consumes exactly the encoded bytes");
}

macro_rules! eq { ($s:ident, $b:literal, $v:expr) => {{ let v = $v; let w = v.clone(); roundtrip::<$b, _, _>($s, &v, |a, b| *a == w && *b == w); }}; }
macro_rules! tup {
    ($s:ident, $b:literal, $($t:ident)*) => {{ let v = ($($s.$t(),)*); let w = v; roundtrip::<$b, _, _>($s, &v, |a, b| *a == w && *b == w); }};
}
fn opt<S: Src>(s: &mut S) -> Option<Probe> { let c = s.bool(); let p = Probe::good(s); if c { Some(p) } else { None } }
fn res<S: Src>(s: &mut S) -> Result<Probe, Probe> { let c = s.bool(); let p = Probe::good(s); if c { Ok(p) } else { Err(p) } }
fn bound<S: Src>(s: &mut S) -> Bound<Probe> { let c = s.below(3); let p = Probe::good(s); match c { 0 => Bound::Included(p), 1 => Bound::Excluded(p), _ => Bound::Unbounded } }

contracts! {
    full 20 "element type with a variable-length, fallible encoding" fn c02_option(s) { let v = opt(s); eq!(s, 5, v); }
    full 20 "" fn c02_result(s) { let v = res(s); eq!(s, 5, v); }
    full 20 "" fn c02_bound(s) { let v = bound(s); eq!(s, 5, v); }
    full 20 "nested" fn c02_nested(s) {
        let v = { let c = s.bool(); let a = opt(s); if c { Some(a) } else { None } }; eq!(s, 6, v);
        let v = { let c = s.bool(); let a = opt(s); let b = opt(s); if c { Some((a, b)) } else { None } }; eq!(s, 9, v);
        let v: Result<u32, u32> = { let c = s.bool(); let a = s.u32(); if c { Ok(a) } else { Err(a) } }; eq!(s, 7, v);
    }
    full 40 "" fn c02_tuples_1_4(s) {
        { let v = (Probe::good(s),); eq!(s, 4, v); }
        { let v = (Probe::good(s), Probe::good(s)); eq!(s, 6, v); }
        { let v = (Probe::good(s), Probe::good(s), Probe::good(s)); eq!(s, 8, v); }
        tup!(s, 17, u8 u16 u64 u32);
    }
    full 40 "" fn c02_tuples_5_8(s) {
        tup!(s, 12, u16 u8 u16 u8 u32);
        tup!(s, 16, u8 u16 u8 u16 u32 u32);
        tup!(s, 15, u8 u16 u8 u16 u8 u32 u16);
        tup!(s, 18, u32 u8 u16 u8 u16 u8 u16 u8);
    }
    full 40 "" fn c02_tuples_9_12(s) {
        tup!(s, 18, u8 u16 u8 u16 u8 u16 u8 u32 u8);
        tup!(s, 20, u8 u16 u8 u16 u8 u16 u8 u32 u8 u16);
        tup!(s, 18, u8 u8 u16 u8 u8 u16 u8 u16 u8 u16 u8);
        tup!(s, 20, u16 u8 u8 u16 u8 u8 u16 u8 u16 u8 u8 u16);
    }
    bounded 20 "array lengths 0 to 4" fn c02_arrays(s) {
        { let v: [Probe; 0] = []; eq!(s, 2, v); }
        { let v = [Probe::good(s)]; eq!(s, 4, v); }
        { let v = [s.u8(), s.u8()]; eq!(s, 4, v); }
    }
    bounded 20 "array length 2, variable-length elements" fn c02_arrays_2(s) {
        { let v = [Probe::good(s), Probe::good(s)]; eq!(s, 6, v); }
    }
    bounded 20 "array length 4, nested arrays" fn c02_arrays_4(s) {
        { let v = [s.u16(), s.u16(), s.u16(), s.u16()]; eq!(s, 10, v); }
        { let v = [[s.u8(), s.u8()], [s.u8(), s.u8()]]; eq!(s, 6, v); }
    }
    slow 20 "array length 3, variable-length elements" fn c02_arrays_3(s) {
        { let v = [Probe::good(s), Probe::good(s), Probe::good(s)]; eq!(s, 8, v); }
    }
    full 20 "" fn c02_ranges(s) {
        { let v = Probe::good(s)..Probe::good(s); eq!(s, 6, v); }
        { let v = Probe::good(s)..=Probe::good(s); eq!(s, 6, v); }
        { let v = Probe::good(s)..; eq!(s, 4, v); }
        { let v = ..Probe::good(s); eq!(s, 4, v); }
        { let v = ..=Probe::good(s); eq!(s, 4, v); }
        eq!(s, 2, ..);
    }
    full 20 "" fn c02_units(s) {
        eq!(s, 2, ());
        eq!(s, 2, PhantomData::<u64>);
        roundtrip::<2, _, _>(s, &PhantomPinned, |_, _| true);
        let (r, _, n) = encoded::<2, _, _>(s, &PhantomPinned, 1);
        assert!(r.is_ok() && n == 0, "a marker has no encoding");
    }
    full 20 "" fn c02_wrappers(s) {
        { let v = Wrapping(Probe::good(s)); eq!(s, 4, v); }
        { let v = Saturating(Probe::good(s)); eq!(s, 4, v); }
        { let v = Cell::new(Probe::good(s)); let w = v.get(); roundtrip::<4, _, _>(s, &v, |a, b| a.get() == w && b.get() == w); }
        { let v = RefCell::new(Probe::good(s)); let w = *v.borrow(); roundtrip::<4, _, _>(s, &v, |a, b| *a.borrow() == w && *b.borrow() == w); }
        { let v = RefCell::new(Probe::good(s)); let w = *v.borrow(); let _g = v.borrow(); roundtrip::<4, _, _>(s, &v, |a, b| *a.borrow() == w && *b.borrow() == w); }
    }
    full 20 "" fn c02_pointers(s) {
        { let v = Box::new(Probe::good(s)); eq!(s, 4, v); }
        { let v = Rc::new(Probe::good(s)); eq!(s, 4, v); }
        { let v = Arc::new(Probe::good(s)); eq!(s, 4, v); }
    }
    full 20 "" fn c02_references(s) {
        let p = Probe::good(s);
        { let r = &p; cross::<4, _, Probe, _>(s, &r, |b| *b == p); }
        { let mut q = p; let r = &mut q; cross::<4, _, Probe, _>(s, &r, |b| *b == p); }
        { let b = Box::new(p); let r = &b; cross::<4, _, Probe, _>(s, &r, |b| *b == p); }
        { let l = LazyCell::new(|| p); let l: LazyCell<Probe, _> = l; let _ = *l; }
    }
    full 20 "" fn c02_cow(s) {
        let x = s.u16();
        { let v: Cow<'static, u16> = Cow::Owned(x); roundtrip::<4, _, _>(s, &v, |a, b| **a == x && **b == x); }
        { let v: Cow<'_, u16> = Cow::Borrowed(&x); cross::<4, _, u16, _>(s, &v, |b| *b == x); cross::<4, _, Cow<'static, u16>, _>(s, &v, |b| matches!(*b, Cow::Owned(y) if y == x)); }
    }
    full 20 "" fn c02_locks(s) {
        { let v = Mutex::new(Probe::good(s)); let w = *v.lock().unwrap(); roundtrip::<4, _, _>(s, &v, |a, b| *a.lock().unwrap() == w && *b.lock().unwrap() == w); assert!(v.try_lock().is_ok(), "the lock is released"); }
        { let v = RwLock::new(Probe::good(s)); let w = *v.read().unwrap(); roundtrip::<4, _, _>(s, &v, |a, b| *a.read().unwrap() == w && *b.read().unwrap() == w); assert!(v.try_write().is_ok(), "the lock is released"); }
    }
    native 0 "lazily initialised values, evaluated or not" fn c02_lazy(s) {
        static L: LazyLock<u32> = LazyLock::new(|| 0xDEAD_BEEF);
        cross::<6, _, u32, _>(s, &&*L, |b| *b == 0xDEAD_BEEF);
        let l: LazyCell<u32> = LazyCell::new(|| 0x0102_0304);
        cross::<6, _, u32, _>(s, &l, |b| *b == 0x0102_0304);
        let l: LazyLock<u32> = LazyLock::new(|| 0x0102_0304);
        cross::<6, _, u32, _>(s, &l, |b| *b == 0x0102_0304);
        cross::<6, _, u32, _>(s, &l, |b| *b == 0x0102_0304);
    }
    native 0 "poisoned locks" fn c02_poisoned(s) {
        let p = Probe::good(s);
        let m = Mutex::new(p);
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _g = m.lock().unwrap(); panic!("poison") }));
        assert!(m.is_poisoned());
        cross::<4, _, Probe, _>(s, &m, |b| *b == p);
        let m = RwLock::new(p);
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _g = m.write().unwrap(); panic!("poison") }));
        assert!(m.is_poisoned());
        cross::<4, _, Probe, _>(s, &m, |b| *b == p);
        let _g = m.read();
        cross::<4, _, Probe, _>(s, &m, |b| *b == p);
    }
    full 20 "" fn c02_borrowed_cell(s) {
        let v = RefCell::new(Probe::any(s));
        let _g = v.borrow_mut();
        let (r, _, n) = encoded::<4, _, _>(s, &v, 1);
        assert!(matches!(r, Err(oct::error::RefCellEncodeError::BadBorrow(_))), "a mutably borrowed cell is reported");
        assert!(n == 0, "nothing is written for a borrowed cell");
    }
    native 0 "arrays of 300 and 70000 elements" fn c02_big_arrays(s) {
        let seed = s.u64();
        let mut a = [0u16; 300];
        let mut k = 0;
        while k < 300 { a[k] = (seed as u16).wrapping_mul(k as u16 + 1).wrapping_add(k as u16); k += 1; }
        roundtrip_dyn::<[u16; 300], [u16; 300], _>(s, &a, 610, |a, b| a == b);
        let a = Box::new([seed as u8; 70000]);
        roundtrip_dyn::<Box<[u8; 70000]>, Box<[u8; 70000]>, _>(s, &a, 70010, |a, b| a == b);
    }
}
