//! C13: a slot returns what was written and exposes only its used part.
use crate::common::*;
use crate::{contracts, returned, Src};
use core::borrow::{Borrow, BorrowMut};
use oct::encode::SizedEncode;
use oct::Slot;

fn is<T>(z: &Slot<T>, m: &[u8], cap: usize) {
    assert!(z.capacity() == cap && z.len() == m.len() && z.is_empty() == (m.len() == 0) && z.is_full() == (m.len() == cap), "length and capacity agree");
    assert!(m.len() <= cap, "the length never exceeds the capacity");
    assert!(eq_slices(z.as_slice(), m), "the view is the used part");
}
fn bytes_of(p: &Probe) -> ([u8; 2], usize) { if p.tag == 0 { ([0, 0], 1) } else { ([1, p.x], 2) } }

contracts! {
    full 8 "" fn c13_write_read(s) {
        let (p, q) = (Probe::any(s), Probe::any(s));
        let mut z = Slot::<Probe>::new();
        is(&z, &[], 2);
        let r = z.write(p);
        let (b, n) = if p.ok() { bytes_of(&p) } else { ([0, 0], 0) };
        assert!(r == if p.ok() { Ok(()) } else { Err(ProbeErr(p.x)) }, "writing succeeds exactly when encoding does");
        is(&z, &b[..n], 2);
        if p.ok() { assert!(z.read() == Ok(p), "reading gives back the written value"); assert!(z.read() == Ok(p), "also when reading again"); }
        let r = z.write(&q);
        if q.ok() { let (c, m) = bytes_of(&q); assert!(r.is_ok()); is(&z, &c[..m], 2); assert!(z.read() == Ok(q), "reading gives back the last written value"); }
        else { assert!(r == Err(ProbeErr(q.x)), "a failed write reports the error"); assert!(z.len() == n && z.capacity() == 2, "a failed write leaves the length as it was"); }
    }
    full 8 "" fn c13_sized_never_overflows(s) {
        let a = [Probe::good(s), Probe::good(s)];
        let mut z = Slot::<[Probe; 2]>::new();
        assert!(z.capacity() == 4 && z.capacity() == <[Probe; 2]>::MAX_ENCODED_SIZE, "sized for the type");
        assert!(z.write(a).is_ok(), "an encoding always fits");
        assert!(z.len() == a[0].size() + a[1].size());
        assert!(z.read().ok() == Some(a), "reading gives back the written value");
        let mut z = Slot::<Option<u16>>::default();
        let v = if s.bool() { Some(s.u16()) } else { None };
        assert!(z.write(v).is_ok() && z.len() == if v.is_some() { 3 } else { 1 } && z.read().ok() == Some(v) && z.capacity() == 3);
    }
    bounded 8 "capacity 3, 3 operations" fn c13_history(s) {
        let mut z = Slot::<Probe>::with_capacity(3);
        let mut buf = [0u8; 3];
        let mut len = 0;
        let mut k = 0;
        while k < 3 {
            match s.below(4) {
                0 => { let p = Probe::good(s); assert!(z.write(p).is_ok()); let (b, n) = bytes_of(&p); buf[0] = b[0]; if n == 2 { buf[1] = b[1] } len = n; assert!(z.read() == Ok(p), "reading gives back the written value") }
                1 => { let d: [u8; 3] = s.array::<3>(); let n = s.below(4) as usize; z.copy_from_slice(&d[..n]); let mut j = 0; while j < n { buf[j] = d[j]; j += 1; } len = n; }
                2 => { let n = s.below(4) as usize; z.set_len(n); len = n }
                _ => { let j = s.below(3) as usize; let x = s.u8(); let m = z.as_mut_slice(); assert!(m.len() == 3, "the mutable view is the whole buffer"); m[j] = x; buf[j] = x }
            }
            is(&z, &buf[..len], 3);
            assert!(eq_slices(z.as_mut_slice(), &buf), "the buffer holds what was put there");
            k += 1;
        }
    }
    full 8 "capacity 4, used lengths 0 to 4" fn c13_views(s) {
        let mut b: [u8; 4] = s.array::<4>();
        let n = s.below(5) as usize;
        let mut z = Slot::<u32>::with_capacity(4);
        z.as_mut_slice().copy_from_slice(&b);
        is(&z, &[], 4);
        z.set_len(n);
        let v: &[u8] = z.as_ref(); assert!(eq_slices(v, &b[..n]), "as_ref is the used part");
        let v: &[u8] = z.borrow(); assert!(eq_slices(v, &b[..n]), "borrow is the used part");
        let v: &[u8] = &z; assert!(eq_slices(v, &b[..n]), "deref is the used part");
        assert!(eq_slices(&z[..], &b[..n]), "indexing sees the used part");
        assert!(z.as_ptr() == z.as_slice().as_ptr());
        let c: [u8; 4] = s.array::<4>();
        let m = s.below(5) as usize;
        let mut d = c;
        let e = eq_slices(&b[..n], &c[..m]);
        assert!((z == c[..m]) == e && (z == &c[..m]) == e && (z == &mut d[..m]) == e, "comparison sees exactly the used part");
        let v: &mut [u8] = z.as_mut(); assert!(eq_slices(v, &b), "the mutable view is the whole buffer");
        let v: &mut [u8] = z.borrow_mut(); assert!(eq_slices(v, &b), "the mutable view is the whole buffer");
        let v: &mut [u8] = &mut z; assert!(eq_slices(v, &b), "the mutable view is the whole buffer");
        let (j, x) = (s.below(4) as usize, s.u8());
        z[j] = x;
        b[j] = x;
        assert!(unsafe { *z.as_mut_ptr().add(j) } == x);
        is(&z, &b[..n], 4);
        if n == 4 { assert!(z.read().ok() == Some(rd(&b, 0, 4) as u32), "decoding sees the used part") }
    }
    panics 8 "every used length short of a u32" fn c13_read_sees_only_used(s) {
        let n = s.below(4) as usize;
        let mut z = Slot::<u32>::new();
        let r = z.write(s.u32());
        if r.is_err() { return }
        z.set_len(n);
        let _ = z.read();
        returned();
    }
    panics 8 "capacity 2, every length beyond" fn c13_set_len_too_long(s) {
        let n = s.usize();
        s.assume(n > 2);
        let mut z = Slot::<u16>::new();
        z.set_len(n);
        returned();
    }
    panics 8 "capacity 2, sources of 3 and 4 bytes" fn c13_copy_too_long(s) {
        let d: [u8; 4] = s.array::<4>();
        let n = 3 + s.below(2) as usize;
        let mut z = Slot::<u16>::new();
        z.copy_from_slice(&d[..n]);
        returned();
    }
    full 8 "capacity 3" fn c13_raw_parts(s) {
        let mut b = Vec::with_capacity(3);
        b.push(s.u8()); b.push(s.u8()); b.push(s.u8());
        let m = [b[0], b[1], b[2]];
        let n = s.below(4) as usize;
        let p = Box::into_raw(b.into_boxed_slice()) as *mut u8;
        let z = unsafe { Slot::<u16>::from_raw_parts(p, 3, n) };
        is(&z, &m[..n], 3);
        if n >= 2 { assert!(z.read().ok() == Some(m[0] as u16 + 256 * m[1] as u16)) }
    }
    native 0 "refused operations leave the slot as it was; up to 70000 bytes; 30 operations" fn c13_long(s) {
        use std::panic::{catch_unwind, AssertUnwindSafe};
        let cap = s.len(4, 70000);
        let mut z = Slot::<Vec<Probe>>::with_capacity(cap);
        let mut buf = vec![0u8; cap];
        let mut len = 0;
        for _ in 0..30 {
            match s.below(5) {
                0 => {
                    let n = if s.bool() { s.below(9) as usize } else { s.u16() as usize % 40000 };
                    let x = s.u8();
                    let mut v: Vec<Probe> = (0..n).map(|k| if x.wrapping_add(k as u8) % 3 == 0 { Probe { tag: 0, x: 0 } } else { Probe { tag: 1, x: k as u8 } }).collect();
                    let fails = n > 0 && s.below(4) == 0;
                    if fails { let k = s.usize() % n; v[k] = Probe { tag: 2, x } }
                    let need = 2 + v.iter().map(|p| p.size()).sum::<usize>();
                    if need > cap { continue }
                    let r = z.write(&v);
                    assert!(r.is_err() == fails);
                    if fails { buf.copy_from_slice(z.as_mut_slice()); } else {
                        let mut e = Vec::new(); le(n as u128, 2, &mut e); for p in &v { p.emit(&mut e) }
                        buf[..e.len()].copy_from_slice(&e); len = e.len();
                        assert!(z.read().ok() == Some(v));
                    }
                }
                1 => {
                    let n = if s.below(4) == 0 { cap + 1 + s.below(3) as usize } else { s.usize() % (cap + 1) };
                    let x = s.u8();
                    let d: Vec<u8> = (0..n).map(|k| x.wrapping_add(k as u8)).collect();
                    let r = catch_unwind(AssertUnwindSafe(|| z.copy_from_slice(&d)));
                    assert!(r.is_ok() == (n <= cap));
                    if n <= cap { buf[..n].copy_from_slice(&d); len = n }
                }
                2 => {
                    let n = if s.below(4) == 0 { s.usize() } else { s.usize() % (cap + 1) };
                    let r = catch_unwind(AssertUnwindSafe(|| z.set_len(n)));
                    assert!(r.is_ok() == (n <= cap));
                    if n <= cap { len = n }
                }
                3 => if cap > 0 { let (j, x) = (s.usize() % cap, s.u8()); z.as_mut_slice()[j] = x; buf[j] = x },
                _ => assert!(format!("{z:?}") == format!("{:?}", &buf[..len])),
            }
            is(&z, &buf[..len], cap);
            assert!(z.as_mut_slice() == buf);
        }
    }
}
