//! C16: owned elements are never duplicated, destroyed twice or used after a move.
use crate::common::*;
use crate::{contracts, Src};
use core::mem::MaybeUninit;
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};
use oct::{SizedIter, SizedSlice};
use std::collections::{HashMap, HashSet, LinkedList};
use std::rc::Rc;
use std::sync::Arc;

const M: usize = 400;
/// Number of times each token was destroyed, and number of tokens made.
static mut GONE: [u8; M] = [0; M];
static mut MADE: usize = 0;

fn reset() { unsafe { MADE = 0; let mut k = 0; while k < if cfg!(kani) { 8 } else { M } { GONE[k] = 0; k += 1; } } }
fn made() -> usize { unsafe { MADE } }
fn gone(k: usize) -> u8 { unsafe { GONE[k] } }

/// An element with identity: every destruction is counted, every use checked.
pub struct Tok(usize);
impl Tok {
    fn new() -> Self { unsafe { let k = MADE; MADE += 1; Tok(k) } }
    fn id(&self) -> usize { assert!(gone(self.0) == 0, "a destroyed element is never exposed"); self.0 }
}
impl Drop for Tok { fn drop(&mut self) { unsafe { assert!(GONE[self.0] == 0, "no element is destroyed twice"); GONE[self.0] += 1; } } }
impl Clone for Tok { fn clone(&self) -> Self { self.id(); Tok::new() } }
impl PartialEq for Tok { fn eq(&self, o: &Self) -> bool { self.id() == o.id() } }
impl Eq for Tok {}
impl core::hash::Hash for Tok { fn hash<H: core::hash::Hasher>(&self, h: &mut H) { self.id().hash(h) } }
/// Decoding consumes a byte; zero cannot be decoded.
impl Decode for Tok {
    type Error = ProbeErr;
    fn decode(i: &mut Input) -> Result<Self, ProbeErr> { let x = i.read(1).unwrap()[0]; if x == 0 { Err(ProbeErr(0)) } else { Ok(Tok::new()) } }
}
fn all_alive() { let mut k = 0; while k < made() { assert!(gone(k) == 0, "an owned element is still alive"); k += 1; } }
fn all_gone_once() { let mut k = 0; while k < made() { assert!(gone(k) == 1, "an element handed over is destroyed exactly once"); k += 1; } }
fn three() -> SizedSlice<Tok, 3> { reset(); let z = SizedSlice::from([Tok::new(), Tok::new(), Tok::new()]); all_alive(); z }
/// `n` of at most 3 elements.
fn some(n: usize) -> SizedSlice<Tok, 3> {
    reset();
    let mut b = [const { MaybeUninit::<Tok>::uninit() }; 3];
    let mut k = 0;
    while k < n { b[k].write(Tok::new()); k += 1; }
    unsafe { SizedSlice::from_raw_parts(b, n) }
}
fn decoded<T: Decode, S: Src>(s: &mut S, count: usize, each: impl FnOnce(&T) -> usize) {
    reset();
    let b: [u8; 5] = s.array::<5>();
    let mut b = b;
    b[0] = count as u8; b[1] = 0;
    let r = T::decode(&mut Input::new(&b));
    match r {
        Ok(v) => { all_alive(); assert!(made() == count && each(&v) == count, "every decoded element is owned"); drop(v); }
        Err(_) => { let mut k = 0; while k < made() { assert!(gone(k) <= 1, "no element is destroyed twice"); k += 1; } }
    }
    let mut k = 0;
    while k < made() { assert!(gone(k) <= 1, "no element is destroyed twice"); k += 1; }
}

contracts! {
    full 10 "capacity 3" fn c16_array_in_and_out(s) {
        let z = three();
        assert!(made() == 3 && z.as_slice()[0].id() == 0 && z.as_slice()[2].id() == 2, "elements are moved, not copied");
        let n = s.below(4) as usize;
        let mut i = z.into_iter();
        all_alive();
        let mut k = 0;
        while k < n { match i.next() { Some(t) => { assert!(t.id() == k, "the elements come out in order"); drop(t); assert!(gone(k) == 1); } None => panic!("there is another element") } k += 1; }
        let mut k = n;
        while k < 3 { assert!(gone(k) == 0, "elements not yet handed out are alive"); k += 1; }
        drop(i);
        let mut k = 0;
        while k < 3 { assert!(gone(k) <= 1 && (k >= n || gone(k) == 1), "no element is destroyed twice"); k += 1; }
    }
    full 10 "capacity 3, every length, every interleaving of 4 steps from both ends" fn c16_interleaved(s) {
        let n = s.below(4) as usize;
        let mut i = some(n).into_iter();
        all_alive();
        let (mut lo, mut hi) = (0, n);
        let mut kept: [Option<Tok>; 4] = [None, None, None, None];
        let mut k = 0;
        while k < 4 {
            let t = if s.bool() { let t = i.next(); if lo < hi { assert!(t.is_some()); assert!(t.as_ref().unwrap().id() == lo, "front"); lo += 1 } else { assert!(t.is_none(), "nothing is handed out twice") } t }
            else { let t = i.next_back(); if lo < hi { hi -= 1; assert!(t.is_some()); assert!(t.as_ref().unwrap().id() == hi, "back") } else { assert!(t.is_none(), "nothing is handed out twice") } t };
            if s.bool() { kept[k] = t } else { drop(t) }
            let r = i.as_slice();
            assert!(r.len() == hi - lo);
            let mut j = 0;
            while j < r.len() { assert!(r[j].id() == lo + j, "the rest is alive and in order"); j += 1; }
            k += 1;
        }
        drop(i);
        let mut j = 0;
        while j < 4 { if let Some(t) = &kept[j] { t.id(); } j += 1; }
        drop(kept);
        let mut j = 0;
        while j < n { assert!(gone(j) <= 1 && (j >= lo && j < hi || gone(j) == 1), "handed-out elements are destroyed exactly once"); j += 1; }
    }
    full 10 "capacity 3, every length" fn c16_vec(s) {
        let n = s.below(4) as usize;
        let v = some(n).into_vec();
        all_alive();
        assert!(v.len() == n && made() == n);
        let mut k = 0;
        while k < n { assert!(v[k].id() == k, "elements are moved in order"); k += 1; }
        drop(v);
        all_gone_once();
    }
    full 10 "capacity 3, every length" fn c16_box(s) {
        let n = s.below(4) as usize;
        let v: Box<[Tok]> = if s.bool() { some(n).into_boxed_slice() } else { some(n).into() };
        all_alive();
        assert!(v.len() == n && made() == n);
        let mut k = 0;
        while k < n { assert!(v[k].id() == k, "elements are moved in order"); k += 1; }
        drop(v);
        all_gone_once();
    }
    full 10 "capacity 3, every length" fn c16_raw_parts(s) {
        let n = s.below(4) as usize;
        let (b, m) = some(n).into_raw_parts();
        assert!(m == n);
        all_alive();
        let z = unsafe { SizedSlice::<Tok, 3>::from_raw_parts(b, m) };
        all_alive();
        let (b, m) = z.into_raw_parts();
        assert!(m == n);
        let mut k = 0;
        for x in b { if k < n { let t = unsafe { x.assume_init() }; assert!(t.id() == k, "elements are moved in order"); } k += 1; }
        all_gone_once();
    }
    full 10 "capacity 3, every length" fn c16_clone(s) {
        let n = s.below(4) as usize;
        let z = some(n);
        let c = z.clone();
        assert!(made() == 2 * n && c.len() == n);
        all_alive();
        let mut k = 0;
        while k < n { assert!(c.as_slice()[k].id() == n + k && z.as_slice()[k].id() == k, "a clone has its own elements"); k += 1; }
        drop(c.into_vec());
        let mut k = 0;
        while k < n { assert!(gone(k) == 0 && gone(n + k) == 1, "destroying a clone leaves the original alone"); k += 1; }
        drop(z.into_vec());
        all_gone_once();
    }
    full 10 "capacity 2, every length" fn c16_clone_iter(s) {
        reset();
        let mut i = SizedSlice::from([Tok::new(), Tok::new()]).into_iter();
        let n = s.below(3) as usize;
        let back = s.bool();
        let mut k = 0;
        while k < n { drop(if back { i.next_back() } else { i.next() }); k += 1; }
        let before = made();
        let mut c = i.clone();
        assert!(made() == before + 2 - n, "exactly the remaining elements are cloned");
        let mut k = 0;
        while k < 2 - n { let t = c.next(); assert!(t.is_some()); assert!(t.unwrap().id() == before + k, "the clone has its own elements"); k += 1; }
        assert!(c.next().is_none());
        drop(c);
        let mut k = 0;
        while k < 2 - n { let t = i.next(); assert!(t.is_some()); assert!(t.unwrap().id() == if back { k } else { n + k }, "the original still has its elements"); k += 1; }
        drop(i);
        all_gone_once();
    }
    full 10 "capacity 3, lengths 1 to 3" fn c16_borrowed(s) {
        reset();
        let a = [Tok::new(), Tok::new(), Tok::new()];
        let n = 1 + s.below(3) as usize;
        let Ok(mut z) = SizedSlice::<Tok, 3>::new(&a[..n]) else { panic!("the elements fit") };
        assert!(made() == 3 + n);
        all_alive();
        {
            let k = s.usize() % n;
            z.as_mut_slice()[k] = Tok::new();
            assert!(gone(3 + k) == 1, "a replaced element is destroyed once");
            let r = z.each_ref();
            assert!(r.len() == n && r.as_slice()[k].id() == 3 + n);
        }
        let c = made();
        drop(z.into_vec());
        let mut k = 3;
        while k < c { assert!(gone(k) == 1, "an element handed over is destroyed exactly once"); k += 1; }
        assert!(gone(0) == 0 && gone(1) == 0 && gone(2) == 0, "borrowed elements are left alone");
    }
    full 10 "capacity 2, 0 to 3 elements offered" fn c16_collect(s) {
        reset();
        let n = s.below(4) as usize;
        let mut left = n;
        let z: SizedSlice<Tok, 2> = core::iter::from_fn(|| if left > 0 { left -= 1; Some(Tok::new()) } else { None }).collect();
        let m = if n < 2 { n } else { 2 };
        assert!(z.len() == m);
        let mut k = 0;
        while k < m { assert!(z.as_slice()[k].id() == k, "collected elements are alive"); k += 1; }
        drop(z.into_vec());
        let mut k = 0;
        while k < made() { assert!(gone(k) == 1 || k >= m && gone(k) <= 1, "an element handed over is destroyed exactly once"); k += 1; }
    }
    full 10 "arrays of 3, every failing position" fn c16_decode_array(s) {
        reset();
        let b: [u8; 3] = s.array::<3>();
        let r = <[Tok; 3]>::decode(&mut Input::new(&b));
        if let Ok(v) = r { assert!(made() == 3 && v[0].id() == 0 && v[1].id() == 1 && v[2].id() == 2, "every decoded element is owned"); all_alive(); drop(v); all_gone_once(); return }
        let mut k = 0;
        while k < made() { assert!(gone(k) <= 1, "no element is destroyed twice"); k += 1; }
    }
    bounded 10 "at most 2 elements, every failing position" fn c16_decode_vec(s) { let n = s.below(3) as usize; decoded::<Vec<Tok>, _>(s, n, |v| { let mut k = 0; while k < v.len() { assert!(v[k].id() == k); k += 1; } v.len() }) }
    full 10 "capacity 3, every failing position" fn c16_decode_sized(s) { let n = s.below(4) as usize; decoded::<SizedSlice<Tok, 3>, _>(s, n, |v| { let mut k = 0; while k < v.len() { assert!(v.as_slice()[k].id() == k); k += 1; } v.len() }) }
    full 10 "every failing position" fn c16_decode_parts(s) {
        reset();
        let b: [u8; 4] = s.array::<4>();
        match <(Tok, Tok, Tok)>::decode(&mut Input::new(&b)) { Ok((x, y, z)) => { all_alive(); assert!(x.id() == 0 && y.id() == 1 && z.id() == 2); } Err(_) => {} }
        all_gone_once();
        match Option::<Tok>::decode(&mut Input::new(&b)) { Ok(Some(x)) => assert!(x.id() + 1 == made()), _ => {} }
        all_gone_once();
        match Result::<Tok, Tok>::decode(&mut Input::new(&b)) { Ok(Ok(x) | Err(x)) => assert!(x.id() + 1 == made()), Err(_) => {} }
        all_gone_once();
        match core::ops::Range::<Tok>::decode(&mut Input::new(&b)) { Ok(r) => assert!(r.start.id() + 1 == r.end.id()), Err(_) => {} }
        all_gone_once();
        match Box::<Tok>::decode(&mut Input::new(&b)) { Ok(x) => assert!(x.id() + 1 == made()), Err(_) => {} }
        all_gone_once();
        match Rc::<Tok>::decode(&mut Input::new(&b)) { Ok(x) => { assert!(x.id() + 1 == made()); let y = x.clone(); drop(x); y.id(); } Err(_) => {} }
        all_gone_once();
    }
    full 10 "heap-allocated elements; capacity 2, every length; no invalid or double free" fn c16_heap(s) {
        let (a, b) = (s.u8(), s.u8());
        let mk = || SizedSlice::<Box<u8>, 2>::from([Box::new(a), Box::new(b)]);
        match s.below(4) {
            0 => { let v = mk().into_vec(); assert!(v.len() == 2 && *v[0] == a && *v[1] == b); }
            1 => { let mut i = mk().into_iter(); let x = i.next_back(); let y = i.next(); assert!(i.next().is_none()); drop(i); assert!(*y.unwrap() == a && *x.unwrap() == b); }
            2 => { let z = mk(); let c = z.clone(); drop(z.into_boxed_slice()); assert!(*c.as_slice()[0] == a && *c.as_slice()[1] == b); drop(c.into_vec()); }
            _ => { let mut i = mk().into_iter(); drop(i.next()); let j = i.clone(); drop(i.next()); assert!(**j.as_slice().first().unwrap() == b); }
        }
    }
    native 0 "nth on a fresh iterator: nothing it yields was destroyed, nothing is destroyed twice" fn c16_nth(s) {
        let n = s.below(4) as usize;
        let mut k = 1;
        while k < n {
            let mut i = some(n).into_iter();
            let x = i.nth(k);
            assert!(x.as_ref().is_some_and(|x| x.id() == k), "nth(k) yields element k, alive");
            core::mem::forget(i);
            drop(x);
            assert!(gone(k) == 1);
            k += 1;
        }
        if n > 0 { let mut i = some(n).into_iter(); assert!(i.nth(n + 1).is_none()); }
    }
    native 0 "up to 100 elements, random histories" fn c16_long(s) {
        reset();
        let n = s.len(3, 100);
        let z: SizedSlice<Tok, 100> = (0..n).map(|_| Tok::new()).collect();
        all_alive();
        let mut i = z.into_iter();
        let (mut lo, mut hi) = (0, n);
        let mut kept = Vec::new();
        for _ in 0..s.below(120) {
            match s.below(3) {
                0 => { if let Some(t) = i.next() { assert!(t.id() == lo); lo += 1; kept.push(t) } else { assert!(lo == hi) } }
                1 => { if let Some(t) = i.next_back() { hi -= 1; assert!(t.id() == hi); drop(t); assert!(gone(hi) == 1) } else { assert!(lo == hi) } }
                _ => assert!(i.as_slice().iter().map(|t| t.id()).eq(lo..hi)),
            }
        }
        if s.bool() { let m = made(); let c = i.clone(); assert!(made() == m + hi - lo); let z: Vec<Tok> = c.collect(); assert!(z.len() == hi - lo); drop(z); for k in m..made() { assert!(gone(k) == 1) } }
        kept.extend(i);
        for t in &kept { t.id(); }
        drop(kept);
        for k in 0..n { assert!(gone(k) == 1, "handed-out elements are destroyed exactly once") }
    }
    native 0 "every collection, up to 100 elements, every failing position" fn c16_decode_long(s) {
        let n = s.len(3, 100);
        let at = if s.bool() { n } else { s.usize() % (n + 1) };
        let mut b = Vec::new();
        le(n as u128, 2, &mut b);
        for k in 0..n { b.push(if k == at { 0 } else { 1 }) }
        macro_rules! all { ($($t:ty)*) => { $( { reset(); let r = <$t>::decode(&mut Input::new(&b)); assert!(r.is_ok() == (at == n)); if r.is_ok() { all_alive(); assert!(made() == n); drop(r); } for k in 0..made() { assert!(gone(k) <= 1) } } )* } }
        all!(Vec<Tok> LinkedList<Tok> HashSet<Tok> SizedSlice<Tok, 100> Vec<Box<Tok>> Arc<Vec<Tok>>);
        let h = n / 2;
        b[0] = h as u8; b[1] = 0;
        reset();
        let r = HashMap::<Tok, Tok>::decode(&mut Input::new(&b));
        assert!(r.is_ok() == (at >= 2 * h));
        if r.is_ok() { all_alive(); assert!(made() == 2 * h) }
        drop(r);
        for k in 0..made() { assert!(gone(k) <= 1) }
        // a clone that panics part-way
        use std::panic::{catch_unwind, AssertUnwindSafe};
        struct Frail(Tok, usize);
        impl Clone for Frail { fn clone(&self) -> Self { if self.1 == 0 { std::panic::resume_unwind(Box::new(())) } Frail(self.0.clone(), self.1) } }
        reset();
        let z: SizedSlice<Frail, 100> = (0..n).map(|k| Frail(Tok::new(), if k == at { 0 } else { 1 })).collect();
        let c = catch_unwind(AssertUnwindSafe(|| z.clone().into_vec()));
        assert!(c.is_ok() == (at == n));
        drop(c);
        for k in 0..n { assert!(gone(k) == 0, "the original keeps its elements") }
        drop(z.into_vec());
        for k in 0..made() { assert!(gone(k) <= 1 && (k >= n || gone(k) == 1)) }
    }
}
