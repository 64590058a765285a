//! C10: the fixed-capacity vector behaves as a bounded sequence.
use crate::{contracts, returned, Src};
use core::borrow::{Borrow, BorrowMut};
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
use core::mem::MaybeUninit;
use oct::error::LengthError;
use oct::SizedSlice;
use std::collections::hash_map::DefaultHasher;

fn eq<T: PartialEq>(a: &[T], b: &[T]) -> bool {
    if a.len() != b.len() { return false }
    let mut i = 0;
    while i < a.len() { if a[i] != b[i] { return false } i += 1; }
    true
}
/// `z` holds exactly the elements `m`, by every read-only accessor.
fn is<const N: usize>(z: &SizedSlice<u16, N>, m: &[u16]) {
    assert!(z.len() == m.len() && z.capacity() == N && z.is_empty() == (m.len() == 0) && z.is_full() == (m.len() == N), "length and capacity agree");
    assert!(m.len() <= N, "never more elements than the capacity");
    assert!(eq(z.as_slice(), m), "the slice view is the sequence");
    let mut i = 0;
    while i < m.len() { assert!(z[i] == m[i] && z.get(i) == Some(&m[i]) && unsafe { *z.as_ptr().add(i) } == m[i], "each element is accessible"); i += 1; }
    assert!(z.get(m.len()).is_none(), "nothing beyond the length is accessible");
}
fn src<const K: usize, S: Src>(s: &mut S) -> [u16; K] { let mut a = [0; K]; let mut i = 0; while i < K { a[i] = s.u16(); i += 1; } a }
/// An arbitrary sized slice of capacity 3 and its elements.
fn any3<S: Src>(s: &mut S) -> (SizedSlice<u16, 3>, [u16; 3], usize) {
    let a = src::<3, S>(s);
    let n = s.below(4) as usize;
    (match SizedSlice::new(&a[..n]) { Ok(z) => z, Err(_) => panic!("data that fits is accepted") }, a, n)
}
/// Records everything hashed.
#[derive(Default)]
pub struct Rec { b: [u8; 32], n: usize, x: u64 }
impl Hasher for Rec {
    fn finish(&self) -> u64 { self.x }
    fn write(&mut self, b: &[u8]) { let mut i = 0; while i < b.len() { if self.n < 32 { self.b[self.n] = b[i] } self.n += 1; i += 1; } self.x = self.x.wrapping_mul(7).wrapping_add(b.len() as u64); }
}
fn hash<T: Hash + ?Sized>(v: &T) -> ([u8; 32], usize) { let mut h = Rec::default(); v.hash(&mut h); (h.b, h.n) }
fn std_hash<T: Hash + ?Sized>(v: &T) -> u64 { let mut h = DefaultHasher::new(); v.hash(&mut h); h.finish() }
/// Counts how often it was cloned.
#[derive(PartialEq, Debug)]
pub struct Tally(u16, u16);
impl Clone for Tally { fn clone(&self) -> Self { Tally(self.0, self.1.wrapping_add(1)) } }

contracts! {
    full 8 "capacity 3, data of 0 to 5 elements" fn c10_new(s) {
        let a = src::<5, S>(s);
        let n = s.below(6) as usize;
        match SizedSlice::<u16, 3>::new(&a[..n]) {
            Ok(z) => { assert!(n <= 3, "data that does not fit is refused"); is(&z, &a[..n]) }
            Err(LengthError { capacity, len }) => assert!(n > 3 && capacity == 3 && len == n, "refused exactly when too long, with capacity and length"),
        }
        match SizedSlice::<u16, 3>::try_from(&a[..n]) {
            Ok(z) => { assert!(n <= 3, "data that does not fit is refused"); is(&z, &a[..n]) }
            Err(LengthError { capacity, len }) => assert!(n > 3 && capacity == 3 && len == n, "refused exactly when too long, with capacity and length"),
        }
    }
    full 8 "every data length above the capacity (zero-sized elements)" fn c10_new_any_length(s) {
        let n = s.usize();
        s.assume(n > 3);
        let v: &[()] = unsafe { core::slice::from_raw_parts(core::ptr::NonNull::dangling().as_ptr(), n) };
        match SizedSlice::<(), 3>::new(v) { Ok(_) => panic!("data that does not fit is refused"), Err(e) => assert!(e.capacity == 3 && e.len == n, "refused with capacity and length") }
    }
    full 8 "capacities 0, 1 and 4" fn c10_other_capacities(s) {
        let a = src::<4, S>(s);
        let n = s.below(5) as usize;
        match SizedSlice::<u16, 4>::new(&a[..n]) { Ok(z) => is(&z, &a[..n]), Err(_) => panic!("data that fits is accepted") }
        match SizedSlice::<u16, 1>::new(&a[..n]) { Ok(z) => { assert!(n <= 1); is(&z, &a[..n]) } Err(e) => assert!(n > 1 && e.capacity == 1 && e.len == n) }
        match SizedSlice::<u16, 0>::new(&a[..n]) { Ok(z) => { assert!(n == 0); is(&z, &[]) } Err(e) => assert!(n > 0 && e.capacity == 0 && e.len == n) }
        is(&SizedSlice::<u16, 0>::default(), &[]); is(&SizedSlice::<u16, 4>::default(), &[]);
    }
    full 8 "capacity 3" fn c10_array(s) {
        let a = src::<3, S>(s);
        let z = SizedSlice::from(a);
        is(&z, &a);
        let z: SizedSlice<u16, 0> = [].into();
        is(&z, &[]);
    }
    full 8 "capacity 3, old and new lengths 0 to 3" fn c10_copy_from_slice(s) {
        let (mut z, _, _) = any3(s);
        let a = src::<3, S>(s);
        let n = s.below(4) as usize;
        z.copy_from_slice(&a[..n]);
        is(&z, &a[..n]);
    }
    panics 8 "every length above the capacity (zero-sized elements)" fn c10_copy_too_long(s) {
        let n = s.usize();
        s.assume(n > 3);
        let v: &[()] = unsafe { core::slice::from_raw_parts(core::ptr::NonNull::dangling().as_ptr(), n) };
        let mut z = SizedSlice::<(), 3>::default();
        z.copy_from_slice(v);
        returned();
    }
    panics 8 "capacity 3" fn c10_copy_too_long_data(s) {
        let (mut z, _, _) = any3(s);
        let a = src::<6, S>(s);
        let n = 4 + s.below(3) as usize;
        z.copy_from_slice(&a[..n]);
        returned();
    }
    full 8 "capacity 3, iterators of 0 to 5 elements" fn c10_collect(s) {
        let a = src::<5, S>(s);
        let n = s.below(6) as usize;
        let z: SizedSlice<u16, 3> = a[..n].iter().copied().collect();
        is(&z, &a[..if n < 3 { n } else { 3 }]);
        let z: SizedSlice<u16, 0> = a[..n].iter().copied().collect();
        is(&z, &[]);
    }
    native 0 "an iterator that ends and starts again, and an endless one" fn c10_collect_odd(s) {
        let k = s.below(8) as usize;
        let mut i = 0;
        let z: SizedSlice<usize, 6> = core::iter::from_fn(|| { i += 1; if i - 1 == k { None } else { Some(i - 1) } }).collect();
        assert!(z.as_slice() == (0..k.min(6)).collect::<Vec<_>>());
        let z: SizedSlice<usize, 6> = (0..).collect();
        assert!(z.as_slice() == [0, 1, 2, 3, 4, 5]);
    }
    full 8 "capacity 3" fn c10_clone(s) {
        let (z, a, n) = any3(s);
        let w = z.clone();
        is(&z, &a[..n]);
        is(&w, &a[..n]);
        let v = [Tally(a[0], 0), Tally(a[1], 5), Tally(a[2], 65535)];
        let z = SizedSlice::<Tally, 3>::from(v);
        let w = z.clone();
        let mut i = 0;
        while i < 3 { assert!(w.as_slice()[i].0 == a[i] && w.as_slice()[i].1 == z.as_slice()[i].1.wrapping_add(1), "each element is cloned once"); i += 1; }
    }
    full 8 "capacity 3" fn c10_references(s) {
        let (mut z, a, n) = any3(s);
        {
            let r = z.each_ref();
            assert!(r.len() == n && r.capacity() == 3, "a reference for each element");
            let mut i = 0;
            while i < n { assert!(*r.as_slice()[i] == a[i] && core::ptr::eq(r.as_slice()[i], &z.as_slice()[i]), "references to each element in order"); i += 1; }
        }
        {
            let mut r = z.each_mut();
            assert!(r.len() == n, "a reference for each element");
            let mut i = 0;
            while i < n { assert!(*r.as_slice()[i] == a[i], "references to each element in order"); *r.as_mut_slice()[i] = a[i] ^ (i as u16 + 1); i += 1; }
        }
        let b = [a[0] ^ 1, a[1] ^ 2, a[2] ^ 3];
        is(&z, &b[..n]);
    }
    full 8 "capacity 3" fn c10_mutation(s) {
        let (mut z, mut a, n) = any3(s);
        s.assume(n > 0);
        let i = s.below(3) as usize;
        s.assume(i < n);
        let x = s.u16();
        match s.below(8) {
            0 => z[i] = x, 1 => z.as_mut_slice()[i] = x, 2 => { let m: &mut [u16] = z.as_mut(); assert!(m.len() == n); m[i] = x } 3 => { let m: &mut [u16] = z.borrow_mut(); assert!(m.len() == n); m[i] = x }
            4 => unsafe { *z.as_mut_ptr().add(i) = x }, 5 => *z.get_mut(i).unwrap() = x, 6 => { assert!((&mut z[..]).len() == n); z[i..][0] = x } _ => { let mut k = 0; for y in &mut z { if k == i { *y = x } k += 1; } assert!(k == n) }
        }
        a[i] = x;
        is(&z, &a[..n]);
        let j = s.below(4) as usize;
        s.assume(j <= n);
        unsafe { z.set_len(j) };
        is(&z, &a[..j]);
    }
    full 8 "capacity 3" fn c10_views(s) {
        let (z, a, n) = any3(s);
        let v: &[u16] = z.as_ref(); assert!(eq(v, &a[..n]), "as_ref is the sequence");
        let v: &[u16] = z.borrow(); assert!(eq(v, &a[..n]), "borrow is the sequence");
        let v: &[u16] = &z; assert!(eq(v, &a[..n]), "deref is the sequence");
        assert!(eq(&z[..], &a[..n]), "a full range is the sequence");
        let mut k = 0;
        for x in &z { assert!(k < n && *x == a[k], "iteration visits each element in order"); k += 1; }
        assert!(k == n, "iteration visits every element");
        let (i, j) = (s.below(4) as usize, s.below(4) as usize);
        s.assume(i <= j && j <= n);
        assert!(eq(&z[i..j], &a[i..j]), "subranges agree");
    }
    panics 8 "capacity 3" fn c10_index_out_of_bounds(s) {
        let (z, _, n) = any3(s);
        let i = s.usize();
        s.assume(i >= n);
        let _ = z[i];
        returned();
    }
    full 8 "capacity 3" fn c10_raw_parts(s) {
        let (z, a, n) = any3(s);
        let (b, m) = z.into_raw_parts();
        assert!(m == n, "the length is handed out");
        let mut i = 0;
        while i < n { assert!(unsafe { b[i].assume_init() } == a[i], "the elements are handed out"); i += 1; }
        is(&unsafe { SizedSlice::from_raw_parts(b, m) }, &a[..n]);
    }
    full 8 "capacity 3" fn c10_boxes(s) {
        let (z, a, n) = any3(s);
        let b = match s.below(4) { 0 => z.into_boxed_slice(), 1 => z.into_vec().into_boxed_slice(), 2 => Box::<[u16]>::from(z), _ => Vec::<u16>::from(z).into_boxed_slice() };
        assert!(eq(&b, &a[..n]), "conversion keeps the elements");
    }
    full 8 "capacities 3 and 2" fn c10_comparison(s) {
        let (z, a, n) = any3(s);
        let b = src::<2, S>(s);
        let m = s.below(3) as usize;
        let w = SizedSlice::<u16, 2>::new(&b[..m]).ok().unwrap();
        let e = eq(&a[..n], &b[..m]);
        // lexicographic order, computed here
        let mut o = Ordering::Equal;
        let mut i = 0;
        while i < 2 && o == Ordering::Equal { if i < n && i < m { o = if a[i] < b[i] { Ordering::Less } else if a[i] > b[i] { Ordering::Greater } else { o } } i += 1; }
        if o == Ordering::Equal { o = if n < m { Ordering::Less } else if n > m { Ordering::Greater } else { o } }
        assert!((z == w) == e && (w == z) == e, "equality is that of the slices");
        assert!(z.partial_cmp(&w) == Some(o) && w.partial_cmp(&z) == Some(o.reverse()), "order is that of the slices");
        let r = &b[..m];
        assert!((z == r) == e && z.partial_cmp(&r) == Some(o), "comparison with slices agrees");
        if m == 2 { assert!((z == b) == e && z.partial_cmp(&b) == Some(o), "comparison with arrays agrees"); }
        let c = src::<3, S>(s);
        let y = SizedSlice::from(c);
        assert!(z.cmp(&y) == z.as_slice().cmp(&c[..]) && y.cmp(&z) == z.cmp(&y).reverse(), "total order is that of the slices");
    }
    full 8 "capacity 2" fn c10_vec_comparison(s) {
        let a = src::<2, S>(s);
        let b = src::<2, S>(s);
        let (n, m) = (s.below(3) as usize, s.below(3) as usize);
        let z = SizedSlice::<u16, 2>::new(&a[..n]).ok().unwrap();
        let v = b[..m].to_vec();
        assert!((z == v) == eq(&a[..n], &b[..m]), "comparison with vectors agrees");
        assert!(z.partial_cmp(&v) == a[..n].partial_cmp(&b[..m]), "comparison with vectors agrees");
    }
    full 36 "capacity 3" fn c10_hash(s) {
        let (z, a, n) = any3(s);
        let (x, y) = (hash(&z), hash(&a[..n]));
        assert!(x.1 == y.1, "hashing is that of the slice");
        let mut i = 0;
        while i < 32 { assert!(x.0[i] == y.0[i], "hashing is that of the slice"); i += 1; }
    }
    full 8 "unordered and unequal elements" fn c10_partial(s) {
        let (x, y) = (s.f32(), s.f32());
        let z = SizedSlice::<f32, 2>::new(&[x]).ok().unwrap();
        let w = SizedSlice::<f32, 2>::new(&[y]).ok().unwrap();
        assert!((z == w) == (x == y) && z.partial_cmp(&w) == x.partial_cmp(&y), "comparison follows the elements'");
    }
    native 0 "up to 1000 elements, capacities 7 and 1000, against ordinary vectors" fn c10_long(s) {
        let n = s.len(5, 1100);
        let (x, y) = (s.u8(), s.u8());
        let v: Vec<u16> = (0..n).map(|k| (k as u16).wrapping_mul(x as u16 | 1).wrapping_add(y as u16)).collect();
        match SizedSlice::<u16, 1000>::new(&v) { Ok(z) => { assert!(n <= 1000); is(&z, &v); is(&z.clone(), &v); assert!(std_hash(&z) == std_hash(&v[..]) && z == v && format!("{z:?}") == format!("{v:?}") && z.clone().into_vec() == v && *z.clone().into_boxed_slice() == v[..] && z.each_ref().iter().map(|x| **x).eq(v.iter().copied()));
            let mut y = SizedSlice::<u16, 1000>::default(); y.copy_from_slice(&v[n / 2..]); is(&y, &v[n / 2..]); assert!(z.cmp(&y) == v.as_slice().cmp(&v[n / 2..]) && (z == y) == (v.as_slice() == &v[n / 2..]));
            let mut t = z; for (k, r) in t.each_mut().iter_mut().enumerate() { **r ^= k as u16 } assert!(t.iter().enumerate().all(|(k, w)| *w == v[k] ^ k as u16)); }
            Err(e) => assert!(n > 1000 && e.capacity == 1000 && e.len == n) }
        let z: SizedSlice<u16, 7> = v.iter().copied().collect();
        is(&z, &v[..n.min(7)]);
    }
    native 0 "owning elements" fn c10_strings(s) {
        let n = s.len(3, 9);
        let v: Vec<String> = (0..n).map(|_| crate::common::text(s, 1, 8)).collect();
        match SizedSlice::<String, 6>::new(&v) { Ok(z) => { assert!(n <= 6 && z.as_slice() == v && z.clone() == z && z.clone().into_vec() == v && std_hash(&z) == std_hash(&v)); let mut w = v.clone(); w.sort(); let mut y = z; y.sort(); assert!(y.as_slice() == w) } Err(e) => assert!(n > 6 && e.len == n && e.capacity == 6) }
        let z: SizedSlice<String, 6> = v.iter().cloned().collect();
        assert!(z.as_slice() == &v[..n.min(6)]);
    }
}
