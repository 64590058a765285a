//! C12: the owning iterator yields each element once, from both ends.
//!
//! Histories do not contain `nth` (nor `skip` and `step_by`, which call it): its defect is
//! listed as a known finding because an existing test pins part of it.
use crate::{contracts, Src};
use oct::{SizedIter, SizedSlice};

fn is<const N: usize>(i: &SizedIter<u16, N>, m: &[u16]) {
    assert!(i.len() == m.len() && i.size_hint() == (m.len(), Some(m.len())), "the remaining count agrees");
    let v = i.as_slice();
    assert!(v.len() == m.len(), "the view has the remaining elements");
    let mut k = 0;
    while k < m.len() { assert!(v[k] == m[k], "the view has the remaining elements in order"); k += 1; }
}
fn start<const N: usize, S: Src>(s: &mut S) -> (SizedIter<u16, N>, [u16; N], usize) {
    let mut a = [0u16; N];
    let mut k = 0;
    while k < N { a[k] = s.u16(); k += 1; }
    let n = s.below(N as u8 + 1) as usize;
    (SizedSlice::<u16, N>::new(&a[..n]).ok().unwrap().into_iter(), a, n)
}
/// `steps` arbitrary operations; the iterator must always hold `a[lo..hi]`.
fn history<const N: usize, S: Src>(s: &mut S, steps: usize) {
    let (mut i, mut a, n) = start::<N, S>(s);
    let (mut lo, mut hi) = (0, n);
    is(&i, &a[lo..hi]);
    let mut k = 0;
    while k < steps {
        match s.below(5) {
            0 | 1 => { let e = if lo < hi { lo += 1; Some(a[lo - 1]) } else { None }; assert!(i.next() == e, "front steps yield in order, then nothing") }
            2 | 3 => { let e = if lo < hi { hi -= 1; Some(a[hi]) } else { None }; assert!(i.next_back() == e, "back steps yield in reverse, then nothing") }
            _ => if lo < hi { i.as_mut_slice()[0] = 7; a[lo] = 7; let v: &mut [u16] = i.as_mut(); assert!(v.len() == hi - lo, "the mutable view has the remaining elements"); v[hi - lo - 1] = 9; a[hi - 1] = 9; }
        }
        is(&i, &a[lo..hi]);
        k += 1;
    }
    let mut c = i.clone();
    is(&c, &a[lo..hi]);
    is(&i, &a[lo..hi]);
    // the clone is independent, and what is left comes out in order
    while lo < hi { assert!(c.next() == Some(a[lo]), "a clone yields the same elements"); lo += 1; }
    assert!(c.next().is_none() && c.next_back().is_none() && c.next().is_none() && c.len() == 0, "then nothing for ever");
}

contracts! {
    bounded 8 "capacity 3, lengths 0 to 3, 4 operations" fn c12_history_3(s) { history::<3, _>(s, 4) }
    bounded 8 "capacity 1, 3 operations" fn c12_history_1(s) { history::<1, _>(s, 3) }
    bounded 8 "capacity 0" fn c12_history_0(s) { history::<0, _>(s, 2) }
    slow 8 "capacity 4, 6 operations" fn c12_history_4(s) { history::<4, _>(s, 6) }
    full 8 "capacity 4, every length" fn c12_forward(s) {
        let (i, a, n) = start::<4, S>(s);
        let mut k = 0;
        for x in i { assert!(k < n && x == a[k], "every element in order"); k += 1; }
        assert!(k == n, "every element is visited");
    }
    full 8 "capacity 4, every length" fn c12_backward(s) {
        let (i, a, n) = start::<4, S>(s);
        let mut k = n;
        for x in i.rev() { assert!(k > 0 && x == a[k - 1], "every element in reverse"); k -= 1; }
        assert!(k == 0, "every element is visited");
    }
    full 8 "capacity 3, every length" fn c12_adaptors(s) {
        let (i, a, n) = start::<3, S>(s);
        assert!(i.clone().count() == n, "the count is that of the remaining elements");
        assert!(i.clone().last() == if n > 0 { Some(a[n - 1]) } else { None }, "the last is the last remaining");
        let f = i.clone().fold(0usize, |k, x| { assert!(x == a[k]); k + 1 });
        assert!(f == n);
        let r: &[u16] = i.as_ref();
        assert!(r.len() == n);
        let z: SizedSlice<u16, 3> = i.collect();
        let mut k = 0;
        assert!(z.len() == n);
        while k < n { assert!(z.as_slice()[k] == a[k], "collecting gives the elements back"); k += 1; }
    }
    native 0 "capacity 200, up to 300 operations" fn c12_long(s) {
        let n = s.len(3, 200);
        let v: Vec<String> = (0..n).map(|k| format!("e{k}")).collect();
        let mut i = SizedSlice::<String, 200>::new(&v).ok().unwrap().into_iter();
        let (mut lo, mut hi) = (0, n);
        let bias = s.below(4);
        for _ in 0..300 {
            match s.below(8) {
                0 => { let c = i.clone(); assert!(c.as_slice() == &v[lo..hi] && c.eq(v[lo..hi].iter().cloned())) }
                x if x % 4 <= bias => { let e = if lo < hi { lo += 1; Some(v[lo - 1].clone()) } else { None }; assert!(i.next() == e) }
                _ => { let e = if lo < hi { hi -= 1; Some(v[hi].clone()) } else { None }; assert!(i.next_back() == e) }
            }
            assert!(i.as_slice() == &v[lo..hi] && i.len() == hi - lo && i.size_hint() == (hi - lo, Some(hi - lo)));
        }
        assert!(i.eq(v[lo..hi].iter().cloned()));
    }
    native 0 "nth on a fresh iterator, between 1 and the last element, and past the end: what the recorded finding leaves standing" fn c12_nth(s) {
        let n = s.below(9) as usize;
        let mut v = [0u16; 8];
        let mut k = 0;
        while k < 8 { v[k] = s.u16(); k += 1; }
        if n <= 8 {
            let mut k = 1;
            while k < n {
                assert!(SizedSlice::<u16, 8>::new(&v[..n]).ok().unwrap().into_iter().nth(k) == Some(v[k]), "nth(k) of a fresh iterator is element k");
                k += 1;
            }
            let mut i = SizedSlice::<u16, 8>::new(&v[..n]).ok().unwrap().into_iter();
            assert!(i.nth(n + 1 + s.below(9) as usize).is_none(), "nth past the end is nothing");
        }
    }
    known 0 "SizedIter::nth(i) yields element i of the whole buffer instead of the i-th remaining one and does not consume it; nth(0) underflows (also reached by skip and step_by)" fn c12_known_nth(s) {
        let _ = s.bound(1, 1);
        let mut i = SizedSlice::<u16, 4>::from([1, 2, 3, 4]).into_iter();
        assert!(i.next() == Some(1));
        assert!(i.nth(1) == Some(3) && i.next() == Some(4), "nth yields and consumes the element after the skipped ones");
        assert!(SizedSlice::<u16, 4>::from([1, 2, 3, 4]).into_iter().nth(0) == Some(1), "nth(0) is next");
    }
}
