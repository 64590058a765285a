//! C03: collections and strings survive a round trip at every length.
use crate::common::*;
use crate::{contracts, Src};
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};
use oct::{SizedSlice, SizedStr};
use std::borrow::Cow;
use std::collections::{HashMap, HashSet, LinkedList};
use std::ffi::{CStr, CString};
use std::hash::{BuildHasherDefault, Hasher};

pub const K: usize = 3;
const N: usize = 65535;

#[derive(Default, Clone)]
pub struct NullHasher(u64);
impl Hasher for NullHasher {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { let mut i = 0; while i < b.len() { self.0 = self.0.wrapping_mul(31).wrapping_add(b[i] as u64); i += 1; } }
    fn write_u8(&mut self, x: u8) { self.0 = x as u64; }
}
type BH = BuildHasherDefault<NullHasher>;

/// Text of exactly `L` bytes round trips as `str`, `String` and `SizedStr`.
fn small<const L: usize, const B: usize, S: Src>(s: &mut S) {
    let mut b: [u8; L] = s.array::<L>();
    if cfg!(not(kani)) && utf8_prefix(&b) != L { let mut k = 0; while k < L { b[k] &= 0x7F; k += 1; } }
    s.assume(utf8_prefix(&b) == L);
    let t = unsafe { core::str::from_utf8_unchecked(&b) };
    let z = SizedStr::<3>::new(t).ok().unwrap();
    let mut buf = [0u8; B];
    let n = { let mut o = Output::new(&mut buf); assert!(z.encode(&mut o).is_ok(), "a short string encodes"); o.position() };
    assert!(n == B, "a string encodes as its length and its bytes");
    let mut buf = [0u8; B];
    let n = { let mut o = Output::new(&mut buf); assert!(t.encode(&mut o).is_ok(), "a short string encodes"); o.position() };
    assert!(n == B, "a string encodes as its length and its bytes");
    let mut i = Input::new(&buf);
    match String::decode(&mut i) { Ok(u) => assert!(eq_slices(u.as_bytes(), &b), "decoding yields the encoded string"), Err(_) => panic!("decoding an encoding succeeds") }
    assert!(i.position() == n, "decoding consumes exactly the encoded bytes");
    let mut i = Input::new(&buf);
    match SizedStr::<3>::decode(&mut i) { Ok(u) => assert!(eq_slices(u.as_bytes(), &b), "decoding yields the encoded string"), Err(_) => panic!("decoding an encoding succeeds") }
    assert!(i.position() == n, "decoding consumes exactly the encoded bytes");
}

contracts! {
    bounded 8 "at most 3 elements" fn c03_vec_probe(s) {
        let v = probes(s, K, 300);
        let cap = v.len() * 2 + 4;
        roundtrip_dyn::<Vec<Probe>, Vec<Probe>, _>(s, &v, if cfg!(kani) { 10 } else { cap }, |a, b| eq_slices(a, b));
    }
    bounded 8 "at most 3 elements" fn c03_slice_u16(s) {
        let d = data(s, K, N);
        let mut v: Vec<u16> = Vec::with_capacity(s.bound(K, N));
        let mut i = 0; while i < d.len() { v.push((d[i] as u16).wrapping_mul(259)); i += 1; }
        roundtrip_dyn::<[u16], Vec<u16>, _>(s, v.as_slice(), if cfg!(kani) { 10 } else { v.len() * 2 + 4 }, |a, b| eq_slices(a, b));
    }
    native 0 "zero-sized elements" fn c03_vec_unit(s) {
        let n = s.len(K, N);
        let v = vec![(); n];
        roundtrip_dyn::<Vec<()>, Vec<()>, _>(s, &v, 8, |a, b| a.len() == b.len());
    }
    native 0 "up to 65535 elements" fn c03_linked_list_big(s) {
        let v: LinkedList<u8> = data(s, K, N).into_iter().collect();
        let cap = v.len() + 4;
        roundtrip_dyn::<LinkedList<u8>, LinkedList<u8>, _>(s, &v, cap, |a, b| a == b);
    }
    slow 8 "at most 2 elements" fn c03_linked_list(s) {
        let mut v = LinkedList::new();
        let n = s.len(2, 40);
        let b = s.bound(2, 40);
        let mut i = 0;
        while i < b { if i >= n { break } v.push_back(Probe::good(s)); i += 1; }
        let cap = v.len() * 2 + 4;
        roundtrip_dyn::<LinkedList<Probe>, LinkedList<Probe>, _>(s, &v, if cfg!(kani) { 8 } else { cap }, |a, b| {
            let (mut x, mut y) = (a.iter(), b.iter());
            let mut same = a.len() == b.len();
            let mut i = 0;
            while i < a.len() { if x.next() != y.next() { same = false } i += 1; }
            same
        });
    }
    native 0 "up to 65535 entries" fn c03_hash_map(s) {
        let d = data(s, K, N);
        let mut m: HashMap<u32, u16> = HashMap::new();
        for (i, x) in d.iter().enumerate() { m.insert((i as u32).wrapping_mul(2654435761), *x as u16 * 257); }
        let cap = m.len() * 6 + 4;
        roundtrip_dyn::<HashMap<u32, u16>, HashMap<u32, u16>, _>(s, &m, cap, |a, b| a == b);
        let mut m: HashMap<Probe, Probe, BH> = HashMap::default();
        for c in d.chunks(2).take(200) { if c.len() == 2 { m.insert(Probe { tag: 1, x: c[0] }, if c[1] & 1 == 0 { Probe { tag: 0, x: 0 } } else { Probe { tag: 1, x: c[1] } }); } }
        let cap = m.len() * 4 + 4;
        roundtrip_dyn::<HashMap<Probe, Probe, BH>, HashMap<Probe, Probe>, _>(s, &m, cap, |a, b| a.len() == b.len() && a.iter().all(|(k, v)| b.get(k) == Some(v)));
    }
    native 0 "up to 65535 entries" fn c03_hash_set(s) {
        let d = data(s, K, N);
        let m: HashSet<u32> = (0..d.len() as u32).map(|i| i.wrapping_mul(2654435761)).collect();
        let cap = m.len() * 4 + 4;
        roundtrip_dyn::<HashSet<u32>, HashSet<u32>, _>(s, &m, cap, |a, b| a == b);
        let m: HashSet<Probe, BH> = d.iter().map(|x| Probe { tag: 1, x: *x }).collect();
        let cap = m.len() * 2 + 4;
        roundtrip_dyn::<HashSet<Probe, BH>, HashSet<Probe, BH>, _>(s, &m, cap, |a, b| a == b);
    }
    bounded 8 "at most 3 bytes" fn c03_bytes(s) {
        let v = data(s, K, N);
        roundtrip_dyn::<[u8], Vec<u8>, _>(s, v.as_slice(), if cfg!(kani) { 7 } else { v.len() + 4 }, |a, b| eq_slices(a, b));
    }
    bounded 10 "text of 1 byte" fn c03_str_1(s) { small::<1, 3, _>(s) }
    bounded 10 "text of 2 bytes" fn c03_str_2(s) { small::<2, 4, _>(s) }
    bounded 10 "text of 3 bytes" fn c03_str_3(s) { small::<3, 5, _>(s) }
    slow 10 "strings of one character" fn c03_str_char(s) {
        let c = s.char();
        let mut b = [0u8; 4];
        let t: &str = c.encode_utf8(&mut b);
        let n = t.len();
        let mut buf: [u8; 8] = s.array::<8>();
        let m = { let mut o = Output::new(&mut buf); assert!(t.encode(&mut o).is_ok(), "a short string encodes"); o.position() };
        assert!(m == n + 2, "a string encodes as its length and its bytes");
        let mut i = Input::new(&buf);
        match String::decode(&mut i) {
            Ok(u) => assert!(eq_slices(u.as_bytes(), t.as_bytes()), "decoding yields the encoded string"),
            Err(_) => panic!("decoding an encoding succeeds"),
        }
        assert!(i.position() == m, "decoding consumes exactly the encoded bytes");
    }
    native 0 "up to 65535 bytes" fn c03_string(s) {
        let t = text(s, 2, N);
        let cap = t.len() + 4;
        roundtrip_dyn::<str, String, _>(s, &t, cap, |a, b| eq_slices(a.as_bytes(), b.as_bytes()));
        roundtrip_dyn::<String, String, _>(s, &t, cap, |a, b| eq_slices(a.as_bytes(), b.as_bytes()));
    }
    native 0 "up to 65535 bytes" fn c03_cow_str(s) {
        let t = text(s, 2, N);
        roundtrip_dyn::<Cow<str>, String, _>(s, &Cow::Borrowed(&t), t.len() + 4, |a, b| a == b);
        let v = t.as_bytes();
        roundtrip_dyn::<Cow<[u8]>, Vec<u8>, _>(s, &Cow::Borrowed(v), t.len() + 4, |a, b| a == b);
    }
    native 0 "up to 65535 bytes" fn c03_c_string(s) {
        let mut v = data(s, K, N);
        for b in v.iter_mut() { if *b == 0 { *b = 1 } }
        let c = CString::new(v.clone()).unwrap();
        let cap = v.len() + 4;
        roundtrip_dyn::<CString, CString, _>(s, &c, cap, |a, b| a == b);
        roundtrip_dyn::<CStr, CString, _>(s, &c, cap, |a, b| a == b.as_c_str());
    }
    native 0 "at most 2 bytes" fn c03_c_string_small(s) {
        let n = s.len(2, 2);
        let (a, b) = (s.u8(), s.u8());
        s.assume(a != 0 && b != 0);
        let c = match n { 0 => CString::default(), 1 => unsafe { CString::from_vec_unchecked(vec![a]) }, _ => unsafe { CString::from_vec_unchecked(vec![a, b]) } };
        roundtrip_dyn::<CString, CString, _>(s, &c, 6, |a, b| eq_slices(a.as_bytes(), b.as_bytes()));
    }
    slow 8 "capacity 3" fn c03_sized_slice(s) {
        let v = probes(s, 3, 3);
        let z = SizedSlice::<Probe, 3>::new(&v).ok().unwrap();
        roundtrip_dyn::<SizedSlice<Probe, 3>, SizedSlice<Probe, 3>, _>(s, &z, 10, |a, b| eq_slices(a.as_slice(), &v) && eq_slices(b.as_slice(), &v));
        roundtrip_dyn::<SizedSlice<Probe, 3>, Vec<Probe>, _>(s, &z, 10, |a, b| eq_slices(a.as_slice(), b));
    }
    native 0 "capacities 0, 1, 300 and 65535" fn c03_sized_slice_big(s) {
        let d = data(s, 1, N);
        let z = SizedSlice::<u8, 65535>::new(&d).ok().unwrap();
        roundtrip_dyn::<SizedSlice<u8, 65535>, SizedSlice<u8, 65535>, _>(s, &z, d.len() + 4, |a, b| a == b && b.as_slice() == d);
        let e = &d[..d.len().min(300)];
        let z = SizedSlice::<u8, 300>::new(e).ok().unwrap();
        roundtrip_dyn::<SizedSlice<u8, 300>, SizedSlice<u8, 300>, _>(s, &z, e.len() + 4, |_, b| b.as_slice() == e);
        let e = &d[..d.len().min(1)];
        let z = SizedSlice::<u8, 1>::new(e).ok().unwrap();
        roundtrip_dyn::<SizedSlice<u8, 1>, SizedSlice<u8, 1>, _>(s, &z, e.len() + 4, |_, b| b.as_slice() == e);
        let z = SizedSlice::<u8, 0>::new(&[]).ok().unwrap();
        roundtrip_dyn::<SizedSlice<u8, 0>, SizedSlice<u8, 0>, _>(s, &z, 4, |_, b| b.is_empty());
        let v = vec![(); d.len()];
        let z = SizedSlice::<(), 65535>::new(&v).ok().unwrap();
        roundtrip_dyn::<SizedSlice<(), 65535>, SizedSlice<(), 65535>, _>(s, &z, 4, |_, b| b.len() == d.len());
    }
    native 0 "heap-owning elements" fn c03_sized_slice_strings(s) {
        let n = s.len(1, 12);
        let v: Vec<String> = (0..n).map(|_| text(s, 1, 9)).collect();
        let z = SizedSlice::<String, 12>::new(&v).ok().unwrap();
        roundtrip_dyn::<SizedSlice<String, 12>, SizedSlice<String, 12>, _>(s, &z, 300, |_, b| b.as_slice() == v);
        roundtrip_dyn::<Vec<String>, Vec<String>, _>(s, &v, 300, |a, b| a == b);
    }
    slow 10 "capacity 4, strings of one character" fn c03_sized_str(s) {
        let c = s.char();
        let mut b = [0u8; 4];
        let t: &str = c.encode_utf8(&mut b);
        let z = SizedStr::<4>::new(t).ok().unwrap();
        let mut buf: [u8; 8] = s.array::<8>();
        let m = { let mut o = Output::new(&mut buf); assert!(z.encode(&mut o).is_ok(), "a short string encodes"); o.position() };
        assert!(m == t.len() + 2, "a string encodes as its length and its bytes");
        let mut i = Input::new(&buf);
        match SizedStr::<4>::decode(&mut i) {
            Ok(u) => assert!(eq_slices(u.as_bytes(), t.as_bytes()), "decoding yields the encoded string"),
            Err(_) => panic!("decoding an encoding succeeds"),
        }
        assert!(i.position() == m, "decoding consumes exactly the encoded bytes");
    }
    native 0 "capacities 40 and 65535" fn c03_sized_str_big(s) {
        let t = text(s, 1, N);
        let z = SizedStr::<65535>::new(&t).ok().unwrap();
        roundtrip_dyn::<SizedStr<65535>, SizedStr<65535>, _>(s, &z, t.len() + 4, |_, b| b.as_str() == t);
        roundtrip_dyn::<SizedStr<65535>, String, _>(s, &z, t.len() + 4, |_, b| *b == t);
        if let Ok(z) = SizedStr::<40>::new(&t) {
            roundtrip_dyn::<SizedStr<40>, SizedStr<40>, _>(s, &z, 44, |_, b| b.as_str() == t);
        }
    }
}
