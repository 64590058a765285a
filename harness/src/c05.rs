//! C05: encodings follow the specified wire format. The expected bytes are computed
//! here by repeated division, independently of the library.
use crate::common::*;
use crate::{contracts, Src};
use core::cell::{Cell, RefCell};
use core::net::*;
use core::num::{NonZero, Saturating, Wrapping};
use core::ops::*;
use core::time::Duration;
use oct::encode::{Encode, Output};
use oct::{SizedSlice, SizedStr};
use std::borrow::Cow;
use std::collections::{HashMap, HashSet, LinkedList};
use std::ffi::CString;
use std::rc::Rc;
use std::sync::{atomic::*, Arc, Mutex, RwLock};
use std::time::{SystemTime, UNIX_EPOCH};

/// Fixed-size expected bytes.
pub struct Exp<const B: usize> { b: [u8; B], n: usize }
impl<const B: usize> Exp<B> {
    pub fn new() -> Self { Exp { b: [0; B], n: 0 } }
    pub fn u8(mut self, x: u8) -> Self { self.b[self.n] = x; self.n += 1; self }
    pub fn le(mut self, mut x: u128, w: usize) -> Self {
        let mut k = 0;
        while k < w { self.b[self.n] = (x % 256) as u8; self.n += 1; x /= 256; k += 1; }
        self
    }
    pub fn probe(self, p: &Probe) -> Self { if p.tag == 0 { self.u8(0) } else { self.u8(1).u8(p.x) } }
}
/// `v` encodes as exactly `e`, wherever in the stream, and nothing else changes.
pub fn is<const B: usize, T: Encode + ?Sized, S: Src>(s: &mut S, v: &T, e: Exp<B>) {
    // the bytes before the encoding are arbitrary, their number is one
    let (r, out, n) = encoded::<B, T, S>(s, v, 1);
    assert!(r.is_ok(), "encoding an encodable value succeeds");
    assert!(n == e.n, "the encoding has the specified length");
    let mut k = 0;
    while k < B { assert!(k >= n || out[k] == e.b[k], "the encoding has the specified bytes"); k += 1; }
}
/// Native, for long encodings.
pub fn is_long<T: Encode + ?Sized>(v: &T, e: &[u8]) {
    let mut buf = vec![0x5A; e.len() + 3];
    let n = {
        let mut o = Output::new(&mut buf);
        o.write(&[0x77]).unwrap();
        assert!(v.encode(&mut o).is_ok(), "encoding an encodable value succeeds");
        o.position()
    };
    assert!(n == e.len() + 1, "the encoding has the specified length");
    assert!(&buf[1..n] == e && buf[0] == 0x77 && buf[n] == 0x5A && buf[n + 1] == 0x5A, "the encoding has the specified bytes");
}
fn x<const B: usize>() -> Exp<B> { Exp::new() }

contracts! {
    full 20 "" fn c05_numbers(s) {
        let v = s.u8(); is::<3, _, _>(s, &v, x().le(v as u128, 1));
        let v = s.u16(); is::<4, _, _>(s, &v, x().le(v as u128, 2));
        let v = s.u32(); is::<6, _, _>(s, &v, x().le(v as u128, 4));
        let v = s.i8(); is::<3, _, _>(s, &v, x().le(v as u8 as u128, 1));
        let v = s.i16(); is::<4, _, _>(s, &v, x().le(v as u16 as u128, 2));
        let v = s.i32(); is::<6, _, _>(s, &v, x().le(v as u32 as u128, 4));
    }
    full 20 "" fn c05_numbers_wide(s) {
        let v = s.u64(); is::<10, _, _>(s, &v, x().le(v as u128, 8));
        let v = s.i64(); is::<10, _, _>(s, &v, x().le(v as u64 as u128, 8));
        let v = s.u128(); is::<18, _, _>(s, &v, x().le(v, 16));
        let v = s.i128(); is::<18, _, _>(s, &v, x().le(v as u128, 16));
    }
    full 20 "" fn c05_floats(s) {
        let v = s.u32(); is::<6, _, _>(s, &f32::from_bits(v), x().le(v as u128, 4));
        let v = s.u64(); is::<10, _, _>(s, &f64::from_bits(v), x().le(v as u128, 8));
    }
    full 20 "" fn c05_bool_char_size(s) {
        let v = s.bool(); is::<3, _, _>(s, &v, x().u8(if v { 1 } else { 0 }));
        let v = s.char(); is::<6, _, _>(s, &v, x().le(v as u32 as u128, 4));
        let v = s.u16(); is::<4, _, _>(s, &(v as usize), x().le(v as u128, 2));
        let v = s.i16(); is::<4, _, _>(s, &(v as isize), x().le(v as u16 as u128, 2));
    }
    full 20 "" fn c05_nonzero(s) {
        let v = s.u8(); s.assume(v != 0); is::<3, _, _>(s, &NonZero::new(v).unwrap(), x().le(v as u128, 1)); is::<3, _, _>(s, &NonZero::new(v as i8).unwrap(), x().le(v as u128, 1));
        let v = s.u16(); s.assume(v != 0); is::<4, _, _>(s, &NonZero::new(v).unwrap(), x().le(v as u128, 2)); is::<4, _, _>(s, &NonZero::new(v as i16).unwrap(), x().le(v as u128, 2));
        is::<4, _, _>(s, &NonZero::new(v as usize).unwrap(), x().le(v as u128, 2)); is::<4, _, _>(s, &NonZero::new(v as i16 as isize).unwrap(), x().le(v as u128, 2));
        let v = s.u32(); s.assume(v != 0); is::<6, _, _>(s, &NonZero::new(v).unwrap(), x().le(v as u128, 4)); is::<6, _, _>(s, &NonZero::new(v as i32).unwrap(), x().le(v as u128, 4));
    }
    full 20 "" fn c05_nonzero_wide(s) {
        let v = s.u64(); s.assume(v != 0); is::<10, _, _>(s, &NonZero::new(v).unwrap(), x().le(v as u128, 8)); is::<10, _, _>(s, &NonZero::new(v as i64).unwrap(), x().le(v as u128, 8));
        let v = s.u128(); s.assume(v != 0); is::<18, _, _>(s, &NonZero::new(v).unwrap(), x().le(v, 16)); is::<18, _, _>(s, &NonZero::new(v as i128).unwrap(), x().le(v, 16));
    }
    full 20 "" fn c05_atomics(s) {
        let v = s.bool(); is::<3, _, _>(s, &AtomicBool::new(v), x().u8(v as u8));
        let v = s.u8(); is::<3, _, _>(s, &AtomicU8::new(v), x().le(v as u128, 1)); is::<3, _, _>(s, &AtomicI8::new(v as i8), x().le(v as u128, 1));
        let v = s.u16(); is::<4, _, _>(s, &AtomicU16::new(v), x().le(v as u128, 2)); is::<4, _, _>(s, &AtomicI16::new(v as i16), x().le(v as u128, 2));
        is::<4, _, _>(s, &AtomicUsize::new(v as usize), x().le(v as u128, 2)); is::<4, _, _>(s, &AtomicIsize::new(v as i16 as isize), x().le(v as u128, 2));
        let v = s.u32(); is::<6, _, _>(s, &AtomicU32::new(v), x().le(v as u128, 4)); is::<6, _, _>(s, &AtomicI32::new(v as i32), x().le(v as u128, 4));
        let v = s.u64(); is::<10, _, _>(s, &AtomicU64::new(v), x().le(v as u128, 8)); is::<10, _, _>(s, &AtomicI64::new(v as i64), x().le(v as u128, 8));
    }
    full 20 "" fn c05_signs(s) {
        let c = s.below(3); let p = Probe::good(s);
        is::<5, _, _>(s, &(if c == 0 { None } else { Some(p) }), if c == 0 { x().u8(0) } else { x().u8(1).probe(&p) });
        is::<5, Result<Probe, Probe>, _>(s, &(if c == 0 { Err(p) } else { Ok(p) }), if c == 0 { x().u8(1).probe(&p) } else { x().u8(0).probe(&p) });
        let b = match c { 0 => Bound::Included(p), 1 => Bound::Excluded(p), _ => Bound::Unbounded };
        is::<5, _, _>(s, &b, match c { 0 => x().u8(0).probe(&p), 1 => x().u8(1).probe(&p), _ => x().u8(2) });
    }
    full 20 "" fn c05_ranges(s) {
        let (p, q) = (Probe::good(s), Probe::good(s));
        is::<6, _, _>(s, &(p..q), x().probe(&p).probe(&q));
        is::<6, _, _>(s, &(p..=q), x().probe(&p).probe(&q));
        is::<4, _, _>(s, &(p..), x().probe(&p));
        is::<4, _, _>(s, &(..p), x().probe(&p));
        is::<4, _, _>(s, &(..=p), x().probe(&p));
        is::<2, _, _>(s, &(..), x());
        is::<2, _, _>(s, &(), x());
        is::<2, _, _>(s, &core::marker::PhantomData::<u64>, x());
        is::<2, _, _>(s, &core::marker::PhantomPinned, x());
    }
    full 20 "" fn c05_wrappers(s) {
        let p = Probe::good(s);
        is::<4, _, _>(s, &Wrapping(p), x().probe(&p)); is::<4, _, _>(s, &Saturating(p), x().probe(&p));
        is::<4, _, _>(s, &Cell::new(p), x().probe(&p)); is::<4, _, _>(s, &RefCell::new(p), x().probe(&p));
        is::<4, _, _>(s, &Box::new(p), x().probe(&p)); is::<4, _, _>(s, &Rc::new(p), x().probe(&p)); is::<4, _, _>(s, &Arc::new(p), x().probe(&p));
        is::<4, _, _>(s, &Mutex::new(p), x().probe(&p)); is::<4, _, _>(s, &RwLock::new(p), x().probe(&p));
        let mut q = p;
        is::<4, _, _>(s, &&p, x().probe(&p)); is::<4, _, _>(s, &&mut q, x().probe(&p));
        is::<4, _, _>(s, &Cow::Borrowed(&p), x().probe(&p)); is::<4, _, _>(s, &Cow::<Probe>::Owned(p), x().probe(&p));
    }
    full 20 "" fn c05_tuples_1_6(s) {
        let (a, b, c, d) = (s.u8(), s.u16(), s.u32(), s.u8());
        is::<3, _, _>(s, &(a,), x().le(a as u128, 1));
        is::<5, _, _>(s, &(a, b), x().le(a as u128, 1).le(b as u128, 2));
        is::<9, _, _>(s, &(a, b, c), x().le(a as u128, 1).le(b as u128, 2).le(c as u128, 4));
        is::<10, _, _>(s, &(a, b, c, d), x().le(a as u128, 1).le(b as u128, 2).le(c as u128, 4).le(d as u128, 1));
        is::<12, _, _>(s, &(a, b, c, d, b), x().le(a as u128, 1).le(b as u128, 2).le(c as u128, 4).le(d as u128, 1).le(b as u128, 2));
        is::<13, _, _>(s, &(a, b, c, d, b, a), x().le(a as u128, 1).le(b as u128, 2).le(c as u128, 4).le(d as u128, 1).le(b as u128, 2).le(a as u128, 1));
    }
    full 20 "" fn c05_tuples_7_12(s) {
        let v = s.array::<12>();
        macro_rules! t { ($b:literal: $($i:literal)*) => { is::<$b, _, _>(s, &($(v[$i],)*), x()$(.u8(v[$i]))*); } }
        t!(9: 0 1 2 3 4 5 6); t!(10: 0 1 2 3 4 5 6 7); t!(11: 0 1 2 3 4 5 6 7 8); t!(12: 0 1 2 3 4 5 6 7 8 9); t!(13: 0 1 2 3 4 5 6 7 8 9 10); t!(14: 0 1 2 3 4 5 6 7 8 9 10 11);
    }
    bounded 20 "array length 3, slice lengths up to 3" fn c05_sequences(s) {
        let v = [Probe::good(s), Probe::good(s), Probe::good(s)];
        is::<8, _, _>(s, &v, x().probe(&v[0]).probe(&v[1]).probe(&v[2]));
        let n = s.below(4) as usize;
        let e = x().le(n as u128, 2);
        let e = if n > 0 { e.probe(&v[0]) } else { e };
        let e = if n > 1 { e.probe(&v[1]) } else { e };
        let e = if n > 2 { e.probe(&v[2]) } else { e };
        is::<10, _, _>(s, &v[..n], e);
    }
    bounded 20 "at most 2 elements" fn c05_containers(s) {
        let v = [Probe::good(s), Probe::good(s)];
        let n = s.below(3) as usize;
        let e = |n: usize| { let e = x().le(n as u128, 2); let e = if n > 0 { e.probe(&v[0]) } else { e }; if n > 1 { e.probe(&v[1]) } else { e } };
        is::<8, _, _>(s, &SizedSlice::<Probe, 2>::new(&v[..n]).ok().unwrap(), e(n));
        is::<8, _, _>(s, &v[..n].to_vec(), e(n));
    }
    native 0 "up to 65535 elements" fn c05_long(s) {
        let d = data(s, 1, 65535);
        let mut e = Vec::new();
        le(d.len() as u128, 2, &mut e);
        e.extend_from_slice(&d);
        is_long(&d[..], &e);
        is_long(&d, &e);
        is_long(&d.iter().copied().collect::<LinkedList<u8>>(), &e);
        is_long(&Cow::Borrowed(&d[..]), &e);
        is_long(&SizedSlice::<u8, 65535>::new(&d).ok().unwrap(), &e);
        is_long(&Box::<[u8]>::from(&d[..]), &e);
        let nz: Vec<u8> = d.iter().map(|x| x | 1).collect();
        let mut f = Vec::new();
        le(d.len() as u128, 2, &mut f);
        f.extend_from_slice(&nz);
        is_long(&CString::new(nz).unwrap(), &f);
        let w: Vec<u32> = d.iter().take(16000).map(|x| (*x as u32).wrapping_mul(0x01020305)).collect();
        let mut f = Vec::new();
        le(w.len() as u128, 2, &mut f);
        for x in &w { le(*x as u128, 4, &mut f) }
        is_long(&w, &f);
    }
    native 0 "up to 65535 bytes" fn c05_text(s) {
        let t = text(s, 1, 65535);
        let mut e = Vec::new();
        le(t.len() as u128, 2, &mut e);
        e.extend_from_slice(t.as_bytes());
        is_long(t.as_str(), &e);
        is_long(&t, &e);
        is_long(&Box::<str>::from(t.as_str()), &e);
        is_long(&SizedStr::<65535>::new(&t).ok().unwrap(), &e);
    }
    native 0 "up to 65535 entries, against the container's own iteration order" fn c05_hash(s) {
        let n = s.len(1, 65535);
        let m: HashMap<u32, u16> = (0..n as u32).map(|i| (i.wrapping_mul(2654435761), (i >> 1) as u16)).collect();
        let mut e = Vec::new();
        le(n as u128, 2, &mut e);
        for (k, v) in &m { le(*k as u128, 4, &mut e); le(*v as u128, 2, &mut e) }
        is_long(&m, &e);
        let m: HashSet<u32> = (0..n as u32).map(|i| i.wrapping_mul(2654435761)).collect();
        let mut e = Vec::new();
        le(n as u128, 2, &mut e);
        for k in &m { le(*k as u128, 4, &mut e) }
        is_long(&m, &e);
    }
    full 34 "" fn c05_addresses(s) {
        // The documentation calls the address bits and ports big-endian, the code writes every
        // number little-endian; only the discriminant, the length and the content bytes' multiset
        // order as numbers in the library-wide little-endian format are specified here.
        let a = s.u32();
        is::<6, _, _>(s, &Ipv4Addr::from_bits(a), x().le(a as u128, 4));
        is::<7, _, _>(s, &IpAddr::V4(Ipv4Addr::from_bits(a)), x().u8(4).le(a as u128, 4));
        let p = s.u16();
        is::<8, _, _>(s, &SocketAddrV4::new(Ipv4Addr::from_bits(a), p), x().le(a as u128, 4).le(p as u128, 2));
        is::<9, _, _>(s, &SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::from_bits(a), p)), x().u8(4).le(a as u128, 4).le(p as u128, 2));
    }
    full 34 "" fn c05_addresses_v6(s) {
        let a = s.u128();
        let (p, f, i) = (s.u16(), s.u32(), s.u32());
        is::<18, _, _>(s, &Ipv6Addr::from_bits(a), x().le(a, 16));
        is::<19, _, _>(s, &IpAddr::V6(Ipv6Addr::from_bits(a)), x().u8(6).le(a, 16));
        let v = SocketAddrV6::new(Ipv6Addr::from_bits(a), p, f, i);
        is::<28, _, _>(s, &v, x().le(a, 16).le(p as u128, 2).le(f as u128, 4).le(i as u128, 4));
        is::<29, _, _>(s, &SocketAddr::V6(v), x().u8(6).le(a, 16).le(p as u128, 2).le(f as u128, 4).le(i as u128, 4));
    }
    full 34 "" fn c05_times(s) {
        let (a, b) = (s.u64(), s.u32());
        s.assume(b < 1_000_000_000);
        is::<14, _, _>(s, &Duration::new(a, b), x().le(a as u128, 8).le(b as u128, 4));
        s.assume(a <= 1u64 << 63);
        let t = UNIX_EPOCH.checked_sub(Duration::new(a, b));
        if let Some(t) = t { is::<10, _, _>(s, &t, x().le((a as i64).wrapping_neg() as u64 as u128, 8)); }
        s.assume(a < 1u64 << 63);
        let t = UNIX_EPOCH.checked_add(Duration::new(a, b));
        if let Some(t) = t { is::<10, _, _>(s, &t, x().le(a as u128, 8)); }
    }
}
