//! C06: no encoding exceeds the declared maximum size, and the declaration is tight.
use crate::common::*;
use crate::{contracts, Src};
use core::cell::{Cell, LazyCell, RefCell};
use core::marker::PhantomData;
use core::net::*;
use core::num::{NonZero, Saturating, Wrapping};
use core::ops::*;
use core::time::Duration;
use oct::decode::Decode;
use oct::encode::{Encode, Output, SizedEncode};
use oct::{SizedSlice, SizedStr};
use std::borrow::Cow;
use std::rc::Rc;
use std::sync::{atomic::*, Arc, LazyLock, Mutex, RwLock};
use std::time::{SystemTime, UNIX_EPOCH};

/// Encodes `v` into a buffer of exactly the declared maximum; `max` is the specified size.
fn fits<const M: usize, T: SizedEncode, S: Src>(_s: &mut S, v: &T) -> usize {
    assert!(T::MAX_ENCODED_SIZE == M, "the declared maximum is the specified one");
    let mut buf = [0u8; M];
    let mut o = Output::new(&mut buf);
    let _ = v.encode(&mut o);
    o.position()
}
macro_rules! exact { ($s:ident, $m:expr, $v:expr) => {{ let v = $v; let n = fits::<{ $m }, _, _>($s, &v); assert!(n == $m, "a scalar's encoding has exactly its declared size"); }}; }
macro_rules! most { ($s:ident, $m:expr, $v:expr) => {{ let v = $v; let n = fits::<{ $m }, _, _>($s, &v); assert!(n <= $m, "the encoding fits in the declared size"); }}; }

/// An element whose in-memory size has nothing to do with its encoded size.
#[derive(Clone, Copy)]
pub struct Odd(u8, [u64; 3]);
impl Encode for Odd {
    type Error = ProbeErr;
    fn encode(&self, o: &mut Output) -> Result<(), ProbeErr> { let n = (self.0 % 6) as usize; o.write(&[7; 5][..n]).unwrap(); Ok(()) }
}
impl SizedEncode for Odd { const MAX_ENCODED_SIZE: usize = 5; }
fn odd<S: Src>(s: &mut S) -> Odd { Odd(s.u8(), [0; 3]) }

/// A component that declares `M` bytes.
pub struct Big<const M: usize>;
impl<const M: usize> Encode for Big<M> { type Error = ProbeErr; fn encode(&self, _o: &mut Output) -> Result<(), ProbeErr> { Ok(()) } }
impl<const M: usize> SizedEncode for Big<M> { const MAX_ENCODED_SIZE: usize = M; }
fn size<T: SizedEncode>(m: usize) { assert!(T::MAX_ENCODED_SIZE == m, "the declared size is the tight sum or maximum over the parts"); }
fn declared<const M: usize, const K: usize>() {
    type B<const M: usize> = Big<M>;
    size::<&B<M>>(M); size::<&mut B<M>>(M); size::<(B<M>,)>(M); size::<[B<M>; 3]>(3 * M); size::<[B<M>; 300]>(300 * M); size::<[B<M>; 0]>(0);
    size::<Arc<B<M>>>(M); size::<Rc<B<M>>>(M); size::<Box<B<M>>>(M); size::<RefCell<B<M>>>(M); size::<Mutex<B<M>>>(M); size::<RwLock<B<M>>>(M);
    size::<LazyCell<B<M>>>(M); size::<LazyLock<B<M>>>(M); size::<Wrapping<B<M>>>(M); size::<Saturating<B<M>>>(M);
    size::<Bound<B<M>>>(M + 1); size::<Option<B<M>>>(M + 1); size::<Result<B<M>, B<K>>>(1 + if M > K { M } else { K }); size::<Result<B<K>, B<M>>>(1 + if M > K { M } else { K });
    size::<Range<B<M>>>(2 * M); size::<RangeInclusive<B<M>>>(2 * M); size::<RangeFrom<B<M>>>(M); size::<RangeTo<B<M>>>(M); size::<RangeToInclusive<B<M>>>(M);
    size::<PhantomData<B<M>>>(0); size::<SizedSlice<B<M>, 5>>(2 + 5 * M);
    macro_rules! tup { ($n:expr, $k:expr; $($t:ident)*) => { size::<($($t<M>,)* B<K>,)>($n * M + K); size::<(B<K>, $($t<M>,)*)>($n * M + K); }; }
    tup!(1, 1; B); tup!(2, 1; B B); tup!(3, 1; B B B); tup!(4, 1; B B B B); tup!(5, 1; B B B B B); tup!(6, 1; B B B B B B); tup!(7, 1; B B B B B B B);
    tup!(8, 1; B B B B B B B B); tup!(9, 1; B B B B B B B B B); tup!(10, 1; B B B B B B B B B B); tup!(11, 1; B B B B B B B B B B B);
}

contracts! {
    native 0 "components of 0 to 2^40 bytes" fn c06_declared(_s) {
        declared::<0, 0>(); declared::<0, 1>(); declared::<1, 0>(); declared::<1, 2>(); declared::<127, 128>(); declared::<200, 100>(); declared::<255, 256>(); declared::<256, 255>();
        declared::<1000, 1>(); declared::<32768, 65535>(); declared::<65536, 65537>(); declared::<0x7FFF_FFFF, 0x8000_0000>(); declared::<0x1_0000_0001, 0xFFFF_FFFF>(); declared::<0x100_0000_0000, 3>();
    }
    full 20 "" fn c06_scalars(s) {
        exact!(s, 1, s.u8()); exact!(s, 2, s.u16()); exact!(s, 4, s.u32()); exact!(s, 8, s.u64()); exact!(s, 16, s.u128());
        exact!(s, 1, s.i8()); exact!(s, 2, s.i16()); exact!(s, 4, s.i32()); exact!(s, 8, s.i64()); exact!(s, 16, s.i128());
        exact!(s, 4, s.f32()); exact!(s, 8, s.f64()); exact!(s, 1, s.bool()); exact!(s, 4, s.char());
        exact!(s, 2, s.u16() as usize); exact!(s, 2, s.i16() as isize);
        most!(s, 2, s.usize()); most!(s, 2, s.isize());
    }
    full 20 "" fn c06_nonzero_atomic(s) {
        let v = s.u8(); s.assume(v != 0);
        exact!(s, 1, NonZero::new(v).unwrap()); exact!(s, 2, NonZero::new(v as u16).unwrap()); exact!(s, 4, NonZero::new(v as u32).unwrap()); exact!(s, 8, NonZero::new(v as u64).unwrap()); exact!(s, 16, NonZero::new(v as u128).unwrap()); exact!(s, 2, NonZero::new(v as usize).unwrap());
        exact!(s, 1, NonZero::new(v as i8).unwrap()); exact!(s, 2, NonZero::new(v as i16).unwrap()); exact!(s, 4, NonZero::new(v as i32).unwrap()); exact!(s, 8, NonZero::new(v as i64).unwrap()); exact!(s, 16, NonZero::new(v as i128).unwrap()); exact!(s, 2, NonZero::new(v as isize).unwrap());
        exact!(s, 1, AtomicU8::new(v)); exact!(s, 2, AtomicU16::new(v as u16)); exact!(s, 4, AtomicU32::new(v as u32)); exact!(s, 8, AtomicU64::new(v as u64)); exact!(s, 2, AtomicUsize::new(v as usize));
        exact!(s, 1, AtomicI8::new(v as i8)); exact!(s, 2, AtomicI16::new(v as i16)); exact!(s, 4, AtomicI32::new(v as i32)); exact!(s, 8, AtomicI64::new(v as i64)); exact!(s, 2, AtomicIsize::new(v as isize)); exact!(s, 1, AtomicBool::new(v > 7));
    }
    full 20 "" fn c06_wrappers(s) {
        let p = odd(s);
        most!(s, 5, Wrapping(p)); most!(s, 5, Saturating(p)); most!(s, 5, Cell::new(p)); most!(s, 5, RefCell::new(p));
        most!(s, 5, Box::new(p)); most!(s, 5, Rc::new(p)); most!(s, 5, Arc::new(p)); most!(s, 5, Mutex::new(p)); most!(s, 5, RwLock::new(p));
        most!(s, 5, &p); let mut q = p; most!(s, 5, &mut q); most!(s, 5, Cow::<Odd>::Owned(p)); most!(s, 5, Cow::Borrowed(&p));
        most!(s, 0, ()); most!(s, 0, PhantomData::<u64>); most!(s, 0, ..);
    }
    full 20 "" fn c06_enums(s) {
        let c = s.below(3); let p = odd(s); let q = Probe::any(s);
        most!(s, 6, if c == 0 { None } else { Some(p) });
        most!(s, 6, match c { 0 => Bound::Included(p), 1 => Bound::Excluded(p), _ => Bound::Unbounded });
        most!(s, 3, match c { 0 => Bound::Included(q), 1 => Bound::Excluded(q), _ => Bound::Unbounded });
        let r: Result<Odd, Probe> = if c == 0 { Ok(p) } else { Err(q) }; most!(s, 6, r);
        let r: Result<Probe, Odd> = if c == 0 { Ok(q) } else { Err(p) }; most!(s, 6, r);
        let r: Result<Probe, Probe> = if c == 0 { Ok(q) } else { Err(q) }; most!(s, 3, r);
        let r: Result<u8, [u8; 0]> = Ok(1); let _ = r;
    }
    full 20 "" fn c06_ranges_arrays_tuples(s) {
        let p = odd(s); let q = odd(s);
        most!(s, 10, p..q); most!(s, 10, p..=q); most!(s, 5, p..); most!(s, 5, ..p); most!(s, 5, ..=p);
        most!(s, 0, [p; 0]); most!(s, 5, [p]); most!(s, 15, [p, q, p]); most!(s, 20, [[p, q], [q, p]]);
        most!(s, 5, (p,)); most!(s, 7, (p, Probe::any(s))); most!(s, 12, (p, Probe::any(s), q));
        most!(s, 7, (s.u8(), s.u16(), s.u32())); most!(s, 8, (s.u8(), s.u16(), s.u32(), s.u8()));
    }
    full 20 "" fn c06_tuples(s) {
        let (a, b) = (s.u8(), s.u16());
        exact!(s, 7, (a, b, a, b, a)); exact!(s, 9, (a, b, a, b, a, b)); exact!(s, 10, (a, b, a, b, a, b, a)); exact!(s, 12, (a, b, a, b, a, b, a, b));
        exact!(s, 13, (a, b, a, b, a, b, a, b, a)); exact!(s, 15, (a, b, a, b, a, b, a, b, a, b)); exact!(s, 16, (a, b, a, b, a, b, a, b, a, b, a)); exact!(s, 18, (a, b, a, b, a, b, a, b, a, b, a, b));
    }
    full 34 "" fn c06_net_time(s) {
        let (a, b, p, i) = (s.u32(), s.u128(), s.u16(), s.u32());
        exact!(s, 4, Ipv4Addr::from_bits(a)); exact!(s, 16, Ipv6Addr::from_bits(b));
        most!(s, 17, IpAddr::V4(Ipv4Addr::from_bits(a))); exact!(s, 17, IpAddr::V6(Ipv6Addr::from_bits(b)));
        let x = SocketAddrV4::new(Ipv4Addr::from_bits(a), p); let y = SocketAddrV6::new(Ipv6Addr::from_bits(b), p, i, a);
        exact!(s, 6, x); exact!(s, 26, y); most!(s, 27, SocketAddr::V4(x)); exact!(s, 27, SocketAddr::V6(y));
        let d = s.u64(); let n = s.u32(); s.assume(n < 1_000_000_000);
        exact!(s, 12, Duration::new(d, n));
        if let Some(t) = UNIX_EPOCH.checked_add(Duration::new(d, n)) { exact!(s, 8, t); }
        if let Some(t) = UNIX_EPOCH.checked_sub(Duration::new(d, n)) { exact!(s, 8, t); }
    }
    bounded 20 "capacities 0, 1 and 3" fn c06_sized_slice(s) {
        let v = [odd(s), odd(s), odd(s)];
        let n = s.below(4) as usize;
        most!(s, 17, SizedSlice::<Odd, 3>::new(&v[..n]).ok().unwrap());
        most!(s, 2, SizedSlice::<Odd, 0>::default());
        exact!(s, 7, SizedSlice::<Odd, 1>::from([Odd(5, [0; 3])]));
        exact!(s, 17, SizedSlice::<Odd, 3>::from([Odd(5, [0; 3]); 3]));
    }
    bounded 20 "capacities 0 and 4" fn c06_sized_str(s) {
        let mut b = [0u8; 4];
        let c = s.char();
        most!(s, 6, SizedStr::<4>::new(c.encode_utf8(&mut b)).ok().unwrap());
        most!(s, 2, SizedStr::<0>::default());
        exact!(s, 6, SizedStr::<4>::new("full").ok().unwrap());
    }
    native 0 "capacities 300 and 65535, lazily initialised values" fn c06_large(s) {
        let d = data(s, 1, 65535);
        assert!(SizedSlice::<u8, 65535>::MAX_ENCODED_SIZE == 65537 && SizedStr::<65535>::MAX_ENCODED_SIZE == 65537 && SizedSlice::<u32, 300>::MAX_ENCODED_SIZE == 1202);
        let z = SizedSlice::<u8, 65535>::new(&d).ok().unwrap();
        let (r, e) = encode_vec(&z, 65537);
        assert!(r.is_ok() && e.len() == d.len() + 2);
        exact!(s, 4, LazyCell::<u32>::new(|| 5)); exact!(s, 4, LazyLock::<u32>::new(|| 5));
    }
}
