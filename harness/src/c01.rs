//! C01: scalars survive a round trip.
use crate::common::*;
use crate::{contracts, Src};
use core::num::NonZero;
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};
use std::sync::atomic::*;

macro_rules! nz {
    ($s:ident, $m:ident, $t:ty, $b:literal) => {{
        let x = $s.$m() as $t;
        $s.assume(x != 0);
        let v = NonZero::<$t>::new(x).unwrap();
        roundtrip::<$b, _, _>($s, &v, |a, b| a.get() == x && b.get() == x);
    }};
}
macro_rules! at {
    ($s:ident, $e:expr, $t:ty, $b:literal) => {{
        let x = $e;
        let v = <$t>::new(x);
        roundtrip::<$b, _, _>($s, &v, |a, b| a.load(Ordering::SeqCst) == x && b.load(Ordering::SeqCst) == x);
    }};
}
macro_rules! int {
    ($s:ident, $m:ident, $b:literal) => {{
        let x = $s.$m();
        roundtrip::<$b, _, _>($s, &x, |a, b| *a == x && *b == x);
    }};
}
fn i16_usize<S: Src>(s: &mut S) -> usize { let x = s.u16(); x as usize }

contracts! {
    full 20 "" fn c01_unsigned(s) { int!(s, u8, 3); int!(s, u16, 4); int!(s, u32, 6); }
    full 20 "" fn c01_unsigned_wide(s) { int!(s, u64, 10); int!(s, u128, 18); }
    full 20 "" fn c01_signed(s) { int!(s, i8, 3); int!(s, i16, 4); int!(s, i32, 6); }
    full 20 "" fn c01_signed_wide(s) { int!(s, i64, 10); int!(s, i128, 18); }
    full 20 "" fn c01_floats(s) {
        let x = s.f32(); roundtrip::<6, _, _>(s, &x, |a, b| a.to_bits() == x.to_bits() && b.to_bits() == x.to_bits());
        let x = s.f64(); roundtrip::<10, _, _>(s, &x, |a, b| a.to_bits() == x.to_bits() && b.to_bits() == x.to_bits());
    }
    full 20 "" fn c01_bool(s) { int!(s, bool, 3); }
    full 20 "" fn c01_char(s) { int!(s, char, 6); }
    full 20 "" fn c01_usize(s) { let x = s.usize(); s.assume(x <= 65535); roundtrip::<4, _, _>(s, &x, |a, b| *a == x && *b == x); }
    full 20 "" fn c01_isize(s) { let x = s.isize(); s.assume(x >= -32768 && x <= 32767); roundtrip::<4, _, _>(s, &x, |a, b| *a == x && *b == x); }
    full 20 "" fn c01_nonzero_small(s) { nz!(s, u8, u8, 3); nz!(s, u16, u16, 4); nz!(s, u32, u32, 6); nz!(s, u8, i8, 3); nz!(s, u16, i16, 4); nz!(s, u32, i32, 6); }
    full 20 "" fn c01_nonzero_wide(s) { nz!(s, u64, u64, 10); nz!(s, u128, u128, 18); nz!(s, u64, i64, 10); nz!(s, u128, i128, 18); }
    full 20 "" fn c01_nonzero_size(s) { nz!(s, u16, usize, 4); nz!(s, i16, isize, 4); }
    full 20 "" fn c01_atomics_small(s) {
        at!(s, s.bool(), AtomicBool, 3); at!(s, s.u8(), AtomicU8, 3); at!(s, s.i8(), AtomicI8, 3); at!(s, s.u16(), AtomicU16, 4);
        at!(s, s.i16(), AtomicI16, 4); at!(s, s.u32(), AtomicU32, 6); at!(s, s.i32(), AtomicI32, 6);
    }
    full 20 "" fn c01_atomics_wide(s) {
        at!(s, s.u64(), AtomicU64, 10); at!(s, s.i64(), AtomicI64, 10);
        at!(s, s.u16() as usize, AtomicUsize, 4); at!(s, s.i16() as isize, AtomicIsize, 4);
    }
    native 0 "16-bit and 32-bit scalars" fn c01_sweep(s) {
        // every 16-bit value; every 32-bit value is covered by the proofs above
        let base = s.u16();
        let mut k = 0u16;
        while k < 64 {
            let x = base.wrapping_add(k);
            let mut buf = [0u8; 2];
            assert!(x.encode(&mut Output::new(&mut buf)).is_ok());
            assert!(u16::decode(&mut Input::new(&buf)) == Ok(x), "u16 round trip");
            k += 1;
        }
    }
    full 40 "what is assumed of the library functions that integers, floats and characters are proved with" fn c01_trusted(s) {
        let x = s.i64();
        assert!(x.unsigned_abs() as i128 == (if x < 0 { -(x as i128) } else { x as i128 }) && x.is_positive() == (x > 0) && x.wrapping_neg() as i128 == (if x == i64::MIN { x as i128 } else { -(x as i128) }));
        let (b, c) = (s.u32(), s.u64());
        assert!(f32::from_le_bytes(b.to_le_bytes()).to_bits() == b && f64::from_le_bytes(c.to_le_bytes()).to_bits() == c);
        assert!(f32::from_bits(b).to_le_bytes() == b.to_le_bytes() && f64::from_bits(c).to_le_bytes() == c.to_le_bytes());
        let d = s.u128();
        let a = d.to_le_bytes();
        let mut k = 0;
        while k < 16 { assert!(a[k] == (d >> (8 * k)) as u8); k += 1; }
        assert!(u128::from_le_bytes(a) == d && i128::from_le_bytes((d as i128).to_le_bytes()) == d as i128);
        let e = s.bool();
        assert!(u8::from(e) == if e { 1 } else { 0 });
        let f = s.char();
        assert!(u32::from(f) == f as u32 && unsafe { char::from_u32_unchecked(f as u32) } == f && (f as u32) < 0x11_0000 && !(0xD800..0xE000).contains(&(f as u32)));
        let n = core::num::NonZero::<u64>::new(c);
        assert!(n.is_some() == (c != 0) && n.is_none_or(|n| n.get() == c));
    }
}
