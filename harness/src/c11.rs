//! C11: the fixed-capacity string is always valid, bounded UTF-8.
use crate::common::*;
use crate::{contracts, Src};
use core::borrow::{Borrow, BorrowMut};
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
use core::str::FromStr;
use oct::error::{LengthError, StringError, Utf8Error};
use oct::{SizedSlice, SizedStr};
use std::collections::hash_map::DefaultHasher;
use std::ffi::OsStr;
use std::path::Path;

/// `z` holds exactly the text `m`, by every cheap accessor.
fn is<const N: usize>(z: &SizedStr<N>, m: &[u8]) {
    assert!(z.len() == m.len() && z.capacity() == N && z.is_empty() == (m.len() == 0) && z.is_full() == (m.len() == N), "length and capacity agree");
    assert!(m.len() <= N, "never longer than the capacity");
    assert!(eq_slices(z.as_bytes(), m) && eq_slices(z.as_str().as_bytes(), m), "the views are the text");
    assert!(z.as_ptr() == z.as_bytes().as_ptr(), "the pointer is that of the first byte");
}
/// `L` bytes of well-formed text.
fn text_of<const L: usize, S: Src>(s: &mut S) -> [u8; L] {
    let mut b: [u8; L] = s.array::<L>();
    if cfg!(not(kani)) && utf8_prefix(&b) != L { let mut k = 0; while k < L { b[k] &= 0x7F; k += 1; } }
    s.assume(utf8_prefix(&b) == L);
    b
}
fn st(b: &[u8]) -> &str { unsafe { core::str::from_utf8_unchecked(b) } }
/// Construction from `L` arbitrary bytes with capacity `N`.
fn from_bytes<const L: usize, const N: usize, S: Src>(s: &mut S) {
    let b: [u8; L] = s.array::<L>();
    let w = utf8_prefix(&b);
    match SizedStr::<N>::from_utf8(&b) {
        Ok(z) => { assert!(L <= N && w == L, "ill-formed or over-long text is refused"); is(&z, &b) }
        Err(StringError::SmallBuffer(LengthError { capacity, len })) => assert!(L > N && capacity == N && len == L, "refused as too long with capacity and length"),
        Err(StringError::BadUtf8(Utf8Error { value, index })) => assert!(L <= N && w < L && index == w && value == b[w], "refused with index and value of the first offending byte"),
        Err(_) => panic!("no other error applies"),
    }
}
/// Construction from well-formed text of `L` bytes with capacity `N`.
fn from_text<const L: usize, const N: usize, S: Src>(s: &mut S) {
    let b = text_of::<L, S>(s);
    let t = st(&b);
    let r = match s.below(3) { 0 => SizedStr::<N>::new(t), 1 => SizedStr::<N>::from_str(t), _ => SizedStr::<N>::try_from(t) };
    match r {
        Ok(z) => { assert!(L <= N, "over-long text is refused"); is(&z, &b); is(&z.clone(), &b) }
        Err(StringError::SmallBuffer(LengthError { capacity, len })) => assert!(L > N && capacity == N && len == L, "refused as too long with capacity and length"),
        Err(_) => panic!("no other error applies"),
    }
}
/// Number of bytes of the UTF-8 encoding of `c`, by the Unicode table.
fn width(c: char) -> usize { let c = c as u32; if c < 0x80 { 1 } else if c < 0x800 { 2 } else if c < 0x10000 { 3 } else { 4 } }
fn put(c: char, out: &mut [u8], at: usize) -> usize {
    let x = c as u32;
    match width(c) {
        1 => out[at] = x as u8,
        2 => { out[at] = 0xC0 | (x >> 6) as u8; out[at + 1] = 0x80 | (x & 63) as u8 }
        3 => { out[at] = 0xE0 | (x >> 12) as u8; out[at + 1] = 0x80 | (x >> 6 & 63) as u8; out[at + 2] = 0x80 | (x & 63) as u8 }
        _ => { out[at] = 0xF0 | (x >> 18) as u8; out[at + 1] = 0x80 | (x >> 12 & 63) as u8; out[at + 2] = 0x80 | (x >> 6 & 63) as u8; out[at + 3] = 0x80 | (x & 63) as u8 }
    }
    width(c)
}
fn std_hash<T: Hash + ?Sized>(v: &T) -> u64 { let mut h = DefaultHasher::new(); v.hash(&mut h); h.finish() }

contracts! {
    bounded 10 "2 bytes, capacity 3" fn c11_from_utf8_2(s) { from_bytes::<2, 3, _>(s) }
    bounded 10 "3 bytes, capacity 3" fn c11_from_utf8_3(s) { from_bytes::<3, 3, _>(s) }
    bounded 10 "4 bytes, capacity 4" fn c11_from_utf8_4(s) { from_bytes::<4, 4, _>(s) }
    bounded 10 "3 bytes, capacity 2" fn c11_from_utf8_over(s) { from_bytes::<3, 2, _>(s) }
    bounded 10 "3 bytes, capacity 4" fn c11_from_text_3(s) { from_text::<3, 4, _>(s) }
    bounded 10 "4 bytes, capacity 4" fn c11_from_text_4(s) { from_text::<4, 4, _>(s) }
    bounded 10 "4 bytes, capacity 3" fn c11_from_text_over(s) { from_text::<4, 3, _>(s) }
    full 10 "every string length above the capacity 3, up to 40" fn c11_new_any_length(s) {
        static Z: [u8; 40] = [b'z'; 40];
        let n = s.usize();
        s.assume(n > 3 && n <= 40);
        match SizedStr::<3>::new(st(&Z[..n])) { Err(StringError::SmallBuffer(e)) => assert!(e.capacity == 3 && e.len == n, "refused with capacity and length"), _ => panic!("over-long text is refused") }
        match SizedStr::<3>::from_utf8(&Z[..n]) { Err(StringError::SmallBuffer(e)) => assert!(e.capacity == 3 && e.len == n, "refused with capacity and length"), _ => panic!("over-long text is refused") }
    }
    full 10 "every character; capacities 0 to 4" fn c11_char(s) {
        let c = s.char();
        let mut e = [0u8; 4];
        let w = put(c, &mut e, 0);
        macro_rules! cap { ($($n:literal)*) => { $( match SizedStr::<$n>::try_from(c) {
            Ok(z) => { assert!(w <= $n, "an over-long character is refused"); assert!(z.len() == w); let mut k = 0; while k < w { assert!(z.as_bytes()[k] == e[k], "the character's encoding is kept"); k += 1; } }
            Err(StringError::SmallBuffer(x)) => assert!(w > $n && x.capacity == $n && x.len == w, "refused with capacity and length"),
            Err(_) => panic!("no other error applies"),
        } )* } }
        cap!(0 1 2 3 4);
    }
    full 10 "two arbitrary characters, capacities 4 and 6" fn c11_collect(s) {
        let a = [s.char(), s.char()];
        macro_rules! cap { ($($n:literal)*) => { $( {
            let z: SizedStr<$n> = a.iter().copied().collect();
            let mut e = [0u8; 8];
            let mut w = 0;
            let mut k = 0;
            while k < 2 { if w + width(a[k]) > $n { break } w += put(a[k], &mut e, w); k += 1; }
            assert!(z.len() == w, "the longest prefix of whole characters is kept");
            let mut k = 0;
            while k < w { assert!(z.as_bytes()[k] == e[k], "the characters' encodings are kept"); k += 1; }
        } )* } }
        cap!(4 6);
    }
    full 10 "capacities 0 and 5" fn c11_default(s) {
        let _ = s.bool();
        is(&SizedStr::<5>::default(), &[]); is(&SizedStr::<0>::default(), &[]); is(&SizedStr::<5>::default().clone(), &[]);
        let (b, n) = SizedStr::<5>::default().into_raw_parts();
        assert!(n == 0 && b.len() == 5);
        let x = b[0] | b[4];
        assert!(x == x, "all bytes handed out are initialised");
    }
    bounded 10 "3 bytes, capacity 5" fn c11_conversions(s) {
        let b = text_of::<3, S>(s);
        let z = SizedStr::<5>::new(st(&b)).ok().unwrap();
        let c = s.below(6);
        match c {
            0 => assert!(eq_slices(z.into_boxed_str().as_bytes(), &b), "conversion keeps the text"),
            1 => assert!(eq_slices(z.into_string().as_bytes(), &b), "conversion keeps the text"),
            2 => assert!(eq_slices(z.into_bytes().as_slice(), &b), "conversion keeps the text"),
            3 => assert!(eq_slices(Box::<str>::from(z).as_bytes(), &b), "conversion keeps the text"),
            4 => assert!(eq_slices(String::from(z).as_bytes(), &b), "conversion keeps the text"),
            _ => { let (x, n) = z.into_raw_parts(); assert!(n == 3 && eq_slices(&x[..n], &b), "raw parts keep the text"); is(&unsafe { SizedStr::<5>::from_raw_parts(x, n) }, &b); is(&unsafe { SizedStr::<5>::from_utf8_unchecked(&x[..n]) }, &b) }
        }
    }
    bounded 10 "2 bytes, capacity 3" fn c11_views(s) {
        let b = text_of::<2, S>(s);
        let mut z = SizedStr::<3>::new(st(&b)).ok().unwrap();
        let t: &str = z.as_ref(); assert!(eq_slices(t.as_bytes(), &b), "as_ref is the text");
        let t: &[u8] = z.as_ref(); assert!(eq_slices(t, &b), "as_ref is the text");
        let t: &str = z.borrow(); assert!(eq_slices(t.as_bytes(), &b), "borrow is the text");
        let t: &str = &z; assert!(eq_slices(t.as_bytes(), &b), "deref is the text");
        assert!(eq_slices(z[..].as_bytes(), &b), "indexing is that of the text");
        assert!(z.as_mut_str().len() == 2 && z.as_mut_ptr() as *const u8 == z.as_ptr());
        { let t: &mut str = z.as_mut(); assert!(t.len() == 2); }
        { let t: &mut str = z.borrow_mut(); assert!(t.len() == 2); }
        { let t: &mut str = &mut z; t.make_ascii_uppercase(); }
        let up = [b[0].to_ascii_uppercase(), b[1].to_ascii_uppercase()];
        is(&z, &up);
    }
    bounded 10 "2 and 2 bytes" fn c11_comparison(s) {
        let (a, b) = (text_of::<2, S>(s), text_of::<2, S>(s));
        let (x, y) = (SizedStr::<2>::new(st(&a)).ok().unwrap(), SizedStr::<3>::new(st(&b)).ok().unwrap());
        let e = a == b;
        let o = if a[0] < b[0] || (a[0] == b[0] && a[1] < b[1]) { Ordering::Less } else if e { Ordering::Equal } else { Ordering::Greater };
        assert!((x == y) == e && x.partial_cmp(&y) == Some(o) && y.partial_cmp(&x) == Some(o.reverse()), "comparison is that of the text");
        assert!((x == st(&b)) == e && x.partial_cmp(&st(&b)) == Some(o), "comparison is that of the text");
        let w = SizedStr::<2>::new(st(&b)).ok().unwrap();
        assert!(x.cmp(&w) == o, "comparison is that of the text");
        let p = SizedStr::<3>::new(st(&b[..0])).ok().unwrap();
        assert!(x != p && x.partial_cmp(&p) == Some(Ordering::Greater) && p.partial_cmp(&x) == Some(Ordering::Less), "a longer text is greater than its prefix");
    }
    native 0 "up to 2000 bytes, against ordinary strings" fn c11_long(s) {
        let d = nearly_text(s, 2000);
        let r = SizedStr::<1000>::from_utf8(&d);
        match (core::str::from_utf8(&d), r) {
            (_, Err(StringError::SmallBuffer(e))) => assert!(d.len() > 1000 && e.capacity == 1000 && e.len == d.len()),
            (Err(x), Err(StringError::BadUtf8(e))) => assert!(d.len() <= 1000 && e.index == x.valid_up_to() && e.value == d[e.index]),
            (Ok(t), Ok(z)) => {
                assert!(d.len() <= 1000);
                is(&z, &d);
                is(&z.clone(), &d);
                assert!(z.chars().eq(t.chars()) && z.char_indices().eq(t.char_indices()));
                assert!(format!("{z}") == t && format!("{z:?}") == format!("{t:?}") && format!("{z:>30}|{z:<5.3}") == format!("{t:>30}|{t:<5.3}"));
                assert!(std_hash(&z) == std_hash(t));
                assert!(z == t && z == t.to_string() && z.partial_cmp(&t.to_string()) == Some(Ordering::Equal));
                let o: &OsStr = z.as_ref(); assert!(o == OsStr::new(t));
                let o: &Path = z.as_ref(); assert!(o == Path::new(t));
                assert!(z.clone().into_string() == t && &*z.clone().into_boxed_str() == t && z.clone().into_bytes().as_slice() == d);
                let k = s.usize() % (t.len() + 1);
                assert!(z.get(..k) == t.get(..k) && z.get(k..) == t.get(k..));
                if t.is_char_boundary(k) {
                    assert!(&z[k..] == &t[k..]);
                    let u = SizedStr::<1000>::try_from(t[k..].to_string()).ok().unwrap();
                    is(&u, t[k..].as_bytes());
                    assert!(z.partial_cmp(&u) == t.partial_cmp(&t[k..]) && z.cmp(&u) == t.cmp(&t[k..]) && (z == u) == (t == &t[k..]) && z.partial_cmp(&&t[k..]) == t.partial_cmp(&t[k..]));
                }
            }
            _ => panic!("construction succeeds exactly for well-formed text that fits"),
        }
    }
    native 0 "up to 60 characters, capacities 0, 1, 2, 3, 5, 16 and 64" fn c11_collect_long(s) {
        let n = s.len(2, 60);
        let v: Vec<char> = (0..n).map(|_| s.char()).collect();
        macro_rules! cap { ($($n:literal)*) => { $( {
            let z: SizedStr<$n> = v.iter().copied().collect();
            let mut e = String::new();
            for c in &v { if e.len() + c.len_utf8() > $n { break } e.push(*c) }
            is(&z, e.as_bytes());
            assert!(core::str::from_utf8(z.as_bytes()).is_ok());
        } )* } }
        cap!(0 1 2 3 5 16 64);
    }
    native 0 "socket addresses parse like the text" fn c11_sockets(s) {
        let p = s.u16();
        let t = format!("127.0.0.1:{p}");
        let z = SizedStr::<30>::new(&t).ok().unwrap();
        use std::net::ToSocketAddrs;
        assert!(z.to_socket_addrs().unwrap().eq(t.to_socket_addrs().unwrap()));
    }
    native_panics 0 "out-of-range and non-boundary indices" fn c11_bad_index(s) {
        let t = text(s, 2, 60);
        let z = SizedStr::<64>::new(&t).ok().unwrap();
        let k = s.usize() % 200;
        s.assume(!t.is_char_boundary(k));
        let _ = &z[k..];
        crate::returned();
    }
}
