//! Helpers and the probe element type shared by the contracts.
use crate::Src;
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output, SizedEncode};

/// An element type with a variable-length encoding and failing values:
/// `tag` 0 encodes as `[0]`, `tag` 1 as `[1, x]`, `tag` 2 cannot be encoded.
/// Decoding rejects any tag above 1.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Probe { pub tag: u8, pub x: u8 }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct ProbeErr(pub u8);

impl Probe {
    pub fn good<S: Src>(s: &mut S) -> Self {
        let t = s.u8();
        let x = s.u8();
        if t & 1 == 0 { Probe { tag: 0, x: 0 } } else { Probe { tag: 1, x } }
    }
    /// May be unencodable.
    pub fn any<S: Src>(s: &mut S) -> Self {
        let t = s.u8();
        let x = s.u8();
        match t % 3 { 0 => Probe { tag: 0, x: 0 }, 1 => Probe { tag: 1, x }, _ => Probe { tag: 2, x } }
    }
    pub fn ok(&self) -> bool { self.tag < 2 }
    pub fn emit(&self, out: &mut Vec<u8>) {
        if self.tag == 0 { out.push(0) } else if self.tag == 1 { out.push(1); out.push(self.x) }
    }
    pub fn size(&self) -> usize { match self.tag { 0 => 1, 1 => 2, _ => 0 } }
}

impl Encode for Probe {
    type Error = ProbeErr;
    fn encode(&self, output: &mut Output) -> Result<(), ProbeErr> {
        match self.tag {
            0 => { output.write(&[0]).unwrap(); Ok(()) }
            1 => { output.write(&[1, self.x]).unwrap(); Ok(()) }
            _ => Err(ProbeErr(self.x)),
        }
    }
}

impl SizedEncode for Probe { const MAX_ENCODED_SIZE: usize = 2; }

impl Decode for Probe {
    type Error = ProbeErr;
    fn decode(input: &mut Input) -> Result<Self, ProbeErr> {
        let t = input.read(1).unwrap()[0];
        match t {
            0 => Ok(Probe { tag: 0, x: 0 }),
            1 => Ok(Probe { tag: 1, x: input.read(1).unwrap()[0] }),
            t => Err(ProbeErr(t)),
        }
    }
}

/// Encodes `v` after `PRE` bytes of other data in a buffer with arbitrary contents,
/// checks success, decodes it again from the same buffer (arbitrary bytes follow)
/// and hands both values to `same`.
pub fn roundtrip<const B: usize, T: Encode + Decode, S: Src>(s: &mut S, v: &T, same: impl FnOnce(&T, &T) -> bool) {
    let mut buf: [u8; B] = s.array::<B>();
    let n = {
        let mut o = Output::new(&mut buf);
        let r = v.encode(&mut o);
        assert!(r.is_ok(), "encoding an encodable value succeeds");
        o.position()
    };
    let mut i = Input::new(&buf);
    match T::decode(&mut i) {
        Ok(w) => assert!(same(v, &w), "decoding yields the encoded value"),
        Err(_) => panic!("decoding an encoding succeeds"),
    }
    assert!(i.position() == n, "decoding consumes exactly the encoded bytes");
}

/// As [`roundtrip`] for values whose encoding may be long: the buffer has `cap` bytes
/// with two arbitrary bytes right after the encoding. `T` encodes, `U` decodes.
pub fn roundtrip_dyn<T: Encode + ?Sized, U: Decode, S: Src>(s: &mut S, v: &T, cap: usize, same: impl FnOnce(&T, &U) -> bool) -> Vec<u8> {
    let mut buf = vec![0xA5u8; cap];
    let n = {
        let mut o = Output::new(&mut buf);
        let r = v.encode(&mut o);
        assert!(r.is_ok(), "encoding an encodable value succeeds");
        o.position()
    };
    if n < cap { buf[n] = s.u8() }
    if n + 1 < cap { buf[n + 1] = s.u8() }
    let mut i = Input::new(&buf);
    match U::decode(&mut i) {
        Ok(w) => assert!(same(v, &w), "decoding yields the encoded value"),
        Err(_) => panic!("decoding an encoding succeeds"),
    }
    assert!(i.position() == n, "decoding consumes exactly the encoded bytes");
    buf.truncate(n);
    buf
}

/// The bytes written by encoding `v` at offset `at` of a `B`-byte buffer; checks that
/// nothing else in the buffer changed. `Err` if encoding failed.
pub fn encoded<const B: usize, T: Encode + ?Sized, S: Src>(s: &mut S, v: &T, at: usize) -> (Result<(), T::Error>, [u8; B], usize) {
    let before: [u8; B] = s.array::<B>();
    let mut buf = before;
    let (r, n) = {
        let mut o = Output::new(&mut buf);
        let pre = o.write(&before[..at]);
        assert!(pre.is_ok(), "writing a prefix that fits succeeds");
        let r = v.encode(&mut o);
        (r, o.position() - at)
    };
    let mut k = 0;
    while k < B {
        if k < at || k >= at + n { assert!(buf[k] == before[k], "bytes outside the encoding are untouched"); }
        k += 1;
    }
    let mut out = [0u8; B];
    let mut k = 0;
    while k < n { out[k] = buf[at + k]; k += 1; }
    (r, out, n)
}

/// Little-endian bytes of the low `w` bytes of `x`, written without the library.
pub fn le(mut x: u128, w: usize, out: &mut Vec<u8>) {
    let mut k = 0;
    while k < w { out.push((x % 256) as u8); x /= 256; k += 1; }
}

pub fn same_bytes(a: &[u8], n: usize, b: &[u8]) -> bool {
    if n != b.len() { return false }
    let mut k = 0;
    while k < n { if a[k] != b[k] { return false } k += 1; }
    true
}

/// Encoding of `v` into a fresh buffer of `cap` bytes: (result, bytes written).
pub fn encode_vec<T: Encode + ?Sized>(v: &T, cap: usize) -> (Result<(), T::Error>, Vec<u8>) {
    let mut buf = vec![0u8; cap];
    let (r, n) = {
        let mut o = Output::new(&mut buf);
        let r = v.encode(&mut o);
        (r, o.position())
    };
    buf.truncate(n);
    (r, buf)
}

/// Reads a little-endian number of `w` bytes at `at`.
pub fn rd(buf: &[u8], at: usize, w: usize) -> u128 {
    let mut x = 0u128;
    let mut k = w;
    while k > 0 { k -= 1; x = x * 256 + buf[at + k] as u128; }
    x
}

pub fn probes<S: Src>(s: &mut S, k: usize, n: usize) -> Vec<Probe> {
    let len = s.len(k, n);
    let cap = s.bound(k, n);
    let mut v = Vec::with_capacity(cap);
    let mut i = 0;
    while i < cap { if i >= len { break } v.push(Probe::good(s)); i += 1; }
    v
}
/// Natively long byte data is generated from two drawn bytes to keep replays short.
pub fn data<S: Src>(s: &mut S, k: usize, n: usize) -> Vec<u8> {
    let len = s.len(k, n);
    let cap = s.bound(k, n);
    let mut v = Vec::with_capacity(cap);
    let (a, b) = if len > 64 { (s.u8(), s.u8()) } else { (0, 0) };
    let mut i = 0;
    while i < cap {
        if i >= len { break }
        v.push(if len > 64 { a.wrapping_add(b.wrapping_mul(i as u8)).wrapping_add((i >> 8) as u8) } else { s.u8() });
        i += 1;
    }
    v
}
/// A well-formed string of about `0..=n` bytes (`0..=k` under Kani).
pub fn text<S: Src>(s: &mut S, k: usize, n: usize) -> String {
    let len = s.len(k, n);
    let cap = s.bound(k, n);
    let mut t = String::with_capacity(cap);
    let c = if len > 64 { s.char() } else { 'x' };
    let mut i = 0;
    while i < cap {
        if t.len() >= len { break }
        let d = if len > 64 { if i % 3 == 0 { 'y' } else { c } } else { s.char() };
        if t.len() + d.len_utf8() > len { t.push('z') } else { t.push(d) }
        i += 1;
    }
    t
}
pub fn eq_slices<T: PartialEq>(a: &[T], b: &[T]) -> bool {
    if a.len() != b.len() { return false }
    let mut i = 0;
    while i < a.len() { if a[i] != b[i] { return false } i += 1; }
    true
}

/// Length of the longest well-formed UTF-8 prefix, by the Unicode table.
pub fn utf8_prefix(b: &[u8]) -> usize {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let cont = |k: usize, lo: u8, hi: u8| i + k < b.len() && b[i + k] >= lo && b[i + k] <= hi;
        let w = if c < 0x80 { 1 }
            else if c >= 0xC2 && c <= 0xDF && cont(1, 0x80, 0xBF) { 2 }
            else if c == 0xE0 && cont(1, 0xA0, 0xBF) && cont(2, 0x80, 0xBF) { 3 }
            else if c >= 0xE1 && c <= 0xEF && c != 0xED && cont(1, 0x80, 0xBF) && cont(2, 0x80, 0xBF) { 3 }
            else if c == 0xED && cont(1, 0x80, 0x9F) && cont(2, 0x80, 0xBF) { 3 }
            else if c == 0xF0 && cont(1, 0x90, 0xBF) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF) { 4 }
            else if c >= 0xF1 && c <= 0xF3 && cont(1, 0x80, 0xBF) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF) { 4 }
            else if c == 0xF4 && cont(1, 0x80, 0x8F) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF) { 4 }
            else { return i };
        i += w;
    }
    i
}
/// A byte string that is often, but not always, well-formed text.
pub fn nearly_text<S: Src>(s: &mut S, n: usize) -> Vec<u8> {
    let mut v = text(s, 2, n).into_bytes();
    match s.below(4) {
        0 if !v.is_empty() => { let k = s.usize() % v.len(); v[k] = s.u8(); }
        1 if !v.is_empty() => { let k = s.usize() % v.len(); v.truncate(k); }
        2 => { let k = s.below(4); for _ in 0..k { let x = s.u8(); v.push(x | 0x80); } v.truncate(n); }
        _ => {}
    }
    v
}
