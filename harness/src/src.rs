//! The source of nondeterminism of a contract harness.
//!
//! Under Kani every primitive is unconstrained (`kani::any`), so a harness body
//! is proved for all values.  Natively the same body is executed on concrete
//! values: either replayed from recorded bytes (a Kani counterexample or an
//! earlier run) or drawn from a boundary-biased generator.

pub trait Src {
    fn u8(&mut self) -> u8;
    fn u16(&mut self) -> u16;
    fn u32(&mut self) -> u32;
    fn u64(&mut self) -> u64;
    fn u128(&mut self) -> u128;
    fn usize(&mut self) -> usize;
    /// A number `0..=k` (Kani) or `0..=n` (native).
    fn len(&mut self, k: usize, n: usize) -> usize;
    /// Restricts the run to values satisfying `c`.
    fn assume(&mut self, c: bool);
    /// Number of bytes a symbolic byte string may have: `k` or `n`.
    fn bound(&self, k: usize, n: usize) -> usize;

    fn bool(&mut self) -> bool {
        let x = self.u8();
        self.assume(x <= 1);
        x == 1
    }
    fn i8(&mut self) -> i8 { self.u8() as i8 }
    fn i16(&mut self) -> i16 { self.u16() as i16 }
    fn i32(&mut self) -> i32 { self.u32() as i32 }
    fn i64(&mut self) -> i64 { self.u64() as i64 }
    fn i128(&mut self) -> i128 { self.u128() as i128 }
    fn isize(&mut self) -> isize { self.usize() as isize }
    fn f32(&mut self) -> f32 { f32::from_bits(self.u32()) }
    fn f64(&mut self) -> f64 { f64::from_bits(self.u64()) }
    fn char(&mut self) -> char {
        let x = self.u32();
        match char::from_u32(x) {
            Some(c) => c,
            None => { self.assume(false); 'x' }
        }
    }
    fn below(&mut self, n: u8) -> u8 {
        let x = self.u8();
        self.assume(x < n);
        x
    }
    /// A vector of `0..=k` / `0..=n` arbitrary bytes.
    fn bytes(&mut self, k: usize, n: usize) -> Vec<u8> {
        let len = self.len(k, n);
        let cap = self.bound(k, n);
        let mut v = Vec::with_capacity(cap);
        let mut i = 0;
        while i < cap {
            if i >= len { break }
            v.push(self.u8());
            i += 1;
        }
        v
    }
    fn array<const N: usize>(&mut self) -> [u8; N] {
        let mut a = [0u8; N];
        let mut i = 0;
        while i < N { a[i] = self.u8(); i += 1; }
        a
    }
}

#[cfg(kani)]
pub struct KaniSrc;

#[cfg(kani)]
impl Src for KaniSrc {
    fn u8(&mut self) -> u8 { kani::any() }
    fn u16(&mut self) -> u16 { kani::any() }
    fn u32(&mut self) -> u32 { kani::any() }
    fn u64(&mut self) -> u64 { kani::any() }
    fn u128(&mut self) -> u128 { kani::any() }
    fn usize(&mut self) -> usize { kani::any() }
    fn len(&mut self, k: usize, _n: usize) -> usize {
        let x: usize = kani::any();
        kani::assume(x <= k);
        x
    }
    fn bound(&self, k: usize, _n: usize) -> usize { k }
    fn assume(&mut self, c: bool) { kani::assume(c) }
}

#[cfg(not(kani))]
pub mod native {
    use super::Src;

    fn trace() -> Option<&'static str> {
        static T: std::sync::OnceLock<Option<String>> = std::sync::OnceLock::new();
        T.get_or_init(|| std::env::var("OCT_TRACE").ok()).as_deref()
    }

    /// Panic payload of a run that left the contract's precondition.
    pub struct Discard;

    pub struct NativeSrc {
        replay: Option<(Vec<Vec<u8>>, usize)>,
        state: u64,
        pub log: Vec<Vec<u8>>,
        pub lens: usize,
        force_len: Option<usize>,
    }

    impl NativeSrc {
        pub fn random(seed: u64, force_len: Option<usize>) -> Self {
            let mut s = Self { replay: None, state: seed ^ 0x9E37_79B9_7F4A_7C15, log: Vec::new(), lens: 0, force_len };
            for _ in 0..4 { s.next(); }
            if let Some(f) = trace() { let _ = std::fs::write(f, ""); }
            s
        }
        pub fn replay(vals: Vec<Vec<u8>>) -> Self {
            Self { replay: Some((vals, 0)), state: 1, log: Vec::new(), lens: 0, force_len: None }
        }
        /// Records a drawn value; with OCT_TRACE also to that file, for runs that do not return.
        fn rec(&mut self, b: Vec<u8>) {
            if let Some(f) = trace() {
                use std::io::Write;
                let l = b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
                let _ = std::fs::OpenOptions::new().append(true).create(true).open(f).and_then(|mut f| writeln!(f, "val {l}"));
            }
            self.log.push(b)
        }
        fn next(&mut self) -> u64 {
            self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = self.state;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^ (z >> 31)
        }
        /// A boundary-biased value of `w` bytes.
        fn biased(&mut self, w: usize) -> u128 {
            let mask = if w == 16 { u128::MAX } else { (1u128 << (8 * w)) - 1 };
            let r = self.next();
            let v: u128 = match r % 8 {
                0 => (self.next() % 8) as u128,
                1 => mask - (self.next() % 8) as u128,
                2 => 1u128 << (self.next() as usize % (8 * w)),
                3 => (1u128 << (self.next() as usize % (8 * w))).wrapping_sub(1),
                4 if w == 4 => [0xD7FFu128, 0xD800, 0xDBFF, 0xDC00, 0xDE00, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x7F, 0x80, 0x7FF, 0x800][self.next() as usize % 15],
                5 if w == 8 => [0x7FFFu128, 0x8000, 0xFFFF, 0x10000, 0x10001, u64::MAX as u128 - 0x7FFF, u64::MAX as u128 - 0x8000][self.next() as usize % 7],
                _ => ((self.next() as u128) << 64) | self.next() as u128,
            };
            v & mask
        }
        fn draw(&mut self, w: usize) -> u128 {
            let v = if let Some((ref vals, ref mut i)) = self.replay {
                let mut v = 0u128;
                if let Some(b) = vals.get(*i) {
                    for (k, x) in b.iter().enumerate() { if k < 16 { v |= (*x as u128) << (8 * k); } }
                }
                *i += 1;
                v
            } else {
                self.biased(w)
            };
            self.rec(v.to_le_bytes()[..w].to_vec());
            v
        }
    }

    impl Src for NativeSrc {
        fn u8(&mut self) -> u8 { self.draw(1) as u8 }
        fn u16(&mut self) -> u16 { self.draw(2) as u16 }
        fn u32(&mut self) -> u32 { self.draw(4) as u32 }
        fn u64(&mut self) -> u64 { self.draw(8) as u64 }
        fn u128(&mut self) -> u128 { self.draw(16) }
        fn usize(&mut self) -> usize { self.draw(8) as usize }
        fn len(&mut self, _k: usize, n: usize) -> usize {
            self.lens += 1;
            let v = if self.replay.is_some() { self.draw(8) as usize } else {
                let v = match self.force_len {
                    Some(f) if f <= n => f,
                    _ => {
                        let cands = [0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65];
                        match self.next() % 4 {
                            0 => n.min(64) - (self.next() as usize % (n.min(64) + 1)),
                            _ => cands[self.next() as usize % cands.len()].min(n),
                        }
                    }
                };
                self.rec(v.to_le_bytes().to_vec());
                v
            };
            self.assume(v <= n);
            v
        }
        fn bound(&self, _k: usize, n: usize) -> usize { n }
        fn assume(&mut self, c: bool) {
            if !c { std::panic::panic_any(Discard) }
        }
        fn bool(&mut self) -> bool { let b = if self.replay.is_some() { self.draw(1) } else { let v = (self.next() & 1) as u128; self.rec(vec![v as u8]); v }; b & 1 == 1 }
        fn char(&mut self) -> char {
            if self.replay.is_some() { return char::from_u32(self.draw(4) as u32).unwrap_or_else(|| std::panic::panic_any(Discard)) }
            loop {
                let v = self.biased(4);
                let m = [0x7F, 0x7FF, 0xFFFF, 0x1F_FFFF][self.next() as usize % 4];
                if let Some(c) = char::from_u32(v as u32 & m) { self.rec((c as u32).to_le_bytes().to_vec()); return c }
            }
        }
        fn below(&mut self, n: u8) -> u8 {
            let v = if self.replay.is_some() { self.draw(1) as u8 } else { let v = (self.next() % n as u64) as u8; self.rec(vec![v]); v };
            self.assume(v < n);
            v
        }
    }
}
