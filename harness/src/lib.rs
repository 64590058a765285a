//! Executable contracts for `oct`, written only against its public interface.
//!
//! Each contract is a body over a [`Src`] of arbitrary values: preconditions are
//! `assume`d, the real function from /repo is called, and postconditions are
//! asserted.  `cargo kani` proves a contract for every value (label `full`), or
//! for every value within a stated bound (label `bounded`); the same body also
//! runs natively to replay a counterexample on the compiled code, and on
//! boundary-biased values (label `native` if it runs only there).
#![allow(dead_code, unused_imports, clippy::all)]
#![allow(non_snake_case)]

pub mod src;
pub mod common;

pub use src::Src;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Full, Bounded, Slow, Native, Panics, NativePanics, Known }

#[cfg(not(kani))]
pub struct Entry {
    pub name: &'static str,
    pub kind: Kind,
    pub note: &'static str,
    pub run: fn(&mut src::native::NativeSrc),
}

/// Reached only when a call that must panic returned instead.
#[cfg(kani)]
pub fn returned() -> ! { unsafe { core::hint::unreachable_unchecked() } }

#[cfg(not(kani))]
pub struct Returned;

#[cfg(not(kani))]
pub fn returned() -> ! { std::panic::panic_any(Returned) }

#[macro_export]
macro_rules! kind {
    (full) => { $crate::Kind::Full };
    (bounded) => { $crate::Kind::Bounded };
    (slow) => { $crate::Kind::Slow };
    (native) => { $crate::Kind::Native };
    (panics) => { $crate::Kind::Panics };
    (native_panics) => { $crate::Kind::NativePanics };
    (known) => { $crate::Kind::Known };
}

#[macro_export]
macro_rules! proof {
    (native $u:literal $name:ident) => {};
    (native_panics $u:literal $name:ident) => {};
    (known $u:literal $name:ident) => {};
    (panics $u:literal $name:ident) => {
        #[kani::proof]
        #[kani::should_panic]
        #[kani::unwind($u)]
        pub fn $name() { super::$name(&mut $crate::src::KaniSrc); }
    };
    (slow $u:literal $name:ident) => {
        #[cfg(feature = "thorough")]
        #[kani::proof]
        #[kani::unwind($u)]
        pub fn $name() {
            super::$name(&mut $crate::src::KaniSrc);
            kani::cover!(true, "contract reached");
        }
    };
    ($k:ident $u:literal $name:ident) => {
        #[kani::proof]
        #[kani::unwind($u)]
        pub fn $name() {
            super::$name(&mut $crate::src::KaniSrc);
            kani::cover!(true, "contract reached");
        }
    };
}

#[macro_export]
macro_rules! contracts {
    ($( $k:ident $u:literal $note:literal fn $name:ident($s:ident) $body:block )*) => {
        $( pub fn $name<S: $crate::Src>($s: &mut S) $body )*

        #[cfg(kani)]
        pub mod proofs {
            $( $crate::proof!($k $u $name); )*
        }

        #[cfg(not(kani))]
        pub const TABLE: &[$crate::Entry] = &[
            $( $crate::Entry { name: stringify!($name), kind: $crate::kind!($k), note: $note, run: $name::<$crate::src::native::NativeSrc> }, )*
        ];
    };
}

macro_rules! props {
    ($($f:literal $m:ident)*) => {
        $( #[cfg(feature = $f)] pub mod $m; )*

        #[cfg(not(kani))]
        pub fn tables() -> Vec<(&'static str, &'static [Entry])> {
            #[allow(unused_mut)]
            let mut v: Vec<(&'static str, &'static [Entry])> = Vec::new();
            $( #[cfg(feature = $f)] v.push(($f, $m::TABLE)); )*
            v
        }
    };
}

props! {
    "c01" c01 "c02" c02 "c03" c03 "c04" c04 "c05" c05 "c06" c06 "c07" c07 "c08" c08
    "c09" c09 "c10" c10 "c11" c11 "c12" c12 "c13" c13 "c14" c14 "c15" c15 "c16" c16
}
