// Written by tools/mkshapes.py; do not edit.
#![allow(overflowing_literals)]
use super::*;
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub struct S0;
impl Field for S0 {
    const MAX: usize = 0;
    fn any<S: Src>(s: &mut S) -> Self { Self }
    fn emit(&self, o: &mut Vec<u8>) { let Self = self; }
}
impl Shape for S0 { const WIDTH: usize = 0; fn assigned(_: u128) -> bool { true } fn reported(_: &<Self as Decode>::Error) -> Option<u128> { None } }
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub struct S1();
impl Field for S1 {
    const MAX: usize = 0;
    fn any<S: Src>(s: &mut S) -> Self { Self() }
    fn emit(&self, o: &mut Vec<u8>) { let Self() = self; }
}
impl Shape for S1 { const WIDTH: usize = 0; fn assigned(_: u128) -> bool { true } fn reported(_: &<Self as Decode>::Error) -> Option<u128> { None } }
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub struct S2 {  }
impl Field for S2 {
    const MAX: usize = 0;
    fn any<S: Src>(s: &mut S) -> Self { Self {  } }
    fn emit(&self, o: &mut Vec<u8>) { let Self {  } = self; }
}
impl Shape for S2 { const WIDTH: usize = 0; fn assigned(_: u128) -> bool { true } fn reported(_: &<Self as Decode>::Error) -> Option<u128> { None } }
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub struct S3 { zeta: bool, alpha: i8 }
impl Field for S3 {
    const MAX: usize = 2;
    fn any<S: Src>(s: &mut S) -> Self { Self { zeta: Field::any(s), alpha: Field::any(s) } }
    fn emit(&self, o: &mut Vec<u8>) { let Self { zeta: f0, alpha: f1 } = self; f0.emit(o); f1.emit(o); }
}
impl Shape for S3 { const WIDTH: usize = 0; fn assigned(_: u128) -> bool { true } fn reported(_: &<Self as Decode>::Error) -> Option<u128> { None } }
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub struct S4(i16, isize, f32, i8, NonZero<u16>);
impl Field for S4 {
    const MAX: usize = 11;
    fn any<S: Src>(s: &mut S) -> Self { Self(Field::any(s), Field::any(s), Field::any(s), Field::any(s), Field::any(s)) }
    fn emit(&self, o: &mut Vec<u8>) { let Self(f0, f1, f2, f3, f4) = self; f0.emit(o); f1.emit(o); f2.emit(o); f3.emit(o); f4.emit(o); }
}
impl Shape for S4 { const WIDTH: usize = 0; fn assigned(_: u128) -> bool { true } fn reported(_: &<Self as Decode>::Error) -> Option<u128> { None } }
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub struct S5(u16);
impl Field for S5 {
    const MAX: usize = 2;
    fn any<S: Src>(s: &mut S) -> Self { Self(Field::any(s)) }
    fn emit(&self, o: &mut Vec<u8>) { let Self(f0) = self; f0.emit(o); }
}
impl Shape for S5 { const WIDTH: usize = 0; fn assigned(_: u128) -> bool { true } fn reported(_: &<Self as Decode>::Error) -> Option<u128> { None } }
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub struct S6 { zeta: u16, alpha: i64, r#type: u16, mid: (u8, u16) }
impl Field for S6 {
    const MAX: usize = 15;
    fn any<S: Src>(s: &mut S) -> Self { Self { zeta: Field::any(s), alpha: Field::any(s), r#type: Field::any(s), mid: Field::any(s) } }
    fn emit(&self, o: &mut Vec<u8>) { let Self { zeta: f0, alpha: f1, r#type: f2, mid: f3 } = self; f0.emit(o); f1.emit(o); f2.emit(o); f3.emit(o); }
}
impl Shape for S6 { const WIDTH: usize = 0; fn assigned(_: u128) -> bool { true } fn reported(_: &<Self as Decode>::Error) -> Option<u128> { None } }
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub struct S7 { zeta: f32 }
impl Field for S7 {
    const MAX: usize = 4;
    fn any<S: Src>(s: &mut S) -> Self { Self { zeta: Field::any(s) } }
    fn emit(&self, o: &mut Vec<u8>) { let Self { zeta: f0 } = self; f0.emit(o); }
}
impl Shape for S7 { const WIDTH: usize = 0; fn assigned(_: u128) -> bool { true } fn reported(_: &<Self as Decode>::Error) -> Option<u128> { None } }
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub struct S8(f32, i8);
impl Field for S8 {
    const MAX: usize = 5;
    fn any<S: Src>(s: &mut S) -> Self { Self(Field::any(s), Field::any(s)) }
    fn emit(&self, o: &mut Vec<u8>) { let Self(f0, f1) = self; f0.emit(o); f1.emit(o); }
}
impl Shape for S8 { const WIDTH: usize = 0; fn assigned(_: u128) -> bool { true } fn reported(_: &<Self as Decode>::Error) -> Option<u128> { None } }
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub struct S9 { zeta: i64 }
impl Field for S9 {
    const MAX: usize = 8;
    fn any<S: Src>(s: &mut S) -> Self { Self { zeta: Field::any(s) } }
    fn emit(&self, o: &mut Vec<u8>) { let Self { zeta: f0 } = self; f0.emit(o); }
}
impl Shape for S9 { const WIDTH: usize = 0; fn assigned(_: u128) -> bool { true } fn reported(_: &<Self as Decode>::Error) -> Option<u128> { None } }
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub struct S10(u32, i128, (), u32, (u8, u16));
impl Field for S10 {
    const MAX: usize = 27;
    fn any<S: Src>(s: &mut S) -> Self { Self(Field::any(s), Field::any(s), Field::any(s), Field::any(s), Field::any(s)) }
    fn emit(&self, o: &mut Vec<u8>) { let Self(f0, f1, f2, f3, f4) = self; f0.emit(o); f1.emit(o); f2.emit(o); f3.emit(o); f4.emit(o); }
}
impl Shape for S10 { const WIDTH: usize = 0; fn assigned(_: u128) -> bool { true } fn reported(_: &<Self as Decode>::Error) -> Option<u128> { None } }
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub struct S11(i128, (u8, u16), i32, i16, f32);
impl Field for S11 {
    const MAX: usize = 29;
    fn any<S: Src>(s: &mut S) -> Self { Self(Field::any(s), Field::any(s), Field::any(s), Field::any(s), Field::any(s)) }
    fn emit(&self, o: &mut Vec<u8>) { let Self(f0, f1, f2, f3, f4) = self; f0.emit(o); f1.emit(o); f2.emit(o); f3.emit(o); f4.emit(o); }
}
impl Shape for S11 { const WIDTH: usize = 0; fn assigned(_: u128) -> bool { true } fn reported(_: &<Self as Decode>::Error) -> Option<u128> { None } }
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
#[repr(u8)]
pub enum E0 {
    V0(f32, [u8; 3], isize) = 30,
    V1 { zeta: usize, alpha: [u8; 3], r#type: i128 } = 0b1,
}
impl Field for E0 {
    const MAX: usize = 22;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(2) {
            0 => Self::V0(Field::any(s), Field::any(s), Field::any(s)),
            _ => Self::V1 { zeta: Field::any(s), alpha: Field::any(s), r#type: Field::any(s) },
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0(f0, f1, f2) => { le(30, 1, o); f0.emit(o); f1.emit(o); f2.emit(o); }
            Self::V1 { zeta: f0, alpha: f1, r#type: f2 } => { le(1, 1, o); f0.emit(o); f1.emit(o); f2.emit(o); }
        }
    }
}
impl Shape for E0 {
    const WIDTH: usize = 1;
    fn assigned(x: u128) -> bool { matches!(x, 30 | 1) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u8 as u8) < 0 as _) { Some(*value as u8 as u128) } else { None }, _ => None } }
}
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
#[repr(i8)]
pub enum E1 {
    V0() = 127,
}
impl Field for E1 {
    const MAX: usize = 1;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(1) {
            _ => Self::V0(),
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0() => { le(127, 1, o); }
        }
    }
}
impl Shape for E1 {
    const WIDTH: usize = 1;
    fn assigned(x: u128) -> bool { matches!(x, 127) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u8 as i8) < 0 as _) { Some(*value as u8 as u128) } else { None }, _ => None } }
}
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
#[repr(u16)]
pub enum E2 {
    V0 { zeta: usize, alpha: isize },
}
impl Field for E2 {
    const MAX: usize = 6;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(1) {
            _ => Self::V0 { zeta: Field::any(s), alpha: Field::any(s) },
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0 { zeta: f0, alpha: f1 } => { le(0, 2, o); f0.emit(o); f1.emit(o); }
        }
    }
}
impl Shape for E2 {
    const WIDTH: usize = 2;
    fn assigned(x: u128) -> bool { matches!(x, 0) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u16 as u16) < 0 as _) { Some(*value as u16 as u128) } else { None }, _ => None } }
}
#[repr(i16)]
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub enum E3 {
    V0 { zeta: f32, alpha: [u8; 3] } = 47,
    V1 = 22_741,
    V2(),
    V3() = 8_476,
}
impl Field for E3 {
    const MAX: usize = 9;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(4) {
            0 => Self::V0 { zeta: Field::any(s), alpha: Field::any(s) },
            1 => Self::V1,
            2 => Self::V2(),
            _ => Self::V3(),
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0 { zeta: f0, alpha: f1 } => { le(47, 2, o); f0.emit(o); f1.emit(o); }
            Self::V1 => { le(22741, 2, o); }
            Self::V2() => { le(22742, 2, o); }
            Self::V3() => { le(8476, 2, o); }
        }
    }
}
impl Shape for E3 {
    const WIDTH: usize = 2;
    fn assigned(x: u128) -> bool { matches!(x, 47 | 22741 | 22742 | 8476) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u16 as i16) < 0 as _) { Some(*value as u16 as u128) } else { None }, _ => None } }
}
#[repr(u32)]
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub enum E4 {
    V0,
    V1 { zeta: (), alpha: isize },
    V2(u32),
    V3(u8, u32) = 0x7,
}
impl Field for E4 {
    const MAX: usize = 9;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(4) {
            0 => Self::V0,
            1 => Self::V1 { zeta: Field::any(s), alpha: Field::any(s) },
            2 => Self::V2(Field::any(s)),
            _ => Self::V3(Field::any(s), Field::any(s)),
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0 => { le(0, 4, o); }
            Self::V1 { zeta: f0, alpha: f1 } => { le(1, 4, o); f0.emit(o); f1.emit(o); }
            Self::V2(f0) => { le(2, 4, o); f0.emit(o); }
            Self::V3(f0, f1) => { le(7, 4, o); f0.emit(o); f1.emit(o); }
        }
    }
}
impl Shape for E4 {
    const WIDTH: usize = 4;
    fn assigned(x: u128) -> bool { matches!(x, 0 | 1 | 2 | 7) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u32 as u32) < 0 as _) { Some(*value as u32 as u128) } else { None }, _ => None } }
}
#[repr(i32)]
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub enum E5 {
    V0(NonZero<u16>),
    V1 {  },
    V2 { zeta: bool, alpha: bool, r#type: bool },
}
impl Field for E5 {
    const MAX: usize = 7;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(3) {
            0 => Self::V0(Field::any(s)),
            1 => Self::V1 {  },
            _ => Self::V2 { zeta: Field::any(s), alpha: Field::any(s), r#type: Field::any(s) },
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0(f0) => { le(0, 4, o); f0.emit(o); }
            Self::V1 {  } => { le(1, 4, o); }
            Self::V2 { zeta: f0, alpha: f1, r#type: f2 } => { le(2, 4, o); f0.emit(o); f1.emit(o); f2.emit(o); }
        }
    }
}
impl Shape for E5 {
    const WIDTH: usize = 4;
    fn assigned(x: u128) -> bool { matches!(x, 0 | 1 | 2) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u32 as i32) < 0 as _) { Some(*value as u32 as u128) } else { None }, _ => None } }
}
#[repr(u64)]
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub enum E6 {
    V0 {  } = 0b100010,
    V1 = 5,
    V2 { zeta: u32, alpha: u128, r#type: isize },
    V3(),
}
impl Field for E6 {
    const MAX: usize = 30;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(4) {
            0 => Self::V0 {  },
            1 => Self::V1,
            2 => Self::V2 { zeta: Field::any(s), alpha: Field::any(s), r#type: Field::any(s) },
            _ => Self::V3(),
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0 {  } => { le(34, 8, o); }
            Self::V1 => { le(5, 8, o); }
            Self::V2 { zeta: f0, alpha: f1, r#type: f2 } => { le(6, 8, o); f0.emit(o); f1.emit(o); f2.emit(o); }
            Self::V3() => { le(7, 8, o); }
        }
    }
}
impl Shape for E6 {
    const WIDTH: usize = 8;
    fn assigned(x: u128) -> bool { matches!(x, 34 | 5 | 6 | 7) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u64 as u64) < 0 as _) { Some(*value as u64 as u128) } else { None }, _ => None } }
}
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
#[repr(i64)]
pub enum E7 {
    V0(Option<u16>, i128, u16),
    V1 = 9223372036854775807,
    V2 {  } = 0b100001110,
    V3(i32, isize),
}
impl Field for E7 {
    const MAX: usize = 29;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(4) {
            0 => Self::V0(Field::any(s), Field::any(s), Field::any(s)),
            1 => Self::V1,
            2 => Self::V2 {  },
            _ => Self::V3(Field::any(s), Field::any(s)),
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0(f0, f1, f2) => { le(0, 8, o); f0.emit(o); f1.emit(o); f2.emit(o); }
            Self::V1 => { le(9223372036854775807, 8, o); }
            Self::V2 {  } => { le(270, 8, o); }
            Self::V3(f0, f1) => { le(271, 8, o); f0.emit(o); f1.emit(o); }
        }
    }
}
impl Shape for E7 {
    const WIDTH: usize = 8;
    fn assigned(x: u128) -> bool { matches!(x, 0 | 9223372036854775807 | 270 | 271) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u64 as i64) < 0 as _) { Some(*value as u64 as u128) } else { None }, _ => None } }
}
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
#[repr(u128)]
pub enum E8 {
    V0 { zeta: i64 },
    V1 { zeta: u64 },
    V2(),
}
impl Field for E8 {
    const MAX: usize = 24;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(3) {
            0 => Self::V0 { zeta: Field::any(s) },
            1 => Self::V1 { zeta: Field::any(s) },
            _ => Self::V2(),
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0 { zeta: f0 } => { le(0, 16, o); f0.emit(o); }
            Self::V1 { zeta: f0 } => { le(1, 16, o); f0.emit(o); }
            Self::V2() => { le(2, 16, o); }
        }
    }
}
impl Shape for E8 {
    const WIDTH: usize = 16;
    fn assigned(x: u128) -> bool { matches!(x, 0 | 1 | 2) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u128 as u128) < 0 as _) { Some(*value as u128 as u128) } else { None }, _ => None } }
}
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
#[repr(i128)]
pub enum E9 {
    V0,
    V1(isize, isize, u16),
    V2(u16, i16) = 7,
}
impl Field for E9 {
    const MAX: usize = 22;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(3) {
            0 => Self::V0,
            1 => Self::V1(Field::any(s), Field::any(s), Field::any(s)),
            _ => Self::V2(Field::any(s), Field::any(s)),
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0 => { le(0, 16, o); }
            Self::V1(f0, f1, f2) => { le(1, 16, o); f0.emit(o); f1.emit(o); f2.emit(o); }
            Self::V2(f0, f1) => { le(7, 16, o); f0.emit(o); f1.emit(o); }
        }
    }
}
impl Shape for E9 {
    const WIDTH: usize = 16;
    fn assigned(x: u128) -> bool { matches!(x, 0 | 1 | 7) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u128 as i128) < 0 as _) { Some(*value as u128 as u128) } else { None }, _ => None } }
}
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
#[repr(usize)]
pub enum E10 {
    V0,
    V1 {  } = 11_370,
}
impl Field for E10 {
    const MAX: usize = 2;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(2) {
            0 => Self::V0,
            _ => Self::V1 {  },
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0 => { le(0, 2, o); }
            Self::V1 {  } => { le(11370, 2, o); }
        }
    }
}
impl Shape for E10 {
    const WIDTH: usize = 2;
    fn assigned(x: u128) -> bool { matches!(x, 0 | 11370) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u16 as u16) < 0 as _) { Some(*value as u16 as u128) } else { None }, _ => None } }
}
#[repr(isize)]
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub enum E11 {
    V0,
    V1 { zeta: u8 } = 0x7ffe,
}
impl Field for E11 {
    const MAX: usize = 3;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(2) {
            0 => Self::V0,
            _ => Self::V1 { zeta: Field::any(s) },
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0 => { le(0, 2, o); }
            Self::V1 { zeta: f0 } => { le(32766, 2, o); f0.emit(o); }
        }
    }
}
impl Shape for E11 {
    const WIDTH: usize = 2;
    fn assigned(x: u128) -> bool { matches!(x, 0 | 32766) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u16 as i16) < 0 as _) { Some(*value as u16 as u128) } else { None }, _ => None } }
}
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub enum E12 {
    V0(u64),
}
impl Field for E12 {
    const MAX: usize = 10;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(1) {
            _ => Self::V0(Field::any(s)),
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0(f0) => { le(0, 2, o); f0.emit(o); }
        }
    }
}
impl Shape for E12 {
    const WIDTH: usize = 2;
    fn assigned(x: u128) -> bool { matches!(x, 0) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u16 as i16) < 0 as _) { Some(*value as u16 as u128) } else { None }, _ => None } }
}
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
#[repr(u8)]
pub enum E13 {
    V0 = 4,
    V1 { zeta: NonZero<u16> } = 0xea,
}
impl Field for E13 {
    const MAX: usize = 3;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(2) {
            0 => Self::V0,
            _ => Self::V1 { zeta: Field::any(s) },
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0 => { le(4, 1, o); }
            Self::V1 { zeta: f0 } => { le(234, 1, o); f0.emit(o); }
        }
    }
}
impl Shape for E13 {
    const WIDTH: usize = 1;
    fn assigned(x: u128) -> bool { matches!(x, 4 | 234) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u8 as u8) < 0 as _) { Some(*value as u8 as u128) } else { None }, _ => None } }
}
#[repr(i8)]
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub enum E14 {
    V0 {  },
    V1,
    V2 { zeta: i16, alpha: (u8, u16), r#type: i8 } = 0b1111001,
    V3 { zeta: u128 } = 0b111,
}
impl Field for E14 {
    const MAX: usize = 17;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(4) {
            0 => Self::V0 {  },
            1 => Self::V1,
            2 => Self::V2 { zeta: Field::any(s), alpha: Field::any(s), r#type: Field::any(s) },
            _ => Self::V3 { zeta: Field::any(s) },
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0 {  } => { le(0, 1, o); }
            Self::V1 => { le(1, 1, o); }
            Self::V2 { zeta: f0, alpha: f1, r#type: f2 } => { le(121, 1, o); f0.emit(o); f1.emit(o); f2.emit(o); }
            Self::V3 { zeta: f0 } => { le(7, 1, o); f0.emit(o); }
        }
    }
}
impl Shape for E14 {
    const WIDTH: usize = 1;
    fn assigned(x: u128) -> bool { matches!(x, 0 | 1 | 121 | 7) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u8 as i8) < 0 as _) { Some(*value as u8 as u128) } else { None }, _ => None } }
}
#[repr(u16)]
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub enum E15 {
    V0,
    V1([u8; 3]),
    V2 { zeta: () } = 65534,
    V3 {  } = 0x8197,
}
impl Field for E15 {
    const MAX: usize = 5;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(4) {
            0 => Self::V0,
            1 => Self::V1(Field::any(s)),
            2 => Self::V2 { zeta: Field::any(s) },
            _ => Self::V3 {  },
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0 => { le(0, 2, o); }
            Self::V1(f0) => { le(1, 2, o); f0.emit(o); }
            Self::V2 { zeta: f0 } => { le(65534, 2, o); f0.emit(o); }
            Self::V3 {  } => { le(33175, 2, o); }
        }
    }
}
impl Shape for E15 {
    const WIDTH: usize = 2;
    fn assigned(x: u128) -> bool { matches!(x, 0 | 1 | 65534 | 33175) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u16 as u16) < 0 as _) { Some(*value as u16 as u128) } else { None }, _ => None } }
}
#[repr(i16)]
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub enum E16 {
    V0(u64, isize, usize) = 6,
    V1() = 5,
    V2 = 264,
    V3,
}
impl Field for E16 {
    const MAX: usize = 14;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(4) {
            0 => Self::V0(Field::any(s), Field::any(s), Field::any(s)),
            1 => Self::V1(),
            2 => Self::V2,
            _ => Self::V3,
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0(f0, f1, f2) => { le(6, 2, o); f0.emit(o); f1.emit(o); f2.emit(o); }
            Self::V1() => { le(5, 2, o); }
            Self::V2 => { le(264, 2, o); }
            Self::V3 => { le(265, 2, o); }
        }
    }
}
impl Shape for E16 {
    const WIDTH: usize = 2;
    fn assigned(x: u128) -> bool { matches!(x, 6 | 5 | 264 | 265) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u16 as i16) < 0 as _) { Some(*value as u16 as u128) } else { None }, _ => None } }
}
#[repr(u32)]
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub enum E17 {
    V0 { zeta: u16, alpha: u128 } = 2,
    V1 = 0b1011101,
    V2,
}
impl Field for E17 {
    const MAX: usize = 22;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(3) {
            0 => Self::V0 { zeta: Field::any(s), alpha: Field::any(s) },
            1 => Self::V1,
            _ => Self::V2,
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0 { zeta: f0, alpha: f1 } => { le(2, 4, o); f0.emit(o); f1.emit(o); }
            Self::V1 => { le(93, 4, o); }
            Self::V2 => { le(94, 4, o); }
        }
    }
}
impl Shape for E17 {
    const WIDTH: usize = 4;
    fn assigned(x: u128) -> bool { matches!(x, 2 | 93 | 94) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u32 as u32) < 0 as _) { Some(*value as u32 as u128) } else { None }, _ => None } }
}
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
#[repr(i32)]
pub enum E18 {
    V0(u128, u32, i8),
}
impl Field for E18 {
    const MAX: usize = 25;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(1) {
            _ => Self::V0(Field::any(s), Field::any(s), Field::any(s)),
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0(f0, f1, f2) => { le(0, 4, o); f0.emit(o); f1.emit(o); f2.emit(o); }
        }
    }
}
impl Shape for E18 {
    const WIDTH: usize = 4;
    fn assigned(x: u128) -> bool { matches!(x, 0) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u32 as i32) < 0 as _) { Some(*value as u32 as u128) } else { None }, _ => None } }
}
#[repr(u64)]
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub enum E19 {
    V0,
    V1(NonZero<u16>, i32, u128) = 0x4,
}
impl Field for E19 {
    const MAX: usize = 30;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(2) {
            0 => Self::V0,
            _ => Self::V1(Field::any(s), Field::any(s), Field::any(s)),
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0 => { le(0, 8, o); }
            Self::V1(f0, f1, f2) => { le(4, 8, o); f0.emit(o); f1.emit(o); f2.emit(o); }
        }
    }
}
impl Shape for E19 {
    const WIDTH: usize = 8;
    fn assigned(x: u128) -> bool { matches!(x, 0 | 4) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u64 as u64) < 0 as _) { Some(*value as u64 as u128) } else { None }, _ => None } }
}
#[repr(i64)]
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub enum E20 {
    V0,
}
impl Field for E20 {
    const MAX: usize = 8;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(1) {
            _ => Self::V0,
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0 => { le(0, 8, o); }
        }
    }
}
impl Shape for E20 {
    const WIDTH: usize = 8;
    fn assigned(x: u128) -> bool { matches!(x, 0) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u64 as i64) < 0 as _) { Some(*value as u64 as u128) } else { None }, _ => None } }
}
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
#[repr(u128)]
pub enum E21 {
    V0,
    V1,
}
impl Field for E21 {
    const MAX: usize = 16;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(2) {
            0 => Self::V0,
            _ => Self::V1,
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0 => { le(0, 16, o); }
            Self::V1 => { le(1, 16, o); }
        }
    }
}
impl Shape for E21 {
    const WIDTH: usize = 16;
    fn assigned(x: u128) -> bool { matches!(x, 0 | 1) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u128 as u128) < 0 as _) { Some(*value as u128 as u128) } else { None }, _ => None } }
}
#[repr(i128)]
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub enum E22 {
    V0 { zeta: NonZero<u16>, alpha: i128, r#type: u64 },
    V1(u32),
    V2(i8) = 0b10110001,
    V3 = 170_141_183_460_469_231_731_687_303_715_884_105_726,
}
impl Field for E22 {
    const MAX: usize = 42;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(4) {
            0 => Self::V0 { zeta: Field::any(s), alpha: Field::any(s), r#type: Field::any(s) },
            1 => Self::V1(Field::any(s)),
            2 => Self::V2(Field::any(s)),
            _ => Self::V3,
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0 { zeta: f0, alpha: f1, r#type: f2 } => { le(0, 16, o); f0.emit(o); f1.emit(o); f2.emit(o); }
            Self::V1(f0) => { le(1, 16, o); f0.emit(o); }
            Self::V2(f0) => { le(177, 16, o); f0.emit(o); }
            Self::V3 => { le(170141183460469231731687303715884105726, 16, o); }
        }
    }
}
impl Shape for E22 {
    const WIDTH: usize = 16;
    fn assigned(x: u128) -> bool { matches!(x, 0 | 1 | 177 | 170141183460469231731687303715884105726) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u128 as i128) < 0 as _) { Some(*value as u128 as u128) } else { None }, _ => None } }
}
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
#[repr(usize)]
pub enum E23 {
    V0 { zeta: i64, alpha: i8 },
    V1(isize),
    V2 { zeta: i64 } = 50_020,
}
impl Field for E23 {
    const MAX: usize = 11;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(3) {
            0 => Self::V0 { zeta: Field::any(s), alpha: Field::any(s) },
            1 => Self::V1(Field::any(s)),
            _ => Self::V2 { zeta: Field::any(s) },
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0 { zeta: f0, alpha: f1 } => { le(0, 2, o); f0.emit(o); f1.emit(o); }
            Self::V1(f0) => { le(1, 2, o); f0.emit(o); }
            Self::V2 { zeta: f0 } => { le(50020, 2, o); f0.emit(o); }
        }
    }
}
impl Shape for E23 {
    const WIDTH: usize = 2;
    fn assigned(x: u128) -> bool { matches!(x, 0 | 1 | 50020) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u16 as u16) < 0 as _) { Some(*value as u16 as u128) } else { None }, _ => None } }
}
#[repr(isize)]
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub enum E24 {
    V0() = 6,
}
impl Field for E24 {
    const MAX: usize = 2;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(1) {
            _ => Self::V0(),
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0() => { le(6, 2, o); }
        }
    }
}
impl Shape for E24 {
    const WIDTH: usize = 2;
    fn assigned(x: u128) -> bool { matches!(x, 6) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u16 as i16) < 0 as _) { Some(*value as u16 as u128) } else { None }, _ => None } }
}
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub enum E25 {
    V0,
    V1,
}
impl Field for E25 {
    const MAX: usize = 2;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(2) {
            0 => Self::V0,
            _ => Self::V1,
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0 => { le(0, 2, o); }
            Self::V1 => { le(1, 2, o); }
        }
    }
}
impl Shape for E25 {
    const WIDTH: usize = 2;
    fn assigned(x: u128) -> bool { matches!(x, 0 | 1) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u16 as i16) < 0 as _) { Some(*value as u16 as u128) } else { None }, _ => None } }
}
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub struct W0 { zeta: u8, alpha: i16, r#type: bool, mid: u32, b: i8, a: u16, stream: u8, value0: i32, this: u16, discriminant: i8, value: usize, total_size: bool, current_size: u8, input: i64, output: u16 }
impl Field for W0 {
    const MAX: usize = 33;
    fn any<S: Src>(s: &mut S) -> Self { Self { zeta: Field::any(s), alpha: Field::any(s), r#type: Field::any(s), mid: Field::any(s), b: Field::any(s), a: Field::any(s), stream: Field::any(s), value0: Field::any(s), this: Field::any(s), discriminant: Field::any(s), value: Field::any(s), total_size: Field::any(s), current_size: Field::any(s), input: Field::any(s), output: Field::any(s) } }
    fn emit(&self, o: &mut Vec<u8>) { let Self { zeta: f0, alpha: f1, r#type: f2, mid: f3, b: f4, a: f5, stream: f6, value0: f7, this: f8, discriminant: f9, value: f10, total_size: f11, current_size: f12, input: f13, output: f14 } = self; f0.emit(o); f1.emit(o); f2.emit(o); f3.emit(o); f4.emit(o); f5.emit(o); f6.emit(o); f7.emit(o); f8.emit(o); f9.emit(o); f10.emit(o); f11.emit(o); f12.emit(o); f13.emit(o); f14.emit(o); }
}
impl Shape for W0 { const WIDTH: usize = 0; fn assigned(_: u128) -> bool { true } fn reported(_: &<Self as Decode>::Error) -> Option<u128> { None } }
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub struct W1(u16, u8, bool, u32, i8, u16, u8, i32, u16, i8, usize, bool, u8, i64, u16, i8, u8);
impl Field for W1 {
    const MAX: usize = 35;
    fn any<S: Src>(s: &mut S) -> Self { Self(Field::any(s), Field::any(s), Field::any(s), Field::any(s), Field::any(s), Field::any(s), Field::any(s), Field::any(s), Field::any(s), Field::any(s), Field::any(s), Field::any(s), Field::any(s), Field::any(s), Field::any(s), Field::any(s), Field::any(s)) }
    fn emit(&self, o: &mut Vec<u8>) { let Self(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16) = self; f0.emit(o); f1.emit(o); f2.emit(o); f3.emit(o); f4.emit(o); f5.emit(o); f6.emit(o); f7.emit(o); f8.emit(o); f9.emit(o); f10.emit(o); f11.emit(o); f12.emit(o); f13.emit(o); f14.emit(o); f15.emit(o); f16.emit(o); }
}
impl Shape for W1 { const WIDTH: usize = 0; fn assigned(_: u128) -> bool { true } fn reported(_: &<Self as Decode>::Error) -> Option<u128> { None } }
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
#[repr(u8)]
pub enum W2 {
    V0,
    V1,
    V2,
    V3,
    V4,
    V5,
    V6,
    V7,
    V8,
    V9 { zeta: u8, alpha: i16, r#type: bool, mid: u32, b: i8, a: u16, stream: u8, value0: i32, this: u16, discriminant: i8, value: usize, total_size: bool, current_size: u8 },
    V10(u16, u8, bool, u32, i8, u16, u8, i32, u16, i8, usize, bool, u8),
    V11(u8),
    V12(u8),
    V13(u8),
}
impl Field for W2 {
    const MAX: usize = 24;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(14) {
            0 => Self::V0,
            1 => Self::V1,
            2 => Self::V2,
            3 => Self::V3,
            4 => Self::V4,
            5 => Self::V5,
            6 => Self::V6,
            7 => Self::V7,
            8 => Self::V8,
            9 => Self::V9 { zeta: Field::any(s), alpha: Field::any(s), r#type: Field::any(s), mid: Field::any(s), b: Field::any(s), a: Field::any(s), stream: Field::any(s), value0: Field::any(s), this: Field::any(s), discriminant: Field::any(s), value: Field::any(s), total_size: Field::any(s), current_size: Field::any(s) },
            10 => Self::V10(Field::any(s), Field::any(s), Field::any(s), Field::any(s), Field::any(s), Field::any(s), Field::any(s), Field::any(s), Field::any(s), Field::any(s), Field::any(s), Field::any(s), Field::any(s)),
            11 => Self::V11(Field::any(s)),
            12 => Self::V12(Field::any(s)),
            _ => Self::V13(Field::any(s)),
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0 => { le(0, 1, o); }
            Self::V1 => { le(1, 1, o); }
            Self::V2 => { le(2, 1, o); }
            Self::V3 => { le(3, 1, o); }
            Self::V4 => { le(4, 1, o); }
            Self::V5 => { le(5, 1, o); }
            Self::V6 => { le(6, 1, o); }
            Self::V7 => { le(7, 1, o); }
            Self::V8 => { le(8, 1, o); }
            Self::V9 { zeta: f0, alpha: f1, r#type: f2, mid: f3, b: f4, a: f5, stream: f6, value0: f7, this: f8, discriminant: f9, value: f10, total_size: f11, current_size: f12 } => { le(9, 1, o); f0.emit(o); f1.emit(o); f2.emit(o); f3.emit(o); f4.emit(o); f5.emit(o); f6.emit(o); f7.emit(o); f8.emit(o); f9.emit(o); f10.emit(o); f11.emit(o); f12.emit(o); }
            Self::V10(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12) => { le(10, 1, o); f0.emit(o); f1.emit(o); f2.emit(o); f3.emit(o); f4.emit(o); f5.emit(o); f6.emit(o); f7.emit(o); f8.emit(o); f9.emit(o); f10.emit(o); f11.emit(o); f12.emit(o); }
            Self::V11(f0) => { le(11, 1, o); f0.emit(o); }
            Self::V12(f0) => { le(12, 1, o); f0.emit(o); }
            Self::V13(f0) => { le(13, 1, o); f0.emit(o); }
        }
    }
}
impl Shape for W2 {
    const WIDTH: usize = 1;
    fn assigned(x: u128) -> bool { matches!(x, 0 | 1 | 2 | 3 | 4 | 5 | 6 | 7 | 8 | 9 | 10 | 11 | 12 | 13) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u8 as u8) < 0 as _) { Some(*value as u8 as u128) } else { None }, _ => None } }
}
#[repr(u16)]
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub enum W3 {
    V0,
    V1,
    V2,
    V3,
    V4,
    V5,
    V6,
    V7,
    V8,
    V9,
    V10,
    V11,
    V12,
    V13,
    V14,
    V15,
    V16,
    V17,
    V18,
    V19,
    V20,
    V21,
    V22,
    V23,
    V24,
    V25,
    V26,
    V27,
    V28,
    V29,
    V30,
    V31,
    V32,
    V33,
    V34,
    V35,
    V36,
    V37,
    V38,
    V39,
    V40,
    V41,
    V42,
    V43,
    V44,
    V45,
    V46,
    V47,
    V48,
    V49,
    V50,
    V51,
    V52,
    V53,
    V54,
    V55,
    V56,
    V57,
    V58,
    V59,
    V60,
    V61,
    V62,
    V63,
    V64,
    V65,
    V66,
    V67,
    V68,
    V69,
    V70,
    V71,
    V72,
    V73,
    V74,
    V75,
    V76,
    V77,
    V78,
    V79,
    V80,
    V81,
    V82,
    V83,
    V84,
    V85,
    V86,
    V87,
    V88,
    V89,
    V90,
    V91,
    V92,
    V93,
    V94,
    V95,
    V96,
    V97,
    V98,
    V99,
    V100,
    V101,
    V102,
    V103,
    V104,
    V105,
    V106,
    V107,
    V108,
    V109,
    V110,
    V111,
    V112,
    V113,
    V114,
    V115,
    V116,
    V117,
    V118,
    V119,
    V120,
    V121,
    V122,
    V123,
    V124,
    V125,
    V126,
    V127,
    V128,
    V129,
    V130,
    V131,
    V132,
    V133,
    V134,
    V135,
    V136,
    V137,
    V138,
    V139,
    V140,
    V141,
    V142,
    V143,
    V144,
    V145,
    V146,
    V147,
    V148,
    V149,
    V150,
    V151,
    V152,
    V153,
    V154,
    V155,
    V156,
    V157,
    V158,
    V159,
    V160,
    V161,
    V162,
    V163,
    V164,
    V165,
    V166,
    V167,
    V168,
    V169,
    V170,
    V171,
    V172,
    V173,
    V174,
    V175,
    V176,
    V177,
    V178,
    V179,
    V180,
    V181,
    V182,
    V183,
    V184,
    V185,
    V186,
    V187,
    V188,
    V189,
    V190,
    V191,
    V192,
    V193,
    V194,
    V195,
    V196,
    V197,
    V198,
    V199,
    V200,
    V201,
    V202,
    V203,
    V204,
    V205,
    V206,
    V207,
    V208,
    V209,
    V210,
    V211,
    V212,
    V213,
    V214,
    V215,
    V216,
    V217,
    V218,
    V219,
    V220,
    V221,
    V222,
    V223,
    V224,
    V225,
    V226,
    V227,
    V228,
    V229,
    V230,
    V231,
    V232,
    V233,
    V234,
    V235,
    V236,
    V237,
    V238,
    V239,
    V240,
    V241,
    V242,
    V243,
    V244,
    V245,
    V246,
    V247,
    V248,
    V249,
    V250,
    V251,
    V252,
    V253,
    V254,
    V255,
    V256,
    V257,
    V258,
    V259,
    V260,
    V261,
    V262,
    V263,
    V264,
    V265,
    V266,
    V267,
    V268,
    V269,
    V270,
    V271,
    V272,
    V273,
    V274,
    V275,
    V276,
    V277,
    V278,
    V279,
    V280,
    V281,
    V282,
    V283,
    V284,
    V285,
    V286,
    V287,
    V288,
    V289,
    V290,
    V291,
    V292,
    V293,
    V294,
    V295,
    V296,
    V297,
    V298,
    V299,
}
impl Field for W3 {
    const MAX: usize = 2;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(300) {
            0 => Self::V0,
            1 => Self::V1,
            2 => Self::V2,
            3 => Self::V3,
            4 => Self::V4,
            5 => Self::V5,
            6 => Self::V6,
            7 => Self::V7,
            8 => Self::V8,
            9 => Self::V9,
            10 => Self::V10,
            11 => Self::V11,
            12 => Self::V12,
            13 => Self::V13,
            14 => Self::V14,
            15 => Self::V15,
            16 => Self::V16,
            17 => Self::V17,
            18 => Self::V18,
            19 => Self::V19,
            20 => Self::V20,
            21 => Self::V21,
            22 => Self::V22,
            23 => Self::V23,
            24 => Self::V24,
            25 => Self::V25,
            26 => Self::V26,
            27 => Self::V27,
            28 => Self::V28,
            29 => Self::V29,
            30 => Self::V30,
            31 => Self::V31,
            32 => Self::V32,
            33 => Self::V33,
            34 => Self::V34,
            35 => Self::V35,
            36 => Self::V36,
            37 => Self::V37,
            38 => Self::V38,
            39 => Self::V39,
            40 => Self::V40,
            41 => Self::V41,
            42 => Self::V42,
            43 => Self::V43,
            44 => Self::V44,
            45 => Self::V45,
            46 => Self::V46,
            47 => Self::V47,
            48 => Self::V48,
            49 => Self::V49,
            50 => Self::V50,
            51 => Self::V51,
            52 => Self::V52,
            53 => Self::V53,
            54 => Self::V54,
            55 => Self::V55,
            56 => Self::V56,
            57 => Self::V57,
            58 => Self::V58,
            59 => Self::V59,
            60 => Self::V60,
            61 => Self::V61,
            62 => Self::V62,
            63 => Self::V63,
            64 => Self::V64,
            65 => Self::V65,
            66 => Self::V66,
            67 => Self::V67,
            68 => Self::V68,
            69 => Self::V69,
            70 => Self::V70,
            71 => Self::V71,
            72 => Self::V72,
            73 => Self::V73,
            74 => Self::V74,
            75 => Self::V75,
            76 => Self::V76,
            77 => Self::V77,
            78 => Self::V78,
            79 => Self::V79,
            80 => Self::V80,
            81 => Self::V81,
            82 => Self::V82,
            83 => Self::V83,
            84 => Self::V84,
            85 => Self::V85,
            86 => Self::V86,
            87 => Self::V87,
            88 => Self::V88,
            89 => Self::V89,
            90 => Self::V90,
            91 => Self::V91,
            92 => Self::V92,
            93 => Self::V93,
            94 => Self::V94,
            95 => Self::V95,
            96 => Self::V96,
            97 => Self::V97,
            98 => Self::V98,
            99 => Self::V99,
            100 => Self::V100,
            101 => Self::V101,
            102 => Self::V102,
            103 => Self::V103,
            104 => Self::V104,
            105 => Self::V105,
            106 => Self::V106,
            107 => Self::V107,
            108 => Self::V108,
            109 => Self::V109,
            110 => Self::V110,
            111 => Self::V111,
            112 => Self::V112,
            113 => Self::V113,
            114 => Self::V114,
            115 => Self::V115,
            116 => Self::V116,
            117 => Self::V117,
            118 => Self::V118,
            119 => Self::V119,
            120 => Self::V120,
            121 => Self::V121,
            122 => Self::V122,
            123 => Self::V123,
            124 => Self::V124,
            125 => Self::V125,
            126 => Self::V126,
            127 => Self::V127,
            128 => Self::V128,
            129 => Self::V129,
            130 => Self::V130,
            131 => Self::V131,
            132 => Self::V132,
            133 => Self::V133,
            134 => Self::V134,
            135 => Self::V135,
            136 => Self::V136,
            137 => Self::V137,
            138 => Self::V138,
            139 => Self::V139,
            140 => Self::V140,
            141 => Self::V141,
            142 => Self::V142,
            143 => Self::V143,
            144 => Self::V144,
            145 => Self::V145,
            146 => Self::V146,
            147 => Self::V147,
            148 => Self::V148,
            149 => Self::V149,
            150 => Self::V150,
            151 => Self::V151,
            152 => Self::V152,
            153 => Self::V153,
            154 => Self::V154,
            155 => Self::V155,
            156 => Self::V156,
            157 => Self::V157,
            158 => Self::V158,
            159 => Self::V159,
            160 => Self::V160,
            161 => Self::V161,
            162 => Self::V162,
            163 => Self::V163,
            164 => Self::V164,
            165 => Self::V165,
            166 => Self::V166,
            167 => Self::V167,
            168 => Self::V168,
            169 => Self::V169,
            170 => Self::V170,
            171 => Self::V171,
            172 => Self::V172,
            173 => Self::V173,
            174 => Self::V174,
            175 => Self::V175,
            176 => Self::V176,
            177 => Self::V177,
            178 => Self::V178,
            179 => Self::V179,
            180 => Self::V180,
            181 => Self::V181,
            182 => Self::V182,
            183 => Self::V183,
            184 => Self::V184,
            185 => Self::V185,
            186 => Self::V186,
            187 => Self::V187,
            188 => Self::V188,
            189 => Self::V189,
            190 => Self::V190,
            191 => Self::V191,
            192 => Self::V192,
            193 => Self::V193,
            194 => Self::V194,
            195 => Self::V195,
            196 => Self::V196,
            197 => Self::V197,
            198 => Self::V198,
            199 => Self::V199,
            200 => Self::V200,
            201 => Self::V201,
            202 => Self::V202,
            203 => Self::V203,
            204 => Self::V204,
            205 => Self::V205,
            206 => Self::V206,
            207 => Self::V207,
            208 => Self::V208,
            209 => Self::V209,
            210 => Self::V210,
            211 => Self::V211,
            212 => Self::V212,
            213 => Self::V213,
            214 => Self::V214,
            215 => Self::V215,
            216 => Self::V216,
            217 => Self::V217,
            218 => Self::V218,
            219 => Self::V219,
            220 => Self::V220,
            221 => Self::V221,
            222 => Self::V222,
            223 => Self::V223,
            224 => Self::V224,
            225 => Self::V225,
            226 => Self::V226,
            227 => Self::V227,
            228 => Self::V228,
            229 => Self::V229,
            230 => Self::V230,
            231 => Self::V231,
            232 => Self::V232,
            233 => Self::V233,
            234 => Self::V234,
            235 => Self::V235,
            236 => Self::V236,
            237 => Self::V237,
            238 => Self::V238,
            239 => Self::V239,
            240 => Self::V240,
            241 => Self::V241,
            242 => Self::V242,
            243 => Self::V243,
            244 => Self::V244,
            245 => Self::V245,
            246 => Self::V246,
            247 => Self::V247,
            248 => Self::V248,
            249 => Self::V249,
            250 => Self::V250,
            251 => Self::V251,
            252 => Self::V252,
            253 => Self::V253,
            254 => Self::V254,
            255 => Self::V255,
            256 => Self::V256,
            257 => Self::V257,
            258 => Self::V258,
            259 => Self::V259,
            260 => Self::V260,
            261 => Self::V261,
            262 => Self::V262,
            263 => Self::V263,
            264 => Self::V264,
            265 => Self::V265,
            266 => Self::V266,
            267 => Self::V267,
            268 => Self::V268,
            269 => Self::V269,
            270 => Self::V270,
            271 => Self::V271,
            272 => Self::V272,
            273 => Self::V273,
            274 => Self::V274,
            275 => Self::V275,
            276 => Self::V276,
            277 => Self::V277,
            278 => Self::V278,
            279 => Self::V279,
            280 => Self::V280,
            281 => Self::V281,
            282 => Self::V282,
            283 => Self::V283,
            284 => Self::V284,
            285 => Self::V285,
            286 => Self::V286,
            287 => Self::V287,
            288 => Self::V288,
            289 => Self::V289,
            290 => Self::V290,
            291 => Self::V291,
            292 => Self::V292,
            293 => Self::V293,
            294 => Self::V294,
            295 => Self::V295,
            296 => Self::V296,
            297 => Self::V297,
            298 => Self::V298,
            _ => Self::V299,
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0 => { le(0, 2, o); }
            Self::V1 => { le(1, 2, o); }
            Self::V2 => { le(2, 2, o); }
            Self::V3 => { le(3, 2, o); }
            Self::V4 => { le(4, 2, o); }
            Self::V5 => { le(5, 2, o); }
            Self::V6 => { le(6, 2, o); }
            Self::V7 => { le(7, 2, o); }
            Self::V8 => { le(8, 2, o); }
            Self::V9 => { le(9, 2, o); }
            Self::V10 => { le(10, 2, o); }
            Self::V11 => { le(11, 2, o); }
            Self::V12 => { le(12, 2, o); }
            Self::V13 => { le(13, 2, o); }
            Self::V14 => { le(14, 2, o); }
            Self::V15 => { le(15, 2, o); }
            Self::V16 => { le(16, 2, o); }
            Self::V17 => { le(17, 2, o); }
            Self::V18 => { le(18, 2, o); }
            Self::V19 => { le(19, 2, o); }
            Self::V20 => { le(20, 2, o); }
            Self::V21 => { le(21, 2, o); }
            Self::V22 => { le(22, 2, o); }
            Self::V23 => { le(23, 2, o); }
            Self::V24 => { le(24, 2, o); }
            Self::V25 => { le(25, 2, o); }
            Self::V26 => { le(26, 2, o); }
            Self::V27 => { le(27, 2, o); }
            Self::V28 => { le(28, 2, o); }
            Self::V29 => { le(29, 2, o); }
            Self::V30 => { le(30, 2, o); }
            Self::V31 => { le(31, 2, o); }
            Self::V32 => { le(32, 2, o); }
            Self::V33 => { le(33, 2, o); }
            Self::V34 => { le(34, 2, o); }
            Self::V35 => { le(35, 2, o); }
            Self::V36 => { le(36, 2, o); }
            Self::V37 => { le(37, 2, o); }
            Self::V38 => { le(38, 2, o); }
            Self::V39 => { le(39, 2, o); }
            Self::V40 => { le(40, 2, o); }
            Self::V41 => { le(41, 2, o); }
            Self::V42 => { le(42, 2, o); }
            Self::V43 => { le(43, 2, o); }
            Self::V44 => { le(44, 2, o); }
            Self::V45 => { le(45, 2, o); }
            Self::V46 => { le(46, 2, o); }
            Self::V47 => { le(47, 2, o); }
            Self::V48 => { le(48, 2, o); }
            Self::V49 => { le(49, 2, o); }
            Self::V50 => { le(50, 2, o); }
            Self::V51 => { le(51, 2, o); }
            Self::V52 => { le(52, 2, o); }
            Self::V53 => { le(53, 2, o); }
            Self::V54 => { le(54, 2, o); }
            Self::V55 => { le(55, 2, o); }
            Self::V56 => { le(56, 2, o); }
            Self::V57 => { le(57, 2, o); }
            Self::V58 => { le(58, 2, o); }
            Self::V59 => { le(59, 2, o); }
            Self::V60 => { le(60, 2, o); }
            Self::V61 => { le(61, 2, o); }
            Self::V62 => { le(62, 2, o); }
            Self::V63 => { le(63, 2, o); }
            Self::V64 => { le(64, 2, o); }
            Self::V65 => { le(65, 2, o); }
            Self::V66 => { le(66, 2, o); }
            Self::V67 => { le(67, 2, o); }
            Self::V68 => { le(68, 2, o); }
            Self::V69 => { le(69, 2, o); }
            Self::V70 => { le(70, 2, o); }
            Self::V71 => { le(71, 2, o); }
            Self::V72 => { le(72, 2, o); }
            Self::V73 => { le(73, 2, o); }
            Self::V74 => { le(74, 2, o); }
            Self::V75 => { le(75, 2, o); }
            Self::V76 => { le(76, 2, o); }
            Self::V77 => { le(77, 2, o); }
            Self::V78 => { le(78, 2, o); }
            Self::V79 => { le(79, 2, o); }
            Self::V80 => { le(80, 2, o); }
            Self::V81 => { le(81, 2, o); }
            Self::V82 => { le(82, 2, o); }
            Self::V83 => { le(83, 2, o); }
            Self::V84 => { le(84, 2, o); }
            Self::V85 => { le(85, 2, o); }
            Self::V86 => { le(86, 2, o); }
            Self::V87 => { le(87, 2, o); }
            Self::V88 => { le(88, 2, o); }
            Self::V89 => { le(89, 2, o); }
            Self::V90 => { le(90, 2, o); }
            Self::V91 => { le(91, 2, o); }
            Self::V92 => { le(92, 2, o); }
            Self::V93 => { le(93, 2, o); }
            Self::V94 => { le(94, 2, o); }
            Self::V95 => { le(95, 2, o); }
            Self::V96 => { le(96, 2, o); }
            Self::V97 => { le(97, 2, o); }
            Self::V98 => { le(98, 2, o); }
            Self::V99 => { le(99, 2, o); }
            Self::V100 => { le(100, 2, o); }
            Self::V101 => { le(101, 2, o); }
            Self::V102 => { le(102, 2, o); }
            Self::V103 => { le(103, 2, o); }
            Self::V104 => { le(104, 2, o); }
            Self::V105 => { le(105, 2, o); }
            Self::V106 => { le(106, 2, o); }
            Self::V107 => { le(107, 2, o); }
            Self::V108 => { le(108, 2, o); }
            Self::V109 => { le(109, 2, o); }
            Self::V110 => { le(110, 2, o); }
            Self::V111 => { le(111, 2, o); }
            Self::V112 => { le(112, 2, o); }
            Self::V113 => { le(113, 2, o); }
            Self::V114 => { le(114, 2, o); }
            Self::V115 => { le(115, 2, o); }
            Self::V116 => { le(116, 2, o); }
            Self::V117 => { le(117, 2, o); }
            Self::V118 => { le(118, 2, o); }
            Self::V119 => { le(119, 2, o); }
            Self::V120 => { le(120, 2, o); }
            Self::V121 => { le(121, 2, o); }
            Self::V122 => { le(122, 2, o); }
            Self::V123 => { le(123, 2, o); }
            Self::V124 => { le(124, 2, o); }
            Self::V125 => { le(125, 2, o); }
            Self::V126 => { le(126, 2, o); }
            Self::V127 => { le(127, 2, o); }
            Self::V128 => { le(128, 2, o); }
            Self::V129 => { le(129, 2, o); }
            Self::V130 => { le(130, 2, o); }
            Self::V131 => { le(131, 2, o); }
            Self::V132 => { le(132, 2, o); }
            Self::V133 => { le(133, 2, o); }
            Self::V134 => { le(134, 2, o); }
            Self::V135 => { le(135, 2, o); }
            Self::V136 => { le(136, 2, o); }
            Self::V137 => { le(137, 2, o); }
            Self::V138 => { le(138, 2, o); }
            Self::V139 => { le(139, 2, o); }
            Self::V140 => { le(140, 2, o); }
            Self::V141 => { le(141, 2, o); }
            Self::V142 => { le(142, 2, o); }
            Self::V143 => { le(143, 2, o); }
            Self::V144 => { le(144, 2, o); }
            Self::V145 => { le(145, 2, o); }
            Self::V146 => { le(146, 2, o); }
            Self::V147 => { le(147, 2, o); }
            Self::V148 => { le(148, 2, o); }
            Self::V149 => { le(149, 2, o); }
            Self::V150 => { le(150, 2, o); }
            Self::V151 => { le(151, 2, o); }
            Self::V152 => { le(152, 2, o); }
            Self::V153 => { le(153, 2, o); }
            Self::V154 => { le(154, 2, o); }
            Self::V155 => { le(155, 2, o); }
            Self::V156 => { le(156, 2, o); }
            Self::V157 => { le(157, 2, o); }
            Self::V158 => { le(158, 2, o); }
            Self::V159 => { le(159, 2, o); }
            Self::V160 => { le(160, 2, o); }
            Self::V161 => { le(161, 2, o); }
            Self::V162 => { le(162, 2, o); }
            Self::V163 => { le(163, 2, o); }
            Self::V164 => { le(164, 2, o); }
            Self::V165 => { le(165, 2, o); }
            Self::V166 => { le(166, 2, o); }
            Self::V167 => { le(167, 2, o); }
            Self::V168 => { le(168, 2, o); }
            Self::V169 => { le(169, 2, o); }
            Self::V170 => { le(170, 2, o); }
            Self::V171 => { le(171, 2, o); }
            Self::V172 => { le(172, 2, o); }
            Self::V173 => { le(173, 2, o); }
            Self::V174 => { le(174, 2, o); }
            Self::V175 => { le(175, 2, o); }
            Self::V176 => { le(176, 2, o); }
            Self::V177 => { le(177, 2, o); }
            Self::V178 => { le(178, 2, o); }
            Self::V179 => { le(179, 2, o); }
            Self::V180 => { le(180, 2, o); }
            Self::V181 => { le(181, 2, o); }
            Self::V182 => { le(182, 2, o); }
            Self::V183 => { le(183, 2, o); }
            Self::V184 => { le(184, 2, o); }
            Self::V185 => { le(185, 2, o); }
            Self::V186 => { le(186, 2, o); }
            Self::V187 => { le(187, 2, o); }
            Self::V188 => { le(188, 2, o); }
            Self::V189 => { le(189, 2, o); }
            Self::V190 => { le(190, 2, o); }
            Self::V191 => { le(191, 2, o); }
            Self::V192 => { le(192, 2, o); }
            Self::V193 => { le(193, 2, o); }
            Self::V194 => { le(194, 2, o); }
            Self::V195 => { le(195, 2, o); }
            Self::V196 => { le(196, 2, o); }
            Self::V197 => { le(197, 2, o); }
            Self::V198 => { le(198, 2, o); }
            Self::V199 => { le(199, 2, o); }
            Self::V200 => { le(200, 2, o); }
            Self::V201 => { le(201, 2, o); }
            Self::V202 => { le(202, 2, o); }
            Self::V203 => { le(203, 2, o); }
            Self::V204 => { le(204, 2, o); }
            Self::V205 => { le(205, 2, o); }
            Self::V206 => { le(206, 2, o); }
            Self::V207 => { le(207, 2, o); }
            Self::V208 => { le(208, 2, o); }
            Self::V209 => { le(209, 2, o); }
            Self::V210 => { le(210, 2, o); }
            Self::V211 => { le(211, 2, o); }
            Self::V212 => { le(212, 2, o); }
            Self::V213 => { le(213, 2, o); }
            Self::V214 => { le(214, 2, o); }
            Self::V215 => { le(215, 2, o); }
            Self::V216 => { le(216, 2, o); }
            Self::V217 => { le(217, 2, o); }
            Self::V218 => { le(218, 2, o); }
            Self::V219 => { le(219, 2, o); }
            Self::V220 => { le(220, 2, o); }
            Self::V221 => { le(221, 2, o); }
            Self::V222 => { le(222, 2, o); }
            Self::V223 => { le(223, 2, o); }
            Self::V224 => { le(224, 2, o); }
            Self::V225 => { le(225, 2, o); }
            Self::V226 => { le(226, 2, o); }
            Self::V227 => { le(227, 2, o); }
            Self::V228 => { le(228, 2, o); }
            Self::V229 => { le(229, 2, o); }
            Self::V230 => { le(230, 2, o); }
            Self::V231 => { le(231, 2, o); }
            Self::V232 => { le(232, 2, o); }
            Self::V233 => { le(233, 2, o); }
            Self::V234 => { le(234, 2, o); }
            Self::V235 => { le(235, 2, o); }
            Self::V236 => { le(236, 2, o); }
            Self::V237 => { le(237, 2, o); }
            Self::V238 => { le(238, 2, o); }
            Self::V239 => { le(239, 2, o); }
            Self::V240 => { le(240, 2, o); }
            Self::V241 => { le(241, 2, o); }
            Self::V242 => { le(242, 2, o); }
            Self::V243 => { le(243, 2, o); }
            Self::V244 => { le(244, 2, o); }
            Self::V245 => { le(245, 2, o); }
            Self::V246 => { le(246, 2, o); }
            Self::V247 => { le(247, 2, o); }
            Self::V248 => { le(248, 2, o); }
            Self::V249 => { le(249, 2, o); }
            Self::V250 => { le(250, 2, o); }
            Self::V251 => { le(251, 2, o); }
            Self::V252 => { le(252, 2, o); }
            Self::V253 => { le(253, 2, o); }
            Self::V254 => { le(254, 2, o); }
            Self::V255 => { le(255, 2, o); }
            Self::V256 => { le(256, 2, o); }
            Self::V257 => { le(257, 2, o); }
            Self::V258 => { le(258, 2, o); }
            Self::V259 => { le(259, 2, o); }
            Self::V260 => { le(260, 2, o); }
            Self::V261 => { le(261, 2, o); }
            Self::V262 => { le(262, 2, o); }
            Self::V263 => { le(263, 2, o); }
            Self::V264 => { le(264, 2, o); }
            Self::V265 => { le(265, 2, o); }
            Self::V266 => { le(266, 2, o); }
            Self::V267 => { le(267, 2, o); }
            Self::V268 => { le(268, 2, o); }
            Self::V269 => { le(269, 2, o); }
            Self::V270 => { le(270, 2, o); }
            Self::V271 => { le(271, 2, o); }
            Self::V272 => { le(272, 2, o); }
            Self::V273 => { le(273, 2, o); }
            Self::V274 => { le(274, 2, o); }
            Self::V275 => { le(275, 2, o); }
            Self::V276 => { le(276, 2, o); }
            Self::V277 => { le(277, 2, o); }
            Self::V278 => { le(278, 2, o); }
            Self::V279 => { le(279, 2, o); }
            Self::V280 => { le(280, 2, o); }
            Self::V281 => { le(281, 2, o); }
            Self::V282 => { le(282, 2, o); }
            Self::V283 => { le(283, 2, o); }
            Self::V284 => { le(284, 2, o); }
            Self::V285 => { le(285, 2, o); }
            Self::V286 => { le(286, 2, o); }
            Self::V287 => { le(287, 2, o); }
            Self::V288 => { le(288, 2, o); }
            Self::V289 => { le(289, 2, o); }
            Self::V290 => { le(290, 2, o); }
            Self::V291 => { le(291, 2, o); }
            Self::V292 => { le(292, 2, o); }
            Self::V293 => { le(293, 2, o); }
            Self::V294 => { le(294, 2, o); }
            Self::V295 => { le(295, 2, o); }
            Self::V296 => { le(296, 2, o); }
            Self::V297 => { le(297, 2, o); }
            Self::V298 => { le(298, 2, o); }
            Self::V299 => { le(299, 2, o); }
        }
    }
}
impl Shape for W3 {
    const WIDTH: usize = 2;
    fn assigned(x: u128) -> bool { matches!(x, 0 | 1 | 2 | 3 | 4 | 5 | 6 | 7 | 8 | 9 | 10 | 11 | 12 | 13 | 14 | 15 | 16 | 17 | 18 | 19 | 20 | 21 | 22 | 23 | 24 | 25 | 26 | 27 | 28 | 29 | 30 | 31 | 32 | 33 | 34 | 35 | 36 | 37 | 38 | 39 | 40 | 41 | 42 | 43 | 44 | 45 | 46 | 47 | 48 | 49 | 50 | 51 | 52 | 53 | 54 | 55 | 56 | 57 | 58 | 59 | 60 | 61 | 62 | 63 | 64 | 65 | 66 | 67 | 68 | 69 | 70 | 71 | 72 | 73 | 74 | 75 | 76 | 77 | 78 | 79 | 80 | 81 | 82 | 83 | 84 | 85 | 86 | 87 | 88 | 89 | 90 | 91 | 92 | 93 | 94 | 95 | 96 | 97 | 98 | 99 | 100 | 101 | 102 | 103 | 104 | 105 | 106 | 107 | 108 | 109 | 110 | 111 | 112 | 113 | 114 | 115 | 116 | 117 | 118 | 119 | 120 | 121 | 122 | 123 | 124 | 125 | 126 | 127 | 128 | 129 | 130 | 131 | 132 | 133 | 134 | 135 | 136 | 137 | 138 | 139 | 140 | 141 | 142 | 143 | 144 | 145 | 146 | 147 | 148 | 149 | 150 | 151 | 152 | 153 | 154 | 155 | 156 | 157 | 158 | 159 | 160 | 161 | 162 | 163 | 164 | 165 | 166 | 167 | 168 | 169 | 170 | 171 | 172 | 173 | 174 | 175 | 176 | 177 | 178 | 179 | 180 | 181 | 182 | 183 | 184 | 185 | 186 | 187 | 188 | 189 | 190 | 191 | 192 | 193 | 194 | 195 | 196 | 197 | 198 | 199 | 200 | 201 | 202 | 203 | 204 | 205 | 206 | 207 | 208 | 209 | 210 | 211 | 212 | 213 | 214 | 215 | 216 | 217 | 218 | 219 | 220 | 221 | 222 | 223 | 224 | 225 | 226 | 227 | 228 | 229 | 230 | 231 | 232 | 233 | 234 | 235 | 236 | 237 | 238 | 239 | 240 | 241 | 242 | 243 | 244 | 245 | 246 | 247 | 248 | 249 | 250 | 251 | 252 | 253 | 254 | 255 | 256 | 257 | 258 | 259 | 260 | 261 | 262 | 263 | 264 | 265 | 266 | 267 | 268 | 269 | 270 | 271 | 272 | 273 | 274 | 275 | 276 | 277 | 278 | 279 | 280 | 281 | 282 | 283 | 284 | 285 | 286 | 287 | 288 | 289 | 290 | 291 | 292 | 293 | 294 | 295 | 296 | 297 | 298 | 299) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u16 as u16) < 0 as _) { Some(*value as u16 as u128) } else { None }, _ => None } }
}
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub enum W4 {
    V0,
    V1,
    V2,
    V3,
    V4,
    V5,
    V6,
    V7,
    V8,
    V9,
    V10,
    V11,
    V12,
    V13,
    V14,
    V15,
    V16,
    V17,
    V18,
    V19,
    V20,
    V21,
    V22,
    V23,
    V24,
    V25,
    V26,
    V27,
    V28,
    V29,
    V30,
    V31,
    V32,
    V33,
    V34,
    V35,
    V36,
    V37,
    V38,
    V39,
    V40,
    V41,
    V42,
    V43,
    V44,
    V45,
    V46,
    V47,
    V48,
    V49,
    V50,
    V51,
    V52,
    V53,
    V54,
    V55,
    V56,
    V57,
    V58,
    V59,
    V60,
    V61,
    V62,
    V63,
    V64,
    V65,
    V66,
    V67,
    V68,
    V69,
    V70,
    V71,
    V72,
    V73,
    V74,
    V75,
    V76,
    V77,
    V78,
    V79,
    V80,
    V81,
    V82,
    V83,
    V84,
    V85,
    V86,
    V87,
    V88,
    V89,
    V90,
    V91,
    V92,
    V93,
    V94,
    V95,
    V96,
    V97,
    V98,
    V99,
    V100,
    V101,
    V102,
    V103,
    V104,
    V105,
    V106,
    V107,
    V108,
    V109,
    V110,
    V111,
    V112,
    V113,
    V114,
    V115,
    V116,
    V117,
    V118,
    V119,
    V120,
    V121,
    V122,
    V123,
    V124,
    V125,
    V126,
    V127,
    V128,
    V129,
    Last(u8, u16),
}
impl Field for W4 {
    const MAX: usize = 5;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(131) {
            0 => Self::V0,
            1 => Self::V1,
            2 => Self::V2,
            3 => Self::V3,
            4 => Self::V4,
            5 => Self::V5,
            6 => Self::V6,
            7 => Self::V7,
            8 => Self::V8,
            9 => Self::V9,
            10 => Self::V10,
            11 => Self::V11,
            12 => Self::V12,
            13 => Self::V13,
            14 => Self::V14,
            15 => Self::V15,
            16 => Self::V16,
            17 => Self::V17,
            18 => Self::V18,
            19 => Self::V19,
            20 => Self::V20,
            21 => Self::V21,
            22 => Self::V22,
            23 => Self::V23,
            24 => Self::V24,
            25 => Self::V25,
            26 => Self::V26,
            27 => Self::V27,
            28 => Self::V28,
            29 => Self::V29,
            30 => Self::V30,
            31 => Self::V31,
            32 => Self::V32,
            33 => Self::V33,
            34 => Self::V34,
            35 => Self::V35,
            36 => Self::V36,
            37 => Self::V37,
            38 => Self::V38,
            39 => Self::V39,
            40 => Self::V40,
            41 => Self::V41,
            42 => Self::V42,
            43 => Self::V43,
            44 => Self::V44,
            45 => Self::V45,
            46 => Self::V46,
            47 => Self::V47,
            48 => Self::V48,
            49 => Self::V49,
            50 => Self::V50,
            51 => Self::V51,
            52 => Self::V52,
            53 => Self::V53,
            54 => Self::V54,
            55 => Self::V55,
            56 => Self::V56,
            57 => Self::V57,
            58 => Self::V58,
            59 => Self::V59,
            60 => Self::V60,
            61 => Self::V61,
            62 => Self::V62,
            63 => Self::V63,
            64 => Self::V64,
            65 => Self::V65,
            66 => Self::V66,
            67 => Self::V67,
            68 => Self::V68,
            69 => Self::V69,
            70 => Self::V70,
            71 => Self::V71,
            72 => Self::V72,
            73 => Self::V73,
            74 => Self::V74,
            75 => Self::V75,
            76 => Self::V76,
            77 => Self::V77,
            78 => Self::V78,
            79 => Self::V79,
            80 => Self::V80,
            81 => Self::V81,
            82 => Self::V82,
            83 => Self::V83,
            84 => Self::V84,
            85 => Self::V85,
            86 => Self::V86,
            87 => Self::V87,
            88 => Self::V88,
            89 => Self::V89,
            90 => Self::V90,
            91 => Self::V91,
            92 => Self::V92,
            93 => Self::V93,
            94 => Self::V94,
            95 => Self::V95,
            96 => Self::V96,
            97 => Self::V97,
            98 => Self::V98,
            99 => Self::V99,
            100 => Self::V100,
            101 => Self::V101,
            102 => Self::V102,
            103 => Self::V103,
            104 => Self::V104,
            105 => Self::V105,
            106 => Self::V106,
            107 => Self::V107,
            108 => Self::V108,
            109 => Self::V109,
            110 => Self::V110,
            111 => Self::V111,
            112 => Self::V112,
            113 => Self::V113,
            114 => Self::V114,
            115 => Self::V115,
            116 => Self::V116,
            117 => Self::V117,
            118 => Self::V118,
            119 => Self::V119,
            120 => Self::V120,
            121 => Self::V121,
            122 => Self::V122,
            123 => Self::V123,
            124 => Self::V124,
            125 => Self::V125,
            126 => Self::V126,
            127 => Self::V127,
            128 => Self::V128,
            129 => Self::V129,
            _ => Self::Last(Field::any(s), Field::any(s)),
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0 => { le(0, 2, o); }
            Self::V1 => { le(1, 2, o); }
            Self::V2 => { le(2, 2, o); }
            Self::V3 => { le(3, 2, o); }
            Self::V4 => { le(4, 2, o); }
            Self::V5 => { le(5, 2, o); }
            Self::V6 => { le(6, 2, o); }
            Self::V7 => { le(7, 2, o); }
            Self::V8 => { le(8, 2, o); }
            Self::V9 => { le(9, 2, o); }
            Self::V10 => { le(10, 2, o); }
            Self::V11 => { le(11, 2, o); }
            Self::V12 => { le(12, 2, o); }
            Self::V13 => { le(13, 2, o); }
            Self::V14 => { le(14, 2, o); }
            Self::V15 => { le(15, 2, o); }
            Self::V16 => { le(16, 2, o); }
            Self::V17 => { le(17, 2, o); }
            Self::V18 => { le(18, 2, o); }
            Self::V19 => { le(19, 2, o); }
            Self::V20 => { le(20, 2, o); }
            Self::V21 => { le(21, 2, o); }
            Self::V22 => { le(22, 2, o); }
            Self::V23 => { le(23, 2, o); }
            Self::V24 => { le(24, 2, o); }
            Self::V25 => { le(25, 2, o); }
            Self::V26 => { le(26, 2, o); }
            Self::V27 => { le(27, 2, o); }
            Self::V28 => { le(28, 2, o); }
            Self::V29 => { le(29, 2, o); }
            Self::V30 => { le(30, 2, o); }
            Self::V31 => { le(31, 2, o); }
            Self::V32 => { le(32, 2, o); }
            Self::V33 => { le(33, 2, o); }
            Self::V34 => { le(34, 2, o); }
            Self::V35 => { le(35, 2, o); }
            Self::V36 => { le(36, 2, o); }
            Self::V37 => { le(37, 2, o); }
            Self::V38 => { le(38, 2, o); }
            Self::V39 => { le(39, 2, o); }
            Self::V40 => { le(40, 2, o); }
            Self::V41 => { le(41, 2, o); }
            Self::V42 => { le(42, 2, o); }
            Self::V43 => { le(43, 2, o); }
            Self::V44 => { le(44, 2, o); }
            Self::V45 => { le(45, 2, o); }
            Self::V46 => { le(46, 2, o); }
            Self::V47 => { le(47, 2, o); }
            Self::V48 => { le(48, 2, o); }
            Self::V49 => { le(49, 2, o); }
            Self::V50 => { le(50, 2, o); }
            Self::V51 => { le(51, 2, o); }
            Self::V52 => { le(52, 2, o); }
            Self::V53 => { le(53, 2, o); }
            Self::V54 => { le(54, 2, o); }
            Self::V55 => { le(55, 2, o); }
            Self::V56 => { le(56, 2, o); }
            Self::V57 => { le(57, 2, o); }
            Self::V58 => { le(58, 2, o); }
            Self::V59 => { le(59, 2, o); }
            Self::V60 => { le(60, 2, o); }
            Self::V61 => { le(61, 2, o); }
            Self::V62 => { le(62, 2, o); }
            Self::V63 => { le(63, 2, o); }
            Self::V64 => { le(64, 2, o); }
            Self::V65 => { le(65, 2, o); }
            Self::V66 => { le(66, 2, o); }
            Self::V67 => { le(67, 2, o); }
            Self::V68 => { le(68, 2, o); }
            Self::V69 => { le(69, 2, o); }
            Self::V70 => { le(70, 2, o); }
            Self::V71 => { le(71, 2, o); }
            Self::V72 => { le(72, 2, o); }
            Self::V73 => { le(73, 2, o); }
            Self::V74 => { le(74, 2, o); }
            Self::V75 => { le(75, 2, o); }
            Self::V76 => { le(76, 2, o); }
            Self::V77 => { le(77, 2, o); }
            Self::V78 => { le(78, 2, o); }
            Self::V79 => { le(79, 2, o); }
            Self::V80 => { le(80, 2, o); }
            Self::V81 => { le(81, 2, o); }
            Self::V82 => { le(82, 2, o); }
            Self::V83 => { le(83, 2, o); }
            Self::V84 => { le(84, 2, o); }
            Self::V85 => { le(85, 2, o); }
            Self::V86 => { le(86, 2, o); }
            Self::V87 => { le(87, 2, o); }
            Self::V88 => { le(88, 2, o); }
            Self::V89 => { le(89, 2, o); }
            Self::V90 => { le(90, 2, o); }
            Self::V91 => { le(91, 2, o); }
            Self::V92 => { le(92, 2, o); }
            Self::V93 => { le(93, 2, o); }
            Self::V94 => { le(94, 2, o); }
            Self::V95 => { le(95, 2, o); }
            Self::V96 => { le(96, 2, o); }
            Self::V97 => { le(97, 2, o); }
            Self::V98 => { le(98, 2, o); }
            Self::V99 => { le(99, 2, o); }
            Self::V100 => { le(100, 2, o); }
            Self::V101 => { le(101, 2, o); }
            Self::V102 => { le(102, 2, o); }
            Self::V103 => { le(103, 2, o); }
            Self::V104 => { le(104, 2, o); }
            Self::V105 => { le(105, 2, o); }
            Self::V106 => { le(106, 2, o); }
            Self::V107 => { le(107, 2, o); }
            Self::V108 => { le(108, 2, o); }
            Self::V109 => { le(109, 2, o); }
            Self::V110 => { le(110, 2, o); }
            Self::V111 => { le(111, 2, o); }
            Self::V112 => { le(112, 2, o); }
            Self::V113 => { le(113, 2, o); }
            Self::V114 => { le(114, 2, o); }
            Self::V115 => { le(115, 2, o); }
            Self::V116 => { le(116, 2, o); }
            Self::V117 => { le(117, 2, o); }
            Self::V118 => { le(118, 2, o); }
            Self::V119 => { le(119, 2, o); }
            Self::V120 => { le(120, 2, o); }
            Self::V121 => { le(121, 2, o); }
            Self::V122 => { le(122, 2, o); }
            Self::V123 => { le(123, 2, o); }
            Self::V124 => { le(124, 2, o); }
            Self::V125 => { le(125, 2, o); }
            Self::V126 => { le(126, 2, o); }
            Self::V127 => { le(127, 2, o); }
            Self::V128 => { le(128, 2, o); }
            Self::V129 => { le(129, 2, o); }
            Self::Last(f0, f1) => { le(130, 2, o); f0.emit(o); f1.emit(o); }
        }
    }
}
impl Shape for W4 {
    const WIDTH: usize = 2;
    fn assigned(x: u128) -> bool { matches!(x, 0 | 1 | 2 | 3 | 4 | 5 | 6 | 7 | 8 | 9 | 10 | 11 | 12 | 13 | 14 | 15 | 16 | 17 | 18 | 19 | 20 | 21 | 22 | 23 | 24 | 25 | 26 | 27 | 28 | 29 | 30 | 31 | 32 | 33 | 34 | 35 | 36 | 37 | 38 | 39 | 40 | 41 | 42 | 43 | 44 | 45 | 46 | 47 | 48 | 49 | 50 | 51 | 52 | 53 | 54 | 55 | 56 | 57 | 58 | 59 | 60 | 61 | 62 | 63 | 64 | 65 | 66 | 67 | 68 | 69 | 70 | 71 | 72 | 73 | 74 | 75 | 76 | 77 | 78 | 79 | 80 | 81 | 82 | 83 | 84 | 85 | 86 | 87 | 88 | 89 | 90 | 91 | 92 | 93 | 94 | 95 | 96 | 97 | 98 | 99 | 100 | 101 | 102 | 103 | 104 | 105 | 106 | 107 | 108 | 109 | 110 | 111 | 112 | 113 | 114 | 115 | 116 | 117 | 118 | 119 | 120 | 121 | 122 | 123 | 124 | 125 | 126 | 127 | 128 | 129 | 130) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u16 as i16) < 0 as _) { Some(*value as u16 as u128) } else { None }, _ => None } }
}
/// Documented.
#[allow(dead_code)]
#[must_use]
#[repr(u8)]
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub enum W5 {
    V0 = 200u8,
    V1,
    V2(u16) = 0o17,
    V3 { zeta: u8, alpha: bool },
    V4 = 0xFE_u8,
    V5,
    V6 = 0,
}
impl Field for W5 {
    const MAX: usize = 3;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(7) {
            0 => Self::V0,
            1 => Self::V1,
            2 => Self::V2(Field::any(s)),
            3 => Self::V3 { zeta: Field::any(s), alpha: Field::any(s) },
            4 => Self::V4,
            5 => Self::V5,
            _ => Self::V6,
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0 => { le(200, 1, o); }
            Self::V1 => { le(201, 1, o); }
            Self::V2(f0) => { le(15, 1, o); f0.emit(o); }
            Self::V3 { zeta: f0, alpha: f1 } => { le(16, 1, o); f0.emit(o); f1.emit(o); }
            Self::V4 => { le(254, 1, o); }
            Self::V5 => { le(255, 1, o); }
            Self::V6 => { le(0, 1, o); }
        }
    }
}
impl Shape for W5 {
    const WIDTH: usize = 1;
    fn assigned(x: u128) -> bool { matches!(x, 200 | 201 | 15 | 16 | 254 | 255 | 0) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u8 as u8) < 0 as _) { Some(*value as u8 as u128) } else { None }, _ => None } }
}
/// Documented.
#[allow(dead_code)]
#[must_use]
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
#[repr(i32)]
pub enum W6 {
    V0 = 0x7FFF_FFFEi32,
    V1 { zeta: i8 },
    V2 = 0b1111_i32,
    V3 = 000010,
}
impl Field for W6 {
    const MAX: usize = 5;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(4) {
            0 => Self::V0,
            1 => Self::V1 { zeta: Field::any(s) },
            2 => Self::V2,
            _ => Self::V3,
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0 => { le(2147483646, 4, o); }
            Self::V1 { zeta: f0 } => { le(2147483647, 4, o); f0.emit(o); }
            Self::V2 => { le(15, 4, o); }
            Self::V3 => { le(10, 4, o); }
        }
    }
}
impl Shape for W6 {
    const WIDTH: usize = 4;
    fn assigned(x: u128) -> bool { matches!(x, 2147483646 | 2147483647 | 15 | 10) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u32 as i32) < 0 as _) { Some(*value as u32 as u128) } else { None }, _ => None } }
}
#[repr(u64)]
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub enum W7 {
    V0 = 18446744073709551614,
    V1(u8),
    V2 = 4294967296,
    V3,
    V4 = 65536,
}
impl Field for W7 {
    const MAX: usize = 9;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(5) {
            0 => Self::V0,
            1 => Self::V1(Field::any(s)),
            2 => Self::V2,
            3 => Self::V3,
            _ => Self::V4,
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0 => { le(18446744073709551614, 8, o); }
            Self::V1(f0) => { le(18446744073709551615, 8, o); f0.emit(o); }
            Self::V2 => { le(4294967296, 8, o); }
            Self::V3 => { le(4294967297, 8, o); }
            Self::V4 => { le(65536, 8, o); }
        }
    }
}
impl Shape for W7 {
    const WIDTH: usize = 8;
    fn assigned(x: u128) -> bool { matches!(x, 18446744073709551614 | 18446744073709551615 | 4294967296 | 4294967297 | 65536) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u64 as u64) < 0 as _) { Some(*value as u64 as u128) } else { None }, _ => None } }
}
#[repr(u16)]
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub enum W8 {
    V0(u128, i128),
    V1(u8),
    V2,
}
impl Field for W8 {
    const MAX: usize = 34;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(3) {
            0 => Self::V0(Field::any(s), Field::any(s)),
            1 => Self::V1(Field::any(s)),
            _ => Self::V2,
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0(f0, f1) => { le(0, 2, o); f0.emit(o); f1.emit(o); }
            Self::V1(f0) => { le(1, 2, o); f0.emit(o); }
            Self::V2 => { le(2, 2, o); }
        }
    }
}
impl Shape for W8 {
    const WIDTH: usize = 2;
    fn assigned(x: u128) -> bool { matches!(x, 0 | 1 | 2) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u16 as u16) < 0 as _) { Some(*value as u16 as u128) } else { None }, _ => None } }
}
#[repr(u16)]
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub enum W9 {
    V0(u8),
    V1(u128, i128),
    V2,
}
impl Field for W9 {
    const MAX: usize = 34;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(3) {
            0 => Self::V0(Field::any(s)),
            1 => Self::V1(Field::any(s), Field::any(s)),
            _ => Self::V2,
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0(f0) => { le(0, 2, o); f0.emit(o); }
            Self::V1(f0, f1) => { le(1, 2, o); f0.emit(o); f1.emit(o); }
            Self::V2 => { le(2, 2, o); }
        }
    }
}
impl Shape for W9 {
    const WIDTH: usize = 2;
    fn assigned(x: u128) -> bool { matches!(x, 0 | 1 | 2) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u16 as u16) < 0 as _) { Some(*value as u16 as u128) } else { None }, _ => None } }
}
#[repr(u16)]
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub enum W10 {
    V0,
    V1(u8),
    V2 { zeta: u128, alpha: i128 },
}
impl Field for W10 {
    const MAX: usize = 34;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(3) {
            0 => Self::V0,
            1 => Self::V1(Field::any(s)),
            _ => Self::V2 { zeta: Field::any(s), alpha: Field::any(s) },
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0 => { le(0, 2, o); }
            Self::V1(f0) => { le(1, 2, o); f0.emit(o); }
            Self::V2 { zeta: f0, alpha: f1 } => { le(2, 2, o); f0.emit(o); f1.emit(o); }
        }
    }
}
impl Shape for W10 {
    const WIDTH: usize = 2;
    fn assigned(x: u128) -> bool { matches!(x, 0 | 1 | 2) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u16 as u16) < 0 as _) { Some(*value as u16 as u128) } else { None }, _ => None } }
}
#[repr(u16)]
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub enum W11 {
    V0(u8, u8, u8),
    V1 { zeta: u8, alpha: u8, r#type: u8 },
}
impl Field for W11 {
    const MAX: usize = 5;
    fn any<S: Src>(s: &mut S) -> Self {
        match s.below(2) {
            0 => Self::V0(Field::any(s), Field::any(s), Field::any(s)),
            _ => Self::V1 { zeta: Field::any(s), alpha: Field::any(s), r#type: Field::any(s) },
        }
    }
    fn emit(&self, o: &mut Vec<u8>) {
        match self {
            Self::V0(f0, f1, f2) => { le(0, 2, o); f0.emit(o); f1.emit(o); f2.emit(o); }
            Self::V1 { zeta: f0, alpha: f1, r#type: f2 } => { le(1, 2, o); f0.emit(o); f1.emit(o); f2.emit(o); }
        }
    }
}
impl Shape for W11 {
    const WIDTH: usize = 2;
    fn assigned(x: u128) -> bool { matches!(x, 0 | 1) }
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> { match e { EnumDecodeError::UnassignedDiscriminant { value } => if (*value < 0 as _) == ((*value as u16 as u16) < 0 as _) { Some(*value as u16 as u128) } else { None }, _ => None } }
}
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
pub struct Defaulted<T: Encode<Error: Into<GenericEncodeError>> + Decode<Error: Into<GenericDecodeError>> + SizedEncode = u16, U = bool, const N: usize = 2> where U: Encode<Error: Into<GenericEncodeError>> + Decode<Error: Into<GenericDecodeError>> + SizedEncode { pub a: T, pub b: [u8; N], pub c: U }
#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]
#[repr(u8)]
pub enum DefaultedEnum<T: Encode<Error: Into<GenericEncodeError>> + Decode<Error: Into<GenericDecodeError>> + SizedEncode = u16, const N: usize = 3> { A([u8; N]) = 7, B { t: T } }
#[derive(Encode)]
#[repr(u16)]
pub enum Lent<'a, 'b: 'a, T: ?Sized + Encode<Error: Into<GenericEncodeError>> = str> { A(&'a T), B { b: &'b [u8], a: &'a T } = 0x300 }
#[macro_export]
macro_rules! each_shape { ($m:ident) => { $m!(S0); $m!(S1); $m!(S2); $m!(S3); $m!(S4); $m!(S5); $m!(S6); $m!(S7); $m!(S8); $m!(S9); $m!(S10); $m!(S11); $m!(E0); $m!(E1); $m!(E2); $m!(E3); $m!(E4); $m!(E5); $m!(E6); $m!(E7); $m!(E8); $m!(E9); $m!(E10); $m!(E11); $m!(E12); $m!(E13); $m!(E14); $m!(E15); $m!(E16); $m!(E17); $m!(E18); $m!(E19); $m!(E20); $m!(E21); $m!(E22); $m!(E23); $m!(E24); $m!(E25); $m!(W0); $m!(W1); $m!(W2); $m!(W3); $m!(W4); $m!(W5); $m!(W6); $m!(W7); $m!(W8); $m!(W9); $m!(W10); $m!(W11); } }
