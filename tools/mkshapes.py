#!/usr/bin/env python3
"""Writes harness/src/shapes.rs: type declarations deriving the three traits, each with an
independent description (bytes, maximum size, numbering) computed here and not by the macros."""
import random, sys
FIELDS = [('u8',1),('i8',1),('u16',2),('i16',2),('u32',4),('i32',4),('u64',8),('i64',8),('u128',16),('i128',16),
          ('usize',2),('isize',2),('bool',1),('()',0),('[u8; 3]',3),('Option<u16>',3),('NonZero<u16>',2),('(u8, u16)',3),('f32',4)]
REPR = {'u8':(1,0,2**8-1),'i8':(1,0,2**7-1),'u16':(2,0,2**16-1),'i16':(2,0,2**15-1),'u32':(4,0,2**32-1),'i32':(4,0,2**31-1),
        'u64':(8,0,2**64-1),'i64':(8,0,2**63-1),'u128':(16,0,2**128-1),'i128':(16,0,2**127-1),
        'usize':(2,0,2**16-1),'isize':(2,0,2**15-1),None:(2,0,2**15-1)}
out = []
def fields(r, n): return [r.choice(FIELDS) for _ in range(n)]
def lit(r, v):
    k = r.randrange(4)
    return str(v) if k == 0 else hex(v) if k == 1 else bin(v) if k == 2 and v < 2**12 else f'{v:_}'
def body(style, fs, pub=''):
    if style == 'unit': return ''
    if style == 'tuple': return '(' + ', '.join(pub + t for t, _ in fs) + ')'
    return ' { ' + ', '.join(f'{pub}{NAMES[i]}: {t}' for i, (t, _) in enumerate(fs)) + ' }'
NAMES = ['zeta', 'alpha', 'r#type', 'mid', 'b', 'a', 'stream', 'value0', 'this', 'discriminant', 'value', 'total_size', 'current_size', 'input', 'output', 'r#match']
def pat(style, fs):
    if style == 'unit': return ''
    if style == 'tuple': return '(' + ', '.join(f'f{i}' for i in range(len(fs))) + ')'
    return ' { ' + ', '.join(f'{NAMES[i]}: f{i}' for i in range(len(fs))) + ' }'
def make(style, fs):
    if style == 'unit': return ''
    e = ['Field::any(s)'] * len(fs)
    if style == 'tuple': return '(' + ', '.join(e) + ')'
    return ' { ' + ', '.join(f'{NAMES[i]}: {x}' for i, x in enumerate(e)) + ' }'
def struct(name, style, fs):
    semi = '' if style == 'named' else ';'
    out.append(f'#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]\npub struct {name}{body(style, fs)}{semi}')
    emit = ''.join(f' f{i}.emit(o);' for i in range(len(fs)))
    out.append(f'''impl Field for {name} {{
    const MAX: usize = {sum(n for _, n in fs)};
    fn any<S: Src>(s: &mut S) -> Self {{ Self{make(style, fs)} }}
    fn emit(&self, o: &mut Vec<u8>) {{ let Self{pat(style, fs)} = self;{emit} }}
}}
impl Shape for {name} {{ const WIDTH: usize = 0; fn assigned(_: u128) -> bool {{ true }} fn reported(_: &<Self as Decode>::Error) -> Option<u128> {{ None }} }}''')
def enum(name, repr_, variants, attr_first, extra=''):
    """variants: (name, style, fields, explicit discriminant text or None, value)"""
    w = REPR[repr_][0]
    ra = f'#[repr({repr_})]\n' if repr_ else ''
    d = '#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]\n'
    vs = ''.join(f'    {v}{body(st, fs)}{" = " + ex if ex is not None else ""},\n' for v, st, fs, ex, _ in variants)
    out.append((ra + d if attr_first else d + ra) + f'pub enum {name} {{\n{vs}}}')
    if extra: out[-1] = extra + out[-1]
    mx = max(sum(n for _, n in fs) for _, _, fs, _, _ in variants) + w
    n = len(variants)
    anyarms = ''.join(f'            {i if i < n - 1 else "_"} => Self::{v}{make(st, fs)},\n' for i, (v, st, fs, _, _) in enumerate(variants))
    emitarms = ''.join(f'            Self::{v}{pat(st, fs)} => {{ le({val}, {w}, o);' + ''.join(f' f{i}.emit(o);' for i in range(len(fs))) + ' }\n' for v, st, fs, _, val in variants)
    vals = ' | '.join(str(v[4]) for v in variants)
    # the reported discriminant is the whole number read, zero-extended from the declared representation
    cast = {'i8':'u8','i16':'u16','i32':'u32','i64':'u64','i128':'u128','isize':'usize',None:'usize'}.get(repr_, repr_)
    low = 'u16' if cast == 'usize' else cast
    wty = {'usize': 'u16', 'isize': 'i16', None: 'i16'}.get(repr_, repr_)      # negative exactly where the declared representation says so
    out.append(f'''impl Field for {name} {{
    const MAX: usize = {mx};
    fn any<S: Src>(s: &mut S) -> Self {{
        match s.below({n}) {{
{anyarms}        }}
    }}
    fn emit(&self, o: &mut Vec<u8>) {{
        match self {{
{emitarms}        }}
    }}
}}
impl Shape for {name} {{
    const WIDTH: usize = {w};
    fn assigned(x: u128) -> bool {{ matches!(x, {vals}) }}
    fn reported(e: &<Self as Decode>::Error) -> Option<u128> {{ match e {{ EnumDecodeError::UnassignedDiscriminant {{ value }} => if (*value < 0 as _) == ((*value as {low} as {wty}) < 0 as _) {{ Some(*value as {low} as u128) }} else {{ None }}, _ => None }} }}
}}''')
def rand_enum(r, name, repr_, big=False):
    _, lo, hi = REPR[repr_]
    n = r.randrange(1, 5)
    # explicit numbers on variants with fields need a declared representation
    plain = repr_ is None and r.random() < .5
    vs, prev, used = [], None, set()
    for i in range(n):
        nxt = 0 if prev is None else prev + 1
        ex = None
        if (r.random() < .45 and (repr_ or plain)) or nxt > hi or nxt in used:
            for _ in range(99):
                val = r.choice([r.randrange(0, min(hi, 300) + 1), hi, hi - 1, r.randrange(hi + 1), r.randrange(0, 9)])
                if val not in used and not (repr_ is None and val > 32767): break
            else: break
            ex = lit(r, val)
        else: val = nxt
        used.add(val); prev = val
        st = 'unit' if plain else r.choice(['unit', 'tuple', 'named'])
        k = 0 if st == 'unit' else r.randrange(0, 4)
        vs.append((f'V{i}', st, fields(r, k), ex, val))
    enum(name, repr_, vs, r.random() < .5)
def main():
    r = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 7)
    names = []
    struct('S0', 'unit', []); struct('S1', 'tuple', []); struct('S2', 'named', [])
    names += ['S0', 'S1', 'S2']
    for i in range(3, 12):
        struct(f'S{i}', r.choice(['tuple', 'named']), fields(r, r.randrange(1, 6))); names.append(f'S{i}')
    reprs = list(REPR)
    for i in range(26):
        rand_enum(r, f'E{i}', reprs[i % len(reprs)]); names.append(f'E{i}')
    # wide declarations: more fields and variants than one digit (or one byte) can number
    f = lambda *ts: [x for t in ts for x in FIELDS if x[0] == t]
    struct('W0', 'named', f('u8', 'i16', 'bool', 'u32', 'i8', 'u16', 'u8', 'i32', 'u16', 'i8', 'usize', 'bool', 'u8', 'i64', 'u16'))
    struct('W1', 'tuple', f('u16', 'u8', 'bool', 'u32', 'i8', 'u16', 'u8', 'i32', 'u16', 'i8', 'usize', 'bool', 'u8', 'i64', 'u16', 'i8', 'u8'))
    enum('W2', 'u8', [(f'V{i}', 'unit', [], None, i) for i in range(9)] + [('V9', 'named', f('u8', 'i16', 'bool', 'u32', 'i8', 'u16', 'u8', 'i32', 'u16', 'i8', 'usize', 'bool', 'u8'), None, 9),
        ('V10', 'tuple', f('u16', 'u8', 'bool', 'u32', 'i8', 'u16', 'u8', 'i32', 'u16', 'i8', 'usize', 'bool', 'u8'), None, 10)] + [(f'V{i}', 'tuple', f('u8'), None, i) for i in range(11, 14)], False)
    enum('W3', 'u16', [(f'V{i}', 'unit', [], None, i) for i in range(300)], True)
    enum('W4', None, [(f'V{i}', 'unit', [], None, i) for i in range(130)] + [('Last', 'tuple', f('u8', 'u16'), None, 130)], True)
    # literals with a suffix, in octal, upper case; descending and back; a documented type with unrelated attributes
    doc = '/// Documented.\n#[allow(dead_code)]\n#[must_use]\n'
    enum('W5', 'u8', [('V0', 'unit', [], '200u8', 200), ('V1', 'unit', [], None, 201), ('V2', 'tuple', f('u16'), '0o17', 15), ('V3', 'named', f('u8', 'bool'), None, 16), ('V4', 'unit', [], '0xFE_u8', 254), ('V5', 'unit', [], None, 255), ('V6', 'unit', [], '0', 0)], True, doc)
    enum('W6', 'i32', [('V0', 'unit', [], '0x7FFF_FFFEi32', 2**31 - 2), ('V1', 'named', f('i8'), None, 2**31 - 1), ('V2', 'unit', [], '0b1111_i32', 15), ('V3', 'unit', [], '000010', 10)], False, doc)
    enum('W7', 'u64', [('V0', 'unit', [], '18446744073709551614', 2**64 - 2), ('V1', 'tuple', f('u8'), None, 2**64 - 1), ('V2', 'unit', [], '4294967296', 2**32), ('V3', 'unit', [], None, 2**32 + 1), ('V4', 'unit', [], '65536', 65536)], True)
    # the largest variant first, in the middle, last; equal sizes
    big = f('u128', 'i128'); small = f('u8')
    enum('W8', 'u16', [('V0', 'tuple', big, None, 0), ('V1', 'tuple', small, None, 1), ('V2', 'unit', [], None, 2)], True)
    enum('W9', 'u16', [('V0', 'tuple', small, None, 0), ('V1', 'tuple', big, None, 1), ('V2', 'unit', [], None, 2)], True)
    enum('W10', 'u16', [('V0', 'unit', [], None, 0), ('V1', 'tuple', small, None, 1), ('V2', 'named', big, None, 2)], True)
    enum('W11', 'u16', [('V0', 'tuple', small * 3, None, 0), ('V1', 'named', small * 3, None, 1)], True)
    names += [f'W{i}' for i in range(12)]
    b = 'Encode<Error: Into<GenericEncodeError>> + Decode<Error: Into<GenericDecodeError>> + SizedEncode'
    d = '#[derive(Clone, PartialEq, Debug, Encode, Decode, SizedEncode)]'
    out.append(f'''{d}
pub struct Defaulted<T: {b} = u16, U = bool, const N: usize = 2> where U: {b} {{ pub a: T, pub b: [u8; N], pub c: U }}
{d}
#[repr(u8)]
pub enum DefaultedEnum<T: {b} = u16, const N: usize = 3> {{ A([u8; N]) = 7, B {{ t: T }} }}
#[derive(Encode)]
#[repr(u16)]
pub enum Lent<'a, 'b: 'a, T: ?Sized + Encode<Error: Into<GenericEncodeError>> = str> {{ A(&'a T), B {{ b: &'b [u8], a: &'a T }} = 0x300 }}''')
    out.append('#[macro_export]\nmacro_rules! each_shape { ($m:ident) => { ' + ' '.join(f'$m!({n});' for n in names) + ' } }')
    head = '// Written by tools/mkshapes.py; do not edit.\n#![allow(overflowing_literals)]\nuse super::*;\n'
    open(sys.argv[1], 'w').write(head + '\n'.join(out) + '\n')
main()
