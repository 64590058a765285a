"""The shapes whose derived implementations are put under contract: declarations (for the macros to
expand) and, from the same declarations, the contracts the expansion has to meet. Field types are
type parameters wherever they can be, so that a proof covers every field type and every value."""
import copy, re
from assemble import Contracts, Fn
import contracts as base

STRUCTS, ENUMS = [], []     # (name, generics, style, fields) / (name, generics, repr, variants)
FIELD = ['value1', 'stream', 'value0', 'this', 'discriminant']   # named as the macros name their own variables, in no order

def struct(name, generics, style, *fields): STRUCTS.append((name, generics, style, fields))
def enum(name, generics, repr_, *variants): ENUMS.append((name, generics, repr_, variants))

struct('S0', '', 'unit'); struct('S1', '', 'named'); struct('S2', '', 'tuple')
struct('S3', 'A', 'tuple', 'A'); struct('S4', 'A B', 'named', 'A', 'B'); struct('S5', 'A B', 'tuple', 'B', 'A')
struct('S6', 'A B C', 'tuple', 'C', 'A', 'B'); struct('S7', 'A B C', 'named', 'A', 'C', 'B'); struct('S8', 'A B C G', 'named', 'G', 'B', 'C', 'A')
struct('S9', 'A B C G H', 'tuple', 'A', 'B', 'C', 'G', 'H')
struct('S10', '', 'named', 'u8', 'u16', 'bool', 'u32'); struct('S11', 'A', 'tuple', 'usize', 'A', 'i64', 'A')
struct('S12', 'A', 'named', 'Option<A>', '(u8, u16)', 'A')
struct('S13', 'A B', 'tuple', 'S5<A, B>', 'E_u16<B, A>')

TOP = {'u8': 255, 'i8': 127, 'u16': 65535, 'i16': 32767, 'u32': 2**32 - 1, 'i32': 2**31 - 1, 'u64': 2**64 - 1, 'i64': 2**63 - 1,
       'u128': 2**128 - 1, 'i128': 2**127 - 1, 'usize': 40001, 'isize': 32768}
for k, (r, top) in enumerate(TOP.items()):
    # implicit from zero; explicit; implicit after explicit; explicit at the end of the range
    enum(f'E_{r}', 'A B', r, ('unit', None), ('tuple', str(7 + k), 'A', 'B'), ('named', None, 'B', 'A'), ('tuple', None, 'B'), ('unit', hex(top - 1)), ('named', None, 'A'))
enum('E0', 'A B C', None, ('tuple', None, 'A'), ('unit', None), ('named', None, 'C', 'B', 'A'), ('tuple', None))
enum('E1', '', None, ('unit', '9'), ('unit', '3'), ('unit', None), ('unit', '0b1_0000'), ('unit', None), ('unit', '0'))
enum('E2', 'A', 'u32', ('tuple', None, 'A'))
enum('E3', 'A B C', 'u8', ('named', '0x10', 'A', 'B', 'C'), ('tuple', '0o7', 'C', 'B', 'A'), ('named', None), ('tuple', None, 'u16', 'A', 'bool'), ('unit', '1'))
enum('E4', '', 'i16', ('unit', None), ('unit', None), ('unit', '300'), ('unit', '299'), ('tuple', '5', 'u8'), ('unit', '0x7FFF'))
enum('E5', 'A', 'u64', ('tuple', '1_000_000_000_000', 'A'), ('unit', None), ('tuple', '2', 'E_u8<A, A>'))
enum('E6', 'A B', 'u16', *[('unit', None)] * 9, ('named', None, 'A', 'u8'), ('tuple', None, 'B', 'A'), ('tuple', None, 'A'), ('unit', '0o400'), ('unit', None))
enum('E7', '', 'u8', ('unit', '200u8'), ('unit', None), ('tuple', '0xFE_u8', 'u8'), ('unit', None), ('unit', '000010'))

BOUND = 'Encode<Error: Into<GenericEncodeError>> + Decode<Error: Into<GenericDecodeError>> + SizedEncode'

def angle(gs, bound=''):
    return '<' + ', '.join(g + (': ' + bound if bound else '') for g in gs) + '>' if gs else ''

def body(style, fs, pub=''):
    if style == 'unit': return ''
    if style == 'tuple': return '(' + ', '.join(pub + f for f in fs) + ')'
    return ' { ' + ', '.join(f'{pub}{FIELD[i]}: {f}' for i, f in enumerate(fs)) + ' }'

def number(text):
    t = re.sub(r'[ui](8|16|32|64|128|size)$', '', text.replace('_', ''))
    return int(t, 0) if t[:2] in ('0x', '0o', '0b') else int(t)

def numbers(variants):
    prev = -1
    for v in variants:
        prev = number(v[1]) if v[1] else prev + 1
        yield prev

def source():
    out = ['use oct::{decode::Decode, encode::{Encode, SizedEncode}, error::{GenericDecodeError, GenericEncodeError}};']
    d = '#[derive(Encode, Decode, SizedEncode)]'
    for n, g, style, fs in STRUCTS:
        out.append(f"{d}\npub struct {n}{angle(g.split(), BOUND)}{body(style, fs, 'pub ')}{'' if style == 'named' else ';'}")
    for n, g, r, vs in ENUMS:
        rep = f'#[repr({r})]\n' if r else ''
        out.append(f"{rep}{d}\npub enum {n}{angle(g.split(), BOUND)} {{ " + ', '.join(f'V{i}{body(v[0], v[2:])}' + (f' = {v[1]}' if v[1] else '') for i, v in enumerate(vs)) + ' }')
    return '\n'.join(out) + '\n'

def pat(path, style, fs):
    names = [f'f{i}' for i in range(len(fs))]
    if style == 'unit': return path
    if style == 'tuple': return f'{path}(' + ', '.join(names) + ')'
    return f'{path} {{ ' + ', '.join(f'{FIELD[i]}: {x}' for i, x in enumerate(names)) + ' }'

def err(parts, wrap):
    return ' '.join(f'if !{p}.ok() {{ {wrap(i, p)} }} else' for i, p in enumerate(parts)) + ' { arbitrary() }'

def dec_fields(fs, n0, skip, value, wrap):
    out, n, b = '', n0, 'b' + skip
    for i, t in enumerate(fs):
        out += f'match <{t} as Decode>::dec({b}) {{ D::Panics => D::Panics, D::Err(e) => D::Err({wrap(t)}), D::Ok(v{i}, n{i}) => '
        b += f'.skip(n{i} as int)'; n += f' + n{i}'
    return out + f'D::Ok({value}, {n})' + ' }' * len(fs)

def conv(t, k):
    return f'into_of::<<{t} as {k}>::Error, Generic{k}Error>'

def contracts():
    C = Contracts()
    C.impls, C.types, C.aux, C.fields = dict(base.C.impls), dict(base.C.types), list(base.C.aux), dict(base.C.fields)
    C.invariants = base.C.invariants
    def put(n, g, emit, ok, er, dec, size, fits, vtype, vbody, rt):
        gs = g.split(); me = n + angle(gs); key = n + (angle(gs) or '<>')
        gen = angle(gs, 'Encode + Decode + SizedEncode'); vgen = gen
        C.type(n)
        C.impl(f'Encode for {key}', f'open spec fn emit(&self) -> Seq<u8> {{ {emit} }}\nopen spec fn ok(&self) -> bool {{ {ok} }}\nopen spec fn err(&self) -> Self::Error {{ {er} }}',
            fns={'encode': Fn()}, props='C14', header=f'impl{gen} Encode for {me}')
        C.impl(f'Decode for {key}', f'open spec fn dec(b: Seq<u8>) -> D<Self::V, Self::Error> {{ {dec} }}', fns={'decode': Fn()}, props='C14', header=f'impl{gen} Decode for {me}')
        C.impl(f'SizedEncode for {key}', f'open spec fn msize() -> nat {{ {size} }}\nproof fn fits(&self) {{ {fits} }}', fns={'MAX_ENCODED_SIZE': Fn()}, props='C14', header=f'impl{gen} SizedEncode for {me}')
        val = angle([f'{x}::V' for x in gs])
        C.lemma(f'{vtype}\nimpl{gen} Val for {me} {{ type V = {n}V{val}; open spec fn val(&self) -> Self::V {{ {vbody} }} }}')
        C.lemma(f"impl{angle(gs, 'RoundTrip + SizedEncode')} RoundTrip for {me} {{ proof fn round_trip(&self, rest: Seq<u8>) {{ {rt} }} }}", 'C14')
    def lifted(t, gs):      # the value type of a field type
        return re.sub(r'\b([A-Z])\b', r'\1', t)
    for n, g, style, fs in STRUCTS:
        gs = g.split(); ps = [f'f{i}' for i in range(len(fs))]
        p = pat('Self' if style != 'unit' else n, style, fs)
        open_ = f'let {p} = self; ' if ps else ''
        b = lambda x: f'match self {{ {p} => {{ {x} }} }}' if ps else x
        emit = base.cat_emit(ps) if ps else 'Seq::empty()'
        vfields = ', '.join(f'pub {x}' for x in vt(fs))
        put(n, g, b(emit), b(base.cat_ok(ps) if ps else 'true'), b(err(ps, lambda i, q: f"{conv(fs[i], 'Encode')}({q}.err())")),
            dec_fields(fs, '0', '', f'{n}V' + ('(' + ', '.join(f'v{i}' for i in range(len(fs))) + ')'), lambda t: f"{conv(t, 'Decode')}(e)"),
            ' + '.join(f'<{t} as SizedEncode>::msize()' for t in fs) or '0', b(' '.join(f'{q}.fits();' for q in ps)),
            f"pub struct {n}V{angle(vg(fs))}(" + ', '.join(f'pub X{i}' for i in range(len(fs))) + ');',
            b(f'{n}V(' + ', '.join(f'{q}.val()' for q in ps) + ')'), b(base.cat_rt(ps)) if ps else '')
        fix(C, n, fs)
    for n, g, r, vs in ENUMS:
        t = r or 'isize'
        ds = [f'({k}{t})' for k in numbers(vs)]
        arm = lambda f: 'match self { ' + ' '.join(f"{pat(f'Self::V{i}', v[0], v[2:])} => {{ {f(i, v, [ds[i]] + [f'f{j}' for j in range(len(v) - 2)])} }}" for i, v in enumerate(vs)) + ' }'
        def wrap(v):
            return lambda j, q: (f'EnumEncodeError::BadDiscriminant({q}.err())' if j == 0 else f"EnumEncodeError::BadField({conv(v[1 + j], 'Encode')}({q}.err()))")
        every = [f for v in vs for f in v[2:]]
        off = [sum(len(w) - 2 for w in vs[:i]) for i in range(len(vs))]
        dec = f'match <{t} as Decode>::dec(b) {{ D::Panics => D::Panics, D::Err(e) => D::Err(EnumDecodeError::InvalidDiscriminant(into_of(e))), D::Ok(d, n) => '
        for i, v in enumerate(vs):
            dec += f'if d == {ds[i]} {{ ' + dec_fields(v[2:], 'n', '.skip(n as int)', f'{n}V::V{i}(' + ', '.join(f'v{j}' for j in range(len(v) - 2)) + ')',
                lambda x: f"EnumDecodeError::BadField({conv(x, 'Decode')}(e))") + ' } else '
        dec += '{ D::Err(EnumDecodeError::UnassignedDiscriminant { value: d }) } }'
        sums = [' + '.join([f'{t}::msize()'] + [f'<{f} as SizedEncode>::msize()' for f in v[2:]]) for v in vs]
        size = sums[0]
        for s in sums[1:]: size = f'max2({size}, {s})'
        put(n, g, arm(lambda i, v, ps: base.cat_emit(ps)), arm(lambda i, v, ps: base.cat_ok(ps)), arm(lambda i, v, ps: err(ps, wrap(v))), dec,
            size, arm(lambda i, v, ps: ' '.join(f'{q}.fits();' for q in ps)),
            f"pub enum {n}V{angle(vg(every))} {{ " + ', '.join(f'V{i}(' + ', '.join(f'X{off[i] + j}' for j in range(len(v) - 2)) + ')' for i, v in enumerate(vs)) + ' }',
            arm(lambda i, v, ps: f'{n}V::V{i}(' + ', '.join(f'{q}.val()' for q in ps[1:]) + ')'), arm(lambda i, v, ps: base.cat_rt(ps)))
        fix(C, n, every)
    C.lemma('pub open spec fn max2(a: nat, b: nat) -> nat { if a < b { b } else { a } }')
    return C

def vt(fs): return [f'<{t} as Val>::V' for t in fs]
def vg(fs): return [f'X{i}' for i in range(len(fs))]

def fix(C, n, fs):
    # the value type has one parameter for each field
    text, props = C.aux[-2]
    args = ', '.join(vt(fs))
    C.aux[-2] = (re.sub(r'type V = %sV(?:<[^;]*>)?;' % n, lambda m: f'type V = {n}V' + (f'<{args}>' if fs else '') + ';', text), props)

NAMES = {x[0] for x in STRUCTS + ENUMS}

def adapt(items):
    """The expansion's items, with the bounds on field types (needed by rustc, not by the proof) left out."""
    out = []
    for it in items:
        owner = it['key'].split(' for ')[-1].split('<')[0]
        if owner not in NAMES: continue
        if it['kind'] in ('struct', 'enum'):
            gs = next(x[1] for x in STRUCTS + ENUMS if x[0] == owner).split()
            it = dict(it, generics=angle(gs, 'Encode + Decode + SizedEncode'), where='', fields=[re.sub(r'\s*=.*$', '', f) if it['kind'] == 'enum' else f for f in it['fields']])
            if not it['fields'] and [x for x in STRUCTS if x[0] == owner and x[2] == 'tuple']: it['fields'] = ['']
        else:
            for m in it['members']:
                for k in ('body', 'expr'):
                    if m.get(k): m[k] = re.sub(r'(?:::core::convert::)?Into\s*::\s*<\s*([\w:]+)\s*>\s*::\s*into\(', r'vf_conv::<_, \1>(', m[k])
        out.append(it)
    return out
