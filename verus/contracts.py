import re
from assemble import Contracts, Fn
C = Contracts()

# ------------------------------------------------------------------ C07: byte streams
C.type('Input', 'Output', 'InputError', 'OutputError')
C.impl('Input<\'a>', props='C07', fns={
    'new': Fn('ensures r.wf(), r.buf@ == buf@, r.pos == 0, r.rest() == buf@'),
    'read': Fn('''requires old(self).wf(),
        ensures
            r is Ok <==> count <= old(self).rest().len(),
            r is Ok ==> r->Ok_0@ =~= old(self).rest().take(count as int) && advanced(*old(self), *final(self), count as nat),
            r is Err ==> *final(self) == *old(self)
                && r->Err_0 == (InputError { capacity: old(self).buf@.len() as usize, position: old(self).pos, count }),'''),
    'read_into': Fn('''requires old(self).wf(),
        ensures
            final(buf)@.len() == old(buf)@.len(),
            r is Ok <==> old(buf)@.len() <= old(self).rest().len(),
            r is Ok ==> final(buf)@ =~= old(self).rest().take(old(buf)@.len() as int) && advanced(*old(self), *final(self), old(buf)@.len()),
            r is Err ==> *final(self) == *old(self) && final(buf)@ == old(buf)@
                && r->Err_0 == (InputError { capacity: old(self).buf@.len() as usize, position: old(self).pos, count: old(buf)@.len() as usize }),'''),
    'capacity': Fn('ensures r == self.buf@.len()'),
    'remaining': Fn('requires self.wf() ensures r == self.rest().len(), r + self.pos == self.buf@.len(), self.buf@.len() <= usize::MAX'),
    'position': Fn('ensures r == self.pos'),
})
C.impl('Output<\'a>', props='C07', fns={
    'new': Fn('ensures r.wf(), final(r.buf)@ == final(buf)@, r.all() == old(buf)@, r.pos == 0, r.written() == Seq::<u8>::empty(), r.unwritten() == old(buf)@'),
    'write': Fn('''requires old(self).wf(),
        ensures
            r is Ok <==> data@.len() <= old(self).room(),
            r is Ok ==> final(self).written() =~= old(self).written() + data@ && appended(*old(self), *final(self), data@),
            r is Err ==> final(self).all() == old(self).all() && final(self).pos == old(self).pos && final(final(self).buf)@ == final(old(self).buf)@
                && r->Err_0 == (OutputError { capacity: old(self).all().len() as usize, position: old(self).pos, count: data@.len() as usize }),'''),
    'as_slice': Fn('requires self.wf() ensures r@ =~= self.written()'),
    'capacity': Fn('ensures r == self.all().len()'),
    'remaining': Fn('requires self.wf() ensures r == self.room(), r + self.pos == self.all().len(), self.all().len() <= usize::MAX'),
    'position': Fn('ensures r == self.pos'),
})

# ------------------------------------------------------------------ scalars
NONE = 'arbitrary()'

def enc(key, emit, ok='true', err=NONE, props='', fns=None, **kw):
    C.impl(key, f'''open spec fn emit(&self) -> Seq<u8> {{ {emit} }}
        open spec fn ok(&self) -> bool {{ {ok} }}
        open spec fn err(&self) -> Self::Error {{ {err} }}''', fns=fns or {'encode': Fn()}, props=props, **kw)

def dec(key, body, props='', fns=None, **kw):
    C.impl(key, f'open spec fn dec(b: Seq<u8>) -> D<Self::V, Self::Error> {{ {body} }}', fns=fns or {'decode': Fn()}, props=props, **kw)

def size(key, expr, fits='', props='C06', start=''):
    C.impl(key, f'''open spec fn msize() -> nat {{ {expr} }}
        proof fn fits(&self) {{ {fits} }}''', fns={'MAX_ENCODED_SIZE': Fn(start=start)}, props=props)

def val(header, ty, v, body):
    C.lemma(f'impl{header} Val for {ty} {{ type V = {v}; open spec fn val(&self) -> Self::V {{ {body} }} }}')

def rt(header, ty, proof, props):
    C.lemma(f'impl{header} RoundTrip for {ty} {{ proof fn round_trip(&self, rest: Seq<u8>) {{ {proof} }} }}', props)

W = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'u128': 16, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'i128': 16, 'f32': 4, 'f64': 8}
for t, w in W.items():
    top = 1 << 8 * w
    if t[0] == 'u':
        bits, of, v, value = '*self as nat' , f'n as {t}', t, '*self'
    elif t[0] == 'i':
        bits, of, v, value = f'(if *self < 0 {{ *self + {top} }} else {{ *self as int }}) as nat', f'(if n >= {top // 2} {{ (n - {top}) as {t} }} else {{ n as {t} }})', t, '*self'
    else:
        bits, of, v, value = f'{t}_bits(*self)', 'arbitrary()', 'nat', f'{t}_bits(*self)'
    val('', t, v, value)
    C.lemma(f'''impl VfNum<{w}> for {t} {{
        open spec fn bits(self) -> nat {{ {bits.replace('*self', 'self')} }}
        open spec fn of_bits(n: nat) -> Self {{ {of} }}
        #[verifier::external_body] fn vf_to_le_bytes(&self) -> [u8; {w}] {{ self.to_le_bytes() }}
        #[verifier::external_body] fn vf_from_le_bytes(b: [u8; {w}]) -> Self {{ <{t}>::from_le_bytes(b) }}
    }}''')
    enc(f'Encode for {t}', f'le_of(self.bits(), {w})', props='C01 C05', fns={'encode': Fn()})
    out = 'nat_of(b.take(%d))' % w
    if t[0] != 'f':
        out = f'Self::of_bits({out})'
    dec(f'Decode for {t}', f'if b.len() < {w} {{ D::Panics }} else {{ D::Ok({out}, {w}) }}', props='C01 C05 C08',
        fns={'decode': Fn(start=f'pow256s(); if input.rest().len() >= {w} {{ nat_of_bound(input.rest().take({w})); }}')})
    size(f'SizedEncode for {t}', str(w), f'le_of_len(self.bits(), {w});', start='float_sizes();' if t[0] == 'f' else '')
    bound = f'{t}_bits_bound(*self);' if t[0] == 'f' else ''
    rt('', t, f'''le_of_len(self.bits(), {w}); pow256s(); {bound} le_of_nat_of(self.bits(), {w});
        assert((self.emit() + rest).take({w}) =~= self.emit());''', 'C01')

val('', 'bool', 'bool', '*self')
enc('Encode for bool', '(if *self { 1u8 } else { 0u8 }).emit()', props='C01 C05')
dec('Decode for bool', 'match u8::dec(b) { D::Ok(v, n) => D::Ok(v != 0, n), D::Err(e) => D::Err(e), D::Panics => D::Panics }', props='C01 C05 C08')
size('SizedEncode for bool', '1', '(if *self { 1u8 } else { 0u8 }).fits();')
rt('', 'bool', '(if *self { 1u8 } else { 0u8 }).round_trip(rest);', 'C01')

val('', 'char', 'char', '*self')
enc('Encode for char', '(*self as u32).emit()', props='C01 C05')
C.type('CharDecodeError', 'NonZeroDecodeError', 'UsizeEncodeError', 'IsizeEncodeError')
dec('Decode for char', '''match u32::dec(b) { D::Panics => D::Panics, D::Err(e) => D::Err(arbitrary()),
    D::Ok(c, n) => if c <= 0xD7FF || 0xE000 <= c <= 0x10FFFF { D::Ok(c as char, n) } else { D::Err(CharDecodeError { code_point: c }) } }''', props='C01 C05 C08 C15')
size('SizedEncode for char', '4', '(*self as u32).fits();')
rt('', 'char', '(*self as u32).round_trip(rest);', 'C01')

val('', 'usize', 'usize', '*self')
enc('Encode for usize', 'if self.ok() { (*self as u16).emit() } else { Seq::empty() }', '*self <= 0xffff', 'UsizeEncodeError(*self)', props='C01 C05 C09 C15')
dec('Decode for usize', 'match u16::dec(b) { D::Ok(v, n) => D::Ok(v as usize, n), D::Err(e) => D::Err(e), D::Panics => D::Panics }', props='C01 C05 C08')
size('SizedEncode for usize', '2', 'if self.ok() { (*self as u16).fits(); }')
rt('', 'usize', '(*self as u16).round_trip(rest);', 'C01')

val('', 'isize', 'isize', '*self')
enc('Encode for isize', 'if self.ok() { (*self as i16).emit() } else { Seq::empty() }', '-0x8000 <= *self <= 0x7fff', 'IsizeEncodeError(*self)', props='C01 C05 C09 C15')
dec('Decode for isize', 'match i16::dec(b) { D::Ok(v, n) => D::Ok(v as isize, n), D::Err(e) => D::Err(e), D::Panics => D::Panics }', props='C01 C05 C08')
size('SizedEncode for isize', '2', 'if self.ok() { (*self as i16).fits(); }')
rt('', 'isize', '(*self as i16).round_trip(rest);', 'C01')

INTS = [t for t in W if t[0] != 'f'] + ['usize', 'isize']
for t in INTS:
    nz = f'::core::num::NonZero<{t}>'
    val('', nz, t, 'self@')
    enc(f'Encode for {nz}', f'self@.emit()', f'self@.ok()', f'self@.err()', props='C01 C05 C09')
    dec(f'Decode for {nz}', f'match {t}::dec(b) {{ D::Ok(v, n) => if v == 0 {{ D::Err(NonZeroDecodeError) }} else {{ D::Ok(v, n) }}, D::Err(e) => D::Err(arbitrary()), D::Panics => D::Panics }}', props='C01 C08 C15', fns={'decode': Fn(start='wide_zero();')})
    size(f'SizedEncode for {nz}', f'<{t}>::msize()', f'self@.fits();')
    rt('', nz, 'wide_zero(); assert(self@ != 0); self@.round_trip(rest);', 'C01')

# ------------------------------------------------------------------ compounds and wrappers
C.type('CollectionDecodeError', 'CollectionEncodeError', 'EnumDecodeError', 'EnumEncodeError', 'ItemDecodeError', 'ItemEncodeError', 'LengthError',
       'RefCellEncodeError')

def seq_dec(parts, value):
    """parts: (variable, type, error wrapper); nested matches, left to right."""
    out, close, b, n = '', '', 'b', []
    for k, (v, t, w) in enumerate(parts):
        e = w('e') if w else 'arbitrary()'
        out += f'match <{t} as Decode>::dec({b}) {{ D::Panics => D::Panics, D::Err(e) => D::Err({e}), D::Ok({v}, n{k}) => '
        close += ' }'
        b += f'.skip(n{k} as int)'
        n.append(f'n{k}')
    return out + f'D::Ok({value}, {" + ".join(n) or "0"})' + close

same = lambda e: e

def cat_emit(parts):
    """parts: expressions encoded in order"""
    if len(parts) == 1:
        return f'{parts[0]}.emit()'
    return f'(if {parts[0]}.ok() {{ {parts[0]}.emit() + {cat_emit(parts[1:])} }} else {{ {parts[0]}.emit() }})'

def cat_ok(parts):
    return ' && '.join(f'{p}.ok()' for p in parts)

def cat_err(parts):
    if len(parts) == 1:
        return f'{parts[0]}.err()'
    return f'(if !{parts[0]}.ok() {{ {parts[0]}.err() }} else {{ {cat_err(parts[1:])} }})'

def cat_rt(parts):
    """proof that the parts decode one after the other"""
    out, tail = '', 'rest'
    for p in reversed(parts):
        out = f'{p}.round_trip({tail}); seq_skip_add({p}.emit(), {tail}); ' + out
        tail = f'({p}.emit() + {tail})'
    return out + f'assert(self.emit() + rest == {tail}); '

# transparent wrappers: (key type, header for Val/RoundTrip, inner value expression, decode?, sized?)
def wrapper(ty, gen, inner, val_inner=None, decode=True, ok=None, roundtrip=True, enc_key=None, props='C02 C05', bound='', unsized=True):
    q = ' + ?Sized' if unsized else ''
    enc(f'Encode for {ty}', f'{inner}.emit()', f'{inner}.ok()', f'{inner}.err()', props=props)
    size(f'SizedEncode for {ty}', 'T::msize()', f'{inner}.fits();')
    if decode:
        val(f'<T: Val{q}>', ty, 'T::V', f'{inner}.val()')
        dec(f'Decode for {ty}', seq_dec([('v', 'T', same)], 'v'), props='C02 C08')
        rt('<T: RoundTrip>', ty, f'{inner}.round_trip(rest);', 'C02')

wrapper('&T', '', '(**self)', decode=False)
wrapper('&mut T', '', '(**self)', decode=False)
wrapper('Box<T>', '', '(**self)')
wrapper('Arc<T>', '', '(**self)')
wrapper('Rc<T>', '', '(**self)')
wrapper('Wrapping<T>', '', 'self.0', unsized=False)
wrapper('Saturating<T>', '', 'self.0', unsized=False)
wrapper('Mutex<T>', '', 'mutex_val(self)')
wrapper('RwLock<T>', '', 'rwlock_val(self)')

enc('Encode for Cell<T>', '(*cell_val(self)).emit()', '(*cell_val(self)).ok()', '(*cell_val(self)).err()', props='C02 C05')
size('SizedEncode for Cell<T>', 'T::msize()', '(*cell_val(self)).fits();')
val('<T: Val + ?Sized>', 'Cell<T>', 'T::V', '(*cell_val(self)).val()')
dec('Decode for Cell<T>', seq_dec([('v', 'T', same)], 'v'), props='C02 C08')
rt('<T: Copy + RoundTrip>', 'Cell<T>', '(*cell_val(self)).round_trip(rest);', 'C02')

enc('Encode for RefCell<T>', 'if refcell_free(self) { refcell_val(self).emit() } else { Seq::empty() }', 'refcell_free(self) && refcell_val(self).ok()',
    'if refcell_free(self) { RefCellEncodeError::BadValue(refcell_val(self).err()) } else { RefCellEncodeError::BadBorrow(refcell_err(self)) }', props='C02 C05 C09 C15')
size('SizedEncode for RefCell<T>', 'T::msize()', 'refcell_val(self).fits();')
val('<T: Val + ?Sized>', 'RefCell<T>', 'T::V', 'refcell_val(self).val()')
dec('Decode for RefCell<T>', seq_dec([('v', 'T', same)], 'v'), props='C02 C08')
rt('<T: RoundTrip>', 'RefCell<T>', 'refcell_val(self).round_trip(rest);', 'C02')

enc('Encode for Option<T>', 'match *self { Some(v) => true.emit() + v.emit(), None => false.emit() }', '*self is Some ==> self->Some_0.ok()', 'self->Some_0.err()', props='C02 C05')
size('SizedEncode for Option<T>', '1 + T::msize()', 'true.fits(); false.fits(); if let Some(v) = *self { v.fits(); }')
val('<T: Val>', 'Option<T>', 'Option<T::V>', 'match *self { Some(v) => Some(v.val()), None => None }')
dec('Decode for Option<T>', '''match bool::dec(b) { D::Panics => D::Panics, D::Err(e) => D::Err(arbitrary()), D::Ok(sign, n) => if sign {
    match T::dec(b.skip(n as int)) { D::Panics => D::Panics, D::Err(e) => D::Err(e), D::Ok(v, m) => D::Ok(Some(v), n + m) } } else { D::Ok(None, n) } }''', props='C02 C05 C08')
rt('<T: RoundTrip>', 'Option<T>', '''match *self {
    Some(v) => { true.round_trip(v.emit() + rest); v.round_trip(rest); cat(true.emit(), v.emit(), rest); }
    None => { false.round_trip(rest); } }''', 'C02')

enc('Encode for Result<T, E>', 'match *self { Ok(v) => false.emit() + v.emit(), Err(e) => true.emit() + e.emit() }', 'match *self { Ok(v) => v.ok(), Err(e) => e.ok() }',
    'match *self { Ok(v) => v.err(), Err(e) => into_of::<E::Error, T::Error>(e.err()) }', props='C02 C05')
size('SizedEncode for core::result::Result<T, E>', '1 + if T::msize() > E::msize() { T::msize() } else { E::msize() }', 'true.fits(); false.fits(); match *self { Ok(v) => { v.fits(); } Err(e) => { e.fits(); } }')
val('<T: Val, E: Val>', 'Result<T, E>', 'Result<T::V, E::V>', 'match *self { Ok(v) => Ok(v.val()), Err(e) => Err(e.val()) }')
dec('Decode for Result<T, E>', '''match bool::dec(b) { D::Panics => D::Panics, D::Err(e) => D::Err(arbitrary()), D::Ok(sign, n) => if sign {
    match E::dec(b.skip(n as int)) { D::Panics => D::Panics, D::Err(e) => D::Err(EnumDecodeError::BadField(e)), D::Ok(v, m) => D::Ok(Err(v), n + m) } } else {
    match T::dec(b.skip(n as int)) { D::Panics => D::Panics, D::Err(e) => D::Err(EnumDecodeError::BadField(EE)), D::Ok(v, m) => D::Ok(Ok(v), n + m) } } }''', props='C02 C05 C08')
C.impls['Decode for Result<T, E>']['items'] = C.impls['Decode for Result<T, E>']['items'].replace('EE', 'e')
enc('Encode for Bound<T>', 'match *self { Bound::Included(v) => 0u8.emit() + v.emit(), Bound::Excluded(v) => 1u8.emit() + v.emit(), Bound::Unbounded => 2u8.emit() }',
    'match *self { Bound::Included(v) => v.ok(), Bound::Excluded(v) => v.ok(), Bound::Unbounded => true }',
    'EnumEncodeError::BadField(match *self { Bound::Included(v) => v.err(), Bound::Excluded(v) => v.err(), Bound::Unbounded => arbitrary() })', props='C02 C05 C15')
size('SizedEncode for Bound<T>', '1 + T::msize()', '0u8.fits(); 1u8.fits(); 2u8.fits(); match *self { Bound::Included(v) => { v.fits(); } Bound::Excluded(v) => { v.fits(); } _ => {} }')
val('<T: Val>', 'Bound<T>', 'Bound<T::V>', 'match *self { Bound::Included(v) => Bound::Included(v.val()), Bound::Excluded(v) => Bound::Excluded(v.val()), Bound::Unbounded => Bound::Unbounded }')
dec('Decode for Bound<T>', '''match u8::dec(b) { D::Panics => D::Panics, D::Err(e) => D::Err(arbitrary()), D::Ok(d, n) =>
    if d == 2 { D::Ok(Bound::Unbounded, n) } else if d > 2 { D::Err(EnumDecodeError::UnassignedDiscriminant { value: d }) } else {
    match T::dec(b.skip(n as int)) { D::Panics => D::Panics, D::Err(e) => D::Err(EnumDecodeError::BadField(e)), D::Ok(v, m) => D::Ok(if d == 0 { Bound::Included(v) } else { Bound::Excluded(v) }, n + m) } } }''', props='C02 C05 C08 C15')
rt('<T: RoundTrip>', 'Bound<T>', '''match *self {
    Bound::Included(v) => { 0u8.round_trip(v.emit() + rest); v.round_trip(rest); cat(0u8.emit(), v.emit(), rest); }
    Bound::Excluded(v) => { 1u8.round_trip(v.emit() + rest); v.round_trip(rest); cat(1u8.emit(), v.emit(), rest); }
    Bound::Unbounded => { 2u8.round_trip(rest); } }''', 'C02')
rt('<T: RoundTrip + Decode<Error = F>, E: RoundTrip + Decode<Error = F>, F>', 'Result<T, E> where <E as Encode>::Error: Into<<T as Encode>::Error>', '''match *self {
    Ok(v) => { false.round_trip(v.emit() + rest); v.round_trip(rest); cat(false.emit(), v.emit(), rest); }
    Err(v) => { true.round_trip(v.emit() + rest); v.round_trip(rest); cat(true.emit(), v.emit(), rest); } }''', 'C02')

def record(ty, gen, parts, bounds='', props='C02 C05', decw=None, sized=True, start=''):
    """parts: (field expression, type) in order"""
    exprs = [p for p, _ in parts]

# ranges
for ty, parts, v, vv in [
    ('Range<T>', ['self.start', 'self.end'], 'Range<T::V>', 'Range { start: self.start.val(), end: self.end.val() }'),
    ('RangeInclusive<T>', ['self@.start', 'self@.end'], '(T::V, T::V)', '(self@.start.val(), self@.end.val())'),
    ('RangeFrom<T>', ['self.start'], 'T::V', 'self.start.val()'),
    ('RangeTo<T>', ['self.end'], 'T::V', 'self.end.val()'),
    ('RangeToInclusive<T>', ['self.end'], 'T::V', 'self.end.val()'),
]:
    two = len(parts) == 2
    enc(f'Encode for {ty}', cat_emit(parts), cat_ok(parts), cat_err(parts), props='C02 C05')
    size(f'SizedEncode for {ty}', 'T::msize() * 2' if two else 'T::msize()', ' '.join(p + '.fits();' for p in parts))
    val('<T: Val>', ty, v, vv)
    value = ('Range { start: v0, end: v1 }' if ty == 'Range<T>' else '(v0, v1)') if two else 'v0'
    dec(f'Decode for {ty}', seq_dec([(f'v{k}', 'T', same) for k in range(len(parts))], value), props='C02 C05 C08')
    rt('<T: RoundTrip>', ty, cat_rt(parts), 'C02')

# units
for ty, g, sized in [('RangeFull', '', True), ('PhantomData<T>', '<T>', True), ('PhantomPinned', '', False), ('()', '', True)]:
    enc(f'Encode for {ty}', 'Seq::empty()', props='C02 C05')
    if sized:
        size(f'SizedEncode for {ty}', '0')
    val(g, ty, '()', '()')
    dec(f'Decode for {ty}', 'D::Ok((), 0)', props='C02 C05 C08')
    rt(g, ty, '', 'C02')

# tuples
enc('Encode for (T,)', 'self.0.emit()', 'self.0.ok()', 'self.0.err()', props='C02 C05')
size('SizedEncode for (T,)', 'T::msize()', 'self.0.fits();')
val('<T: Val>', '(T,)', '(T::V,)', '(self.0.val(),)')
dec('Decode for (T,)', seq_dec([('v', 'T', same)], '(v,)'), props='C02 C08')
rt('<T: RoundTrip>', '(T,)', 'self.0.round_trip(rest);', 'C02')
for n in range(2, 13):
    ts = [f'T{k}' for k in range(n)]
    ty = '(' + ', '.join(ts) + ')'
    parts = [f'self.{k}' for k in range(n)]
    enc(f'Encode for {ty}', cat_emit(parts), cat_ok(parts), cat_err(parts), props='C02 C05')
    size(f'SizedEncode for {ty}', ' + '.join(f'{t}::msize()' for t in ts), ' '.join(p + '.fits();' for p in parts))
    val('<' + ', '.join(f'{t}: Val' for t in ts) + '>', ty, '(' + ', '.join(f'{t}::V' for t in ts) + ')', '(' + ', '.join(p + '.val()' for p in parts) + ')')
    dec(f'Decode for {ty}', seq_dec([(f'v{k}', t, same) for k, t in enumerate(ts)], '(' + ', '.join(f'v{k}' for k in range(n)) + ')'), props='C02 C05 C08')
    g = '<' + ', '.join(f'{t}: RoundTrip + Encode<Error = E> + Decode<Error = F>' for t in ts) + ', E, F>'
    rt('<E, F, ' + ', '.join(f'{t}: RoundTrip + Encode<Error = E> + Decode<Error = F>' for t in ts) + '>', ty, cat_rt(parts), 'C02')

# ------------------------------------------------------------------ sequences
def seq_loop(elems, prefix):
    return dict(
        loop0=f'''invariant vf_m0 == {elems}.len(), vf_n0 <= vf_m0, oks({elems}.take(vf_n0 as int)), {elems + '.len() <= 0xffff,' if prefix else ''}
            appended(*old(output), *output, {prefix}emits({elems}.take(vf_n0 as int))),
//A         old(output).room() >= ({prefix}emits({elems})).len(),
        decreases vf_m0 - vf_n0''',
        head0=f'emits_step({elems}, vf_n0 as int);',
        after0=f'emits_prefix({elems}, {elems}.len() as int);')

enc('Encode for [T; N]', 'emits(self@)', 'oks(self@)',
    'CollectionEncodeError::BadItem(ItemEncodeError { index: first_bad(self@) as usize, error: self@[first_bad(self@)].err() })',
    props='C02 C05 C09 C15', fns={'encode': Fn(start='assert(self@.take(0) =~= Seq::empty());', **seq_loop('self@', ''))})
size('SizedEncode for [T; N]', 'T::msize() * N as nat', 'emits_fit(self@);')
enc('Encode for [T]', 'if self@.len() > 0xffff { Seq::empty() } else { (self@.len() as usize).emit() + emits(self@) }', 'self@.len() <= 0xffff && oks(self@)',
    '''if self@.len() > 0xffff { CollectionEncodeError::BadLength(UsizeEncodeError(self@.len() as usize)) }
       else { CollectionEncodeError::BadItem(ItemEncodeError { index: first_bad(self@) as usize, error: self@[first_bad(self@)].err() }) }''',
    props='C03 C05 C09 C15', fns={'encode': Fn(start='assert(self@.take(0) =~= Seq::empty());', **seq_loop('self@', '(self@.len() as usize).emit() + '))})

C.lemma("""/// The encoding of a sequence with a length in front.
pub open spec fn seq_emit<T: Encode>(s: Seq<T>) -> Seq<u8> { if s.len() > 0xffff { Seq::empty() } else { (s.len() as usize).emit() + emits(s) } }
pub open spec fn seq_ok<T: Encode>(s: Seq<T>) -> bool { s.len() <= 0xffff && oks(s) }
pub open spec fn seq_err<T: Encode>(s: Seq<T>) -> CollectionEncodeError<UsizeEncodeError, ItemEncodeError<usize, T::Error>> {
    if s.len() > 0xffff { CollectionEncodeError::BadLength(UsizeEncodeError(s.len() as usize)) }
    else { CollectionEncodeError::BadItem(ItemEncodeError { index: first_bad(s) as usize, error: s[first_bad(s)].err() }) }
}
/// Its decoding.
pub open spec fn seq_dec<T: Decode>(b: Seq<u8>) -> D<Seq<T::V>, CollectionDecodeError<Infallible, ItemDecodeError<usize, T::Error>>> {
    match usize::dec(b) { D::Panics => D::Panics, D::Err(e) => D::Err(arbitrary()), D::Ok(len, n) => seq_items::<T>(b, n, len as nat) }
}
/// `len` items behind `n` bytes.
pub open spec fn seq_items<T: Decode>(b: Seq<u8>, n: nat, len: nat) -> D<Seq<T::V>, CollectionDecodeError<Infallible, ItemDecodeError<usize, T::Error>>> {
    match decs::<T>(b.skip(n as int), len) { D::Panics => D::Panics, D::Ok(vs, k) => D::Ok(vs, n + k), D::Err(e) => D::Err(CollectionDecodeError::BadItem(e)) }
}
/// A decoding loop after `k` items behind `n` bytes.
pub open spec fn seq_state<T: Decode>(from: Input, to: Input, n: nat, k: nat, vals: Seq<T::V>) -> bool {
    let d = decs::<T>(from.rest().skip(n as int), k);
    d is Ok && d->Ok_0 == vals && n + d->Ok_1 <= from.rest().len() && advanced(from, to, n + d->Ok_1)
}
pub proof fn seq_step<T: Decode>(b: Seq<u8>, n: nat, k: nat, len: nat)
    requires k < len, n <= b.len(), decs::<T>(b.skip(n as int), k) is Ok
    ensures ({ let d = decs::<T>(b.skip(n as int), k); let at = n + d->Ok_1;
        at <= b.len() ==> match T::dec(b.skip(at as int)) {
            D::Ok(v, j) => decs::<T>(b.skip(n as int), k + 1) == D::<Seq<T::V>, ItemDecodeError<usize, T::Error>>::Ok(d->Ok_0.push(v), d->Ok_1 + j),
            D::Err(e) => decs::<T>(b.skip(n as int), len) == D::<Seq<T::V>, ItemDecodeError<usize, T::Error>>::Err(ItemDecodeError { index: k as usize, error: e }),
            D::Panics => decs::<T>(b.skip(n as int), len) is Panics } })
{
    let c = b.skip(n as int);
    let d = decs::<T>(c, k);
    if n + d->Ok_1 <= b.len() { assert(c.skip(d->Ok_1 as int) =~= b.skip((n + d->Ok_1) as int)); }
    decs_prefix::<T>(c, k + 1, len);
}
pub proof fn seq_round_trip<T: RoundTrip>(s: Seq<T>, rest: Seq<u8>)
    requires seq_ok(s)
    ensures seq_dec::<T>(seq_emit(s) + rest) == D::<Seq<T::V>, CollectionDecodeError<Infallible, ItemDecodeError<usize, <T as Decode>::Error>>>::Ok(vals(s), seq_emit(s).len())
{
    let len = s.len() as usize;
    len.round_trip(emits(s) + rest);
    decs_emits(s, rest);
    cat(len.emit(), emits(s), rest);
}""", 'C02 C03')

# loops that encode / decode the elements of a sequence
def enc_loop(elems, prefix):
    h = seq_loop(elems, prefix)
    return Fn(start='assert(%s.take(0) =~= Seq::empty());' % elems, **h)

def dec_loop(n, vals, inv='', last='', start='', T='T', state='seq_state::<{T}>(*old(input), *input, {n}, vf_n0 as nat, {v})'):
    return Fn(start=start, loop0=f"""invariant input.wf(), vf_n0 <= vf_m0, {n} <= old(input).rest().len(), {inv}
            {state.format(T=T, n=n, v=vals and vals('vf_n0 as int'))},
//A         !(seq_items::<{T}>(old(input).rest(), {n}, vf_m0 as nat) is Panics),
        decreases vf_m0 - vf_n0""",
        head0=f'seq_step::<{T}>(old(input).rest(), {n}, vf_n0 as nat, vf_m0 as nat);', tail0=last,
        before0=f'assert({vals("0")} =~= Seq::empty());' if vals else '')

val('<T: Val, const N: usize>', '[T; N]', 'Seq<T::V>', 'vals(self@)')
dec('Decode for [T; N]', 'seq_items::<T>(b, 0, N as nat)', props='C02 C05 C08 C15', fns={'decode': dec_loop('0', lambda k: f'vals(held::<T>(buf@, {k}))',
    'vf_m0 == N, forall|i: int| 0 <= i < vf_n0 ==> (#[trigger] mu::<T>(buf@[i])) is Some,', 'assert(vals(held::<T>(buf@, vf_n0 as int)) =~= decs::<T>(old(input).rest().skip(0), vf_n0 as nat)->Ok_0); assert(vals(held::<T>(buf@, vf_n0 + 1)) =~= vals(held::<T>(buf@, vf_n0 as int)).push(held::<T>(buf@, vf_n0 + 1)[vf_n0 as int].val()));',
    start='assert(input.rest().skip(0) =~= input.rest());')})
rt('<T: RoundTrip, const N: usize>', '[T; N]', 'decs_emits(self@, rest); assert((self.emit() + rest).skip(0) =~= self.emit() + rest);', 'C02')

C.impls['Encode for [T]']['items'] = '''open spec fn emit(&self) -> Seq<u8> { seq_emit(self@) }
        open spec fn ok(&self) -> bool { seq_ok(self@) }
        open spec fn err(&self) -> Self::Error { seq_err(self@) }'''
enc('Encode for Vec<T>', 'seq_emit(self@)', 'seq_ok(self@)', 'seq_err(self@)', props='C03 C05 C09 C15')
val('<T: Val>', 'Vec<T>', 'Seq<T::V>', 'vals(self@)')
dec('Decode for Vec<T>', 'seq_dec::<T>(b)', props='C03 C05 C08 C15', fns={'decode': dec_loop('2', lambda k: f'vals(kept::<T>(spare(&this), {k}))',
    'usize::dec(old(input).rest()) == D::<usize, Infallible>::Ok(vf_m0, 2), this@ =~= Seq::empty(), vf_m0 == len, spare(&this).len() >= len, forall|i: int| 0 <= i < vf_n0 ==> (#[trigger] spare(&this)[i]) is Some,',
    '''assert(vals(kept::<T>(spare(&this), vf_n0 as int)) =~= decs::<T>(old(input).rest().skip(2), vf_n0 as nat)->Ok_0);
    assert(vals(kept::<T>(spare(&this), vf_n0 + 1)) =~= vals(kept::<T>(spare(&this), vf_n0 as int)).push(kept::<T>(spare(&this), vf_n0 + 1)[vf_n0 as int].val()));''')})
rt('<T: RoundTrip>', 'Vec<T>', 'seq_round_trip(self@, rest);', 'C03')

C.lemma("""pub open spec fn list_err<T: Encode>(s: Seq<T>) -> CollectionEncodeError<UsizeEncodeError, (usize, T::Error)> {
    if s.len() > 0xffff { CollectionEncodeError::BadLength(UsizeEncodeError(s.len() as usize)) }
    else { CollectionEncodeError::BadItem((first_bad(s) as usize, s[first_bad(s)].err())) } }""")
enc('Encode for LinkedList<T>', 'seq_emit(list(self))', 'seq_ok(list(self))', 'list_err(list(self))', props='C03 C05 C09 C15',
    fns={'encode': enc_loop('list(self)', '(list(self).len() as usize).emit() + ')})
val('<T: Val>', 'LinkedList<T>', 'Seq<T::V>', 'vals(list(self))')
dec('Decode for LinkedList<T>', 'seq_dec::<T>(b)', props='C03 C05 C08 C15', fns={'decode': dec_loop('2', lambda k: 'vals(list(&this))',
    'usize::dec(old(input).rest()) == D::<usize, Infallible>::Ok(vf_m0, 2), list(&this).len() == vf_n0,', '''assert(vals(list(&this)) =~= decs::<T>(old(input).rest().skip(2), vf_n0 as nat)->Ok_0.push(list(&this)[vf_n0 as int].val()));''')})
rt('<T: RoundTrip>', 'LinkedList<T>', 'seq_round_trip(list(self), rest);', 'C03')

# text
C.type('Utf8Error', 'CStringDecodeError')
enc('Encode for str', 'seq_emit(encode_utf8(self@))', 'seq_ok(encode_utf8(self@))', 'seq_err(encode_utf8(self@))', props='C03 C05 C09')
enc('Encode for String', 'seq_emit(encode_utf8(self@))', 'seq_ok(encode_utf8(self@))', 'seq_err(encode_utf8(self@))', props='C03 C05 C09')
C.lemma("""/// A length and that many bytes.
pub open spec fn bytes_dec(b: Seq<u8>) -> D<Seq<u8>, Infallible> {
    match usize::dec(b) { D::Panics => D::Panics, D::Err(e) => D::Err(e), D::Ok(len, n) => if n + len <= b.len() { D::Ok(b.subrange(n as int, n + len), n + len as nat) } else { D::Panics } }
}
pub proof fn bytes_round_trip(s: Seq<u8>, rest: Seq<u8>)
    requires s.len() <= 0xffff
    ensures bytes_dec(seq_emit(s) + rest) == D::<Seq<u8>, Infallible>::Ok(s, seq_emit(s).len()), seq_ok(s), emits(s) == s
{
    let len = s.len() as usize;
    emits_bytes(s);
    len.round_trip(s + rest);
    cat(len.emit(), s, rest);
    let all = seq_emit(s) + rest;
    assert(all.subrange(2, 2 + len) =~= s);
}""", 'C03')
val('', 'String', 'Seq<char>', 'self@')
dec('Decode for String', '''match bytes_dec(b) { D::Panics => D::Panics, D::Err(e) => D::Err(arbitrary()), D::Ok(s, n) =>
    if valid_utf8(s) { D::Ok(decode_utf8(s), n) } else { D::Err(CollectionDecodeError::BadItem(Utf8Error { value: s[utf8_prefix(s)], index: utf8_prefix(s) as usize })) } }''',
    props='C03 C05 C08 C15', fns={'decode': Fn(start='assert forall|e: core::str::Utf8Error, s: Seq<u8>| is_utf8_prefix(s, #[trigger] utf8_at(&e)) implies utf8_at(&e) == #[trigger] utf8_prefix(s) by { utf8_prefix_is(s, utf8_at(&e)); } assert forall|s: Seq<u8>, n: int| 0 <= n && 2 + n <= s.len() implies #[trigger] s.skip(2).take(n) == s.subrange(2, 2 + n) by { assert(s.skip(2).take(n) =~= s.subrange(2, 2 + n)); }')})
rt('', 'String', 'let s = encode_utf8(self@); bytes_round_trip(s, rest); encode_utf8_valid_utf8(self@); encode_utf8_decode_utf8(self@);', 'C03')
enc('Encode for CStr', 'seq_emit(cstr(self))', 'seq_ok(cstr(self))', 'seq_err(cstr(self))', props='C03 C05 C09')
enc('Encode for CString', 'seq_emit(cstring(self))', 'seq_ok(cstring(self))', 'seq_err(cstring(self))', props='C03 C05 C09')
val('', 'CString', 'Seq<u8>', 'cstring(self)')
dec('Decode for CString', '''match bytes_dec(b) { D::Panics => D::Panics, D::Err(e) => D::Err(arbitrary()), D::Ok(s, n) =>
    if has_nul(s) { D::Err(CStringDecodeError { index: nul_at(s) as usize }) } else { D::Ok(s, n) } }''', props='C03 C05 C08 C15',
    fns={'decode': Fn(loop0='''invariant vf_m0 == data@.len(), vf_n0 <= vf_m0, forall|j: int| 0 <= j < vf_n0 ==> data@[j] != 0, data@.len() == len,
            bytes_dec(old(input).rest()) == D::<Seq<u8>, Infallible>::Ok(data@, 2 + len as nat), advanced(*old(input), *input, 2 + len as nat), 2 + len <= old(input).rest().len(),
        decreases vf_m0 - vf_n0''', head0='if data@[vf_n0 as int] == 0 { nul_at_is(data@, vf_n0 as int); }', before0='assert(data@ =~= old(input).rest().subrange(2, 2 + len));')})
rt('', 'CString', 'bytes_round_trip(cstring(self), rest); cstring_has_no_nul(self);', 'C03')

# ------------------------------------------------------------------ time and addresses
def record(ty, parts, v, mk, props, decprops, emit_parts=None, sizes=None, lemma='', v_of=None):
    """a value written as its parts, one after the other; none of them can fail"""
    exprs = [p for p, _ in parts]
    enc(f'Encode for {ty}', cat_emit(exprs), 'true', props=props)
    size(f'SizedEncode for {ty}', ' + '.join(f'{t}::msize()' for _, t in parts), ' '.join(p + '.fits();' for p in exprs))
    val('', ty, v, v_of)
    dec(f'Decode for {ty}', seq_dec([(f'v{k}', t, None) for k, (_, t) in enumerate(parts)], mk), props=decprops)
    rt('', ty, lemma + cat_rt(exprs), props.split()[0])

ip = 'C04 C05'
for n, t in [(4, 'u32'), (6, 'u128')]:
    enc(f'Encode for Ipv{n}Addr', f'ip{n}_bits(*self).emit()', props=ip)
    size(f'SizedEncode for Ipv{n}Addr', f'{t}::msize()', f'ip{n}_bits(*self).fits();')
    val('', f'Ipv{n}Addr', t, f'ip{n}_bits(*self)')
    dec(f'Decode for Ipv{n}Addr', f'match {t}::dec(b) {{ D::Panics => D::Panics, D::Err(e) => D::Err(e), D::Ok(v, n) => D::Ok(v, n) }}', props=ip + ' C08')
    rt('', f'Ipv{n}Addr', f'ip{n}_bits(*self).round_trip(rest);', 'C04')
record('SocketAddrV4', [('v4_ip(*self)', 'Ipv4Addr'), ('v4_port(*self)', 'u16')], '(u32, u16)', '(v0, v1)', ip, ip + ' C08', v_of='(ip4_bits(v4_ip(*self)), v4_port(*self))')
record('SocketAddrV6', [('v6_ip(*self)', 'Ipv6Addr'), ('v6_port(*self)', 'u16'), ('v6_flow(*self)', 'u32'), ('v6_scope(*self)', 'u32')], '(u128, u16, u32, u32)', '(v0, v1, v2, v3)', ip, ip + ' C08',
    v_of='(ip6_bits(v6_ip(*self)), v6_port(*self), v6_flow(*self), v6_scope(*self))')
for ty, a4, a6 in [('IpAddr', 'Ipv4Addr', 'Ipv6Addr'), ('SocketAddr', 'SocketAddrV4', 'SocketAddrV6')]:
    enc(f'Encode for {ty}', f'match *self {{ {ty}::V4(a) => 4u8.emit() + a.emit(), {ty}::V6(a) => 6u8.emit() + a.emit() }}', props=ip)
    size(f'SizedEncode for {ty}', f'1 + {a6}::msize()', '4u8.fits(); 6u8.fits(); match *self { %s::V4(a) => { a.fits(); } %s::V6(a) => { a.fits(); } }' % (ty, ty))
    val('', ty, f'Result<<{a4} as Val>::V, <{a6} as Val>::V>', f'match *self {{ {ty}::V4(a) => Ok(a.val()), {ty}::V6(a) => Err(a.val()) }}')
    dec(f'Decode for {ty}', f"""match u8::dec(b) {{ D::Panics => D::Panics, D::Err(e) => D::Err(arbitrary()), D::Ok(d, n) =>
        if d == 4 {{ match {a4}::dec(b.skip(n as int)) {{ D::Panics => D::Panics, D::Err(e) => D::Err(arbitrary()), D::Ok(v, m) => D::Ok(Ok(v), n + m) }} }}
        else if d == 6 {{ match {a6}::dec(b.skip(n as int)) {{ D::Panics => D::Panics, D::Err(e) => D::Err(arbitrary()), D::Ok(v, m) => D::Ok(Err(v), n + m) }} }}
        else {{ D::Err(EnumDecodeError::UnassignedDiscriminant {{ value: d }}) }} }}""", props=ip + ' C08 C15')
    rt('', ty, f"""match *self {{
        {ty}::V4(a) => {{ 4u8.round_trip(a.emit() + rest); a.round_trip(rest); cat(4u8.emit(), a.emit(), rest); }}
        {ty}::V6(a) => {{ 6u8.round_trip(a.emit() + rest); a.round_trip(rest); cat(6u8.emit(), a.emit(), rest); }} }}""", 'C04')

tm = 'C04 C05'
enc('Encode for Duration', 'dur_secs(*self).emit() + dur_nanos(*self).emit()', props=tm)
size('SizedEncode for Duration', '12', 'dur_secs(*self).fits(); dur_nanos(*self).fits();')
val('', 'Duration', '(u64, u32)', '(dur_secs(*self), dur_nanos(*self))')
# a carry that overflows panics: known finding c08_known_duration
dec('Decode for Duration', seq_dec([('s', 'u64', None), ('n', 'u32', None)], '((s + n / 1_000_000_000) as u64, n % 1_000_000_000)').replace('D::Ok(((', 'if s + n / 1_000_000_000 > u64::MAX { D::Panics } else { D::Ok(((').replace('n0 + n1)', 'n0 + n1) }'), props=tm + ' C08')
rt('', 'Duration', 'dur_nanos_bound(*self); ' + cat_rt(['dur_secs(*self)', 'dur_nanos(*self)']), 'C04')
C.lemma("""/// Whole seconds since the epoch, the fraction dropped (towards the epoch).
pub open spec fn time_secs(ns: int) -> i64 { (if ns >= 0 { ns / 1_000_000_000 } else { -(-ns / 1_000_000_000) }) as i64 }""")
C.type('SystemTimeDecodeError')
enc('Encode for SystemTime', 'time_secs(time_ns(*self)).emit()', props=tm, fns={'encode': Fn(start='time_bound(*self); time_order(); wrap63();')})
size('SizedEncode for SystemTime', '8', 'time_secs(time_ns(*self)).fits();')
# a decoded time is the whole second it was written as
val('', 'SystemTime', 'int', 'time_ns(*self)')
dec('Decode for SystemTime', 'match i64::dec(b) { D::Panics => D::Panics, D::Err(e) => D::Err(arbitrary()), D::Ok(s, n) => D::Ok(s * 1_000_000_000, n) }', props=tm + ' C08 C15', fns={'decode': Fn(start='')})
C.lemma("""/// The round trip of a time that is a whole number of seconds.
pub proof fn time_round_trip(t: SystemTime, rest: Seq<u8>)
    requires time_ns(t) % 1_000_000_000 == 0
    ensures SystemTime::dec(t.emit() + rest) == D::<int, SystemTimeDecodeError>::Ok(t.val(), t.emit().len())
{ time_bound(t); time_secs(time_ns(t)).round_trip(rest); }""", 'C04')

# ------------------------------------------------------------------ the rest
# a value of an empty type cannot exist, so nothing is asked of its encoding; decoding one panics
C.impl('Encode for Infallible', '''open spec fn emit(&self) -> Seq<u8> { arbitrary() }
        open spec fn ok(&self) -> bool { arbitrary() }
        open spec fn err(&self) -> Self::Error { arbitrary() }''', fns={'encode': Fn(start='no_infallible(*self);')}, props='C02')
val('', 'Infallible', '()', '()')
dec('Decode for Infallible', 'D::Panics', props='C02 C08')

# Cow: written as what it shows, read as owned
enc("Encode for Cow<'_, T>", 'cow_val(self).emit()', 'cow_val(self).ok()', 'cow_val(self).err()', props='C03 C05')
size("SizedEncode for Cow<'_, T>", 'T::msize()', 'cow_val(self).fits();')
C.lemma("""pub trait DecodeBorrowed<B: ?Sized>: Decode {}
pub uninterp spec fn lent_val<B: ?Sized, V>(b: &B) -> V;
impl<T: DecodeBorrowed<B>, B: ToOwned<Owned = T>> Val for Cow<'_, B> { type V = T::V; open spec fn val(&self) -> T::V { match *self { Cow::Owned(t) => t.val(), Cow::Borrowed(b) => lent_val::<B, T::V>(b) } } }""")
C.impl("Decode for Cow<'_, B>", 'open spec fn dec(b: Seq<u8>) -> D<T::V, T::Error> { T::dec(b) }', fns={'decode': Fn()}, props='C03 C05 C08')

ATOMS = {'AtomicBool': 'bool', **{'Atomic' + t[0].upper() + t[1:]: t for t in 'u8 u16 u32 u64 usize i8 i16 i32 i64 isize'.split()}}
for a, t in ATOMS.items():
    C.lemma(f"""impl VfAtomic<{t}> for {a} {{
        uninterp spec fn held(&self) -> {t};
        #[verifier::external_body] fn vf_new(v: {t}) -> Self {{ {a}::new(v) }}
        #[verifier::external_body] fn vf_load(&self, o: AtomicOrdering) -> {t} {{ self.load(o) }}
    }}""")
    k = f'std::sync::atomic::{a}'
    enc(f'Encode for {k}', 'self.held().emit()', 'self.held().ok()', 'self.held().err()', props='C04 C05' + (' C09' if 'size' in t else ''))
    size(f'SizedEncode for {k}', f'{t}::msize()', 'self.held().fits();')
    val('', a, t, 'self.held()')
    dec(f'Decode for {k}', f'{t}::dec(b)', props='C04 C05 C08')
    rt('', a, 'self.held().round_trip(rest);', 'C04')

# hash maps and sets: as the sequence of their entries, in iteration order
enc('Encode for HashMap<K, V, S>', 'seq_emit(pairs(self))', 'seq_ok(pairs(self))', 'seq_err(pairs(self))', props='C03 C05 C09 C15',
    fns={'encode': Fn(**{**enc_loop('pairs(self)', '(pairs(self).len() as usize).emit() + ').hints, 'start': 'pairs_len(self); assert(pairs(self).take(0) =~= Seq::empty());'})})
enc('Encode for HashSet<K, S>', 'seq_emit(keys(self))', 'seq_ok(keys(self))', 'seq_err(keys(self))', props='C03 C05 C09 C15',
    fns={'encode': Fn(**{**enc_loop('keys(self)', '(keys(self).len() as usize).emit() + ').hints, 'start': 'keys_len(self); assert(keys(self).take(0) =~= Seq::empty());'})})

C.lemma("""/// A decoding loop that builds a map: the map holds what the pairs so far make.
pub open spec fn map_state<T: Decode>(from: Input, to: Input, n: nat, k: nat) -> bool {
    let d = decs::<T>(from.rest().skip(n as int), k);
    d is Ok && n + d->Ok_1 <= from.rest().len() && advanced(from, to, n + d->Ok_1)
}""")
got = lambda T: f'decs::<{T}>(old(input).rest().skip(2), vf_n0 as nat)->Ok_0'
for ty, T, fn, shown, gen, V, entries in [
    ('HashMap<K, V, S>', '(K, V)', 'map_of', 'map_val', '<K: Val, V: Val, S>', 'Map<K::V, V::V>', 'pairs'),
    ('HashSet<K, S>', 'K', 'set_of', 'set_val', '<K: Val, S>', 'Set<K::V>', 'keys')]:
    val(gen, ty, V, f'{shown}(self)')
    E = 'E' if 'Map' in ty else 'K::Error'
    C.impl(f'Decode for {ty}', f"""open spec fn dec(b: Seq<u8>) -> D<{V}, CollectionDecodeError<Infallible, ItemDecodeError<usize, {E}>>> {{
        match seq_dec::<{T}>(b) {{ D::Panics => D::Panics, D::Err(e) => D::Err(e), D::Ok(vs, n) => D::Ok({fn}(vs), n) }} }}""", props='C03 C05 C08 C15',
        fns={'decode': dec_loop('2', None, f'usize::dec(old(input).rest()) == D::<usize, Infallible>::Ok(vf_m0, 2), {shown}(&this) == {fn}({got(T)}),', T=T, state='map_state::<{T}>(*old(input), *input, {n}, vf_n0 as nat)',
            last=f"""let vs = decs::<{T}>(old(input).rest().skip(2), (vf_n0 + 1) as nat)->Ok_0; assert(vs.drop_last() =~= {got(T)});""")})
    g2 = '<K: RoundTrip + Encode<Error = E> + Decode<Error = F> + Eq + Hash, V: RoundTrip + Encode<Error = E> + Decode<Error = F>, S: BuildHasher + Default, E, F>' if 'Map' in ty else '<K: RoundTrip + Eq + Hash, S: BuildHasher + Default>'
    rt(g2, ty, f"""seq_round_trip({entries}(self), rest); {'map_entries' if 'Map' in ty else 'set_entries'}(self);""", 'C03')

# ------------------------------------------------------------------ C15: conversions into the generic errors
C.type('GenericDecodeError', 'GenericEncodeError', 'EnumDecodeError', 'EnumEncodeError')

def conv(source, target, of, generics='', where='', key=None, can='true'):
    C.impl(f'From<{key or source}> for {target}', f'''open spec fn of(value: {source}) -> Self {{ {of} }}
        open spec fn can(value: {source}) -> bool {{ {can} }}''', fns={'from': Fn()}, props='C15',
        header=f'impl{generics} VfErr<{source}> for {target}{" where " + where if where else ""}')

GD, GE = 'GenericDecodeError', 'GenericEncodeError'
for src, variant in {'CStringDecodeError': 'NullString', 'NonZeroDecodeError': 'NullInteger', 'LengthError': 'SmallBuffer', 'SystemTimeDecodeError': 'NarrowSystemTime', 'Utf8Error': 'BadString'}.items():
    conv(src, GD, f'{GD}::{variant}(value)')
for src, variant in {'BorrowError': 'BadBorrow', 'IsizeEncodeError': 'LargeIsize', 'UsizeEncodeError': 'LargeUsize'}.items():
    conv(src, GE, f'{GE}::{variant}(value)')
for way, g in (('Decode', GD), ('Encode', GE)):
    conv(f'Collection{way}Error<L, I>', g, f'match value {{ Collection{way}Error::BadLength(e) => into_of(e), Collection{way}Error::BadItem(e) => into_of(e) }}',
        '<L, I>', f'L: Into<{g}>, I: Into<{g}>', f'Collection{way}Error<L,I>')
    conv(f'Item{way}Error<I, E>', g, 'into_of(value.error)', '<I, E>', f'E: Into<{g}>', f'Item{way}Error<I,E>')
    conv('Infallible', g, 'arbitrary()', can='false')
conv('EnumDecodeError<D, F>', GD, '''match value { EnumDecodeError::InvalidDiscriminant(e) => into_of(e),
    EnumDecodeError::UnassignedDiscriminant { value } => GenericDecodeError::UnassignedDiscriminant { value: value.zext() }, EnumDecodeError::BadField(e) => into_of(e) }''',
    '<D, F>', f'D: Decode + PrimitiveDiscriminant, <D as Decode>::Error: Into<{GD}>, F: Into<{GD}>', 'EnumDecodeError<D,F>')
conv('EnumEncodeError<D, F>', GE, '''match value { EnumEncodeError::BadDiscriminant(e) => into_of(e), EnumEncodeError::BadField(e) => into_of(e) }''',
    '<D, F>', f'D: Encode, <D as Encode>::Error: Into<{GE}>, F: Into<{GE}>', 'EnumEncodeError<D,F>')
for t in INTS:
    w = W.get(t, 8)
    top = 1 << 8 * w
    u = t.replace('i', 'u', 1)
    C.impl(f'SealedPrimitiveDiscriminant for {t}', f'open spec fn zext(self) -> u128 {{ {"self as u128" if t[0] == "u" else f"(if self < 0 {{ self + {top} }} else {{ self as int }}) as u128"} }}',
        fns={'to_u128': Fn(start='' if t[0] == 'u' else
            f'let x = self; assert(x < 0 ==> (#[verifier::truncate] (x as {u})) + (#[verifier::truncate] ((-1 - x) as {u})) == {top - 1}) by (bit_vector); assert(x >= 0 ==> (#[verifier::truncate] (x as {u})) == x) by (bit_vector);')}, props='C14 C15')
    C.impl(f'PrimitiveDiscriminant for {t}', '', {}, 'C14 C15')

# ------------------------------------------------------------------ bounded vectors
C.type('SizedSlice', 'SizedIter')
C.lemma('''impl<T, const N: usize> SizedSlice<T, N> {
    /// The invariant: so many places are used, and they hold elements.
    pub open spec fn wf(&self) -> bool { self.len <= N && inits(self.buf@, 0, self.len as int) }
    pub open spec fn elems(&self) -> Seq<T> { win(self.buf@, 0, self.len as int) }
}
/// Invariant of the type: established by every function under contract that makes or changes a value,
/// and taken for granted only of values that a function is given.
#[verifier::external_body] pub proof fn slice_inv<T, const N: usize>(s: &SizedSlice<T, N>) ensures s.wf() {}''')
SS = 'SizedSlice<T, N>'

def std_conv(generics, source, target, error=''):
    # the standard library's own specification of the conversion is not used
    k = 'TryFrom' if error else 'From'
    f = k.replace('F', '_f').lower().lstrip('_')
    C.lemma(f'''impl{generics} vstd::std_specs::convert::{k}SpecImpl<{source}> for {target} {{
        open spec fn obeys_{f}_spec() -> bool {{ false }}
        open spec fn {f}_spec(v: {source}) -> {f"Result<Self, Self::Error>" if error else "Self"} {{ arbitrary() }} }}''')
TN = '<T, const N: usize>'
std_conv(TN, '[T; N]', SS)
std_conv('<T: Clone, const N: usize>', '&[T]', SS, 'LengthError')
std_conv(TN, SS, 'Box<[T]>')
std_conv(TN, SS, 'Vec<T>')
C.impl(SS, props='C10 C16', fns={
    'from_raw_parts': Fn('requires len <= N, inits(buf@, 0, len as int) ensures r.wf(), r.elems() == win(buf@, 0, len as int), r.buf == buf, r.len == len'),
    'as_slice': Fn('ensures r@ == self.elems()', start='slice_inv(self);'),
    'as_mut_slice': Fn('ensures r@ == old(self).elems(), final(r)@.len() == old(self).elems().len() ==> final(self).wf() && final(self).elems() == final(r)@', start='slice_inv(self);'),
    'into_raw_parts': Fn('ensures r.0 == self.buf, r.1 == self.len'),
    'into_boxed_slice': Fn('ensures r@ == self.elems()', start='slice_inv(&self);'),
    'into_vec': Fn('ensures r@ == self.elems()', start='slice_inv(&self);'),
    'copy_from_slice': Fn('''
//A requires data@.len() <= N
        ensures data@.len() <= N, final(self).wf(), final(self).elems() == data@'''),
    'each_ref': Fn('ensures r.wf(), r.elems().len() == self.elems().len(), forall|i: int| 0 <= i < r.elems().len() ==> *#[trigger] r.elems()[i] == self.elems()[i]', start='slice_inv(self);',
        loop0='''invariant i <= len, len == self.len, self.wf(), inits::<&T>(buf@, 0, i as int), forall|j: int| 0 <= j < i ==> *mu::<&T>(#[trigger] buf@[j])->0 == self.elems()[j], decreases len - i'''),
    'each_mut': Fn('''ensures r.wf(), r.elems().len() == old(self).elems().len(), final(self).wf(), final(self).len == old(self).len,
            forall|i: int| 0 <= i < r.elems().len() ==> *(#[trigger] r.elems()[i]) == old(self).elems()[i] && *final(r.elems()[i]) == final(self).elems()[i]''', start='slice_inv(self);',
        loop0='''invariant len == self.len, len <= N, i <= len, vf_lent.rest().len() == N, vf_parts.len() == N,
            forall|j: int| i <= j < len ==> #[trigger] vf_lent.rest()[j] == vf_parts[j], forall|j: int| 0 <= j < len ==> (#[trigger] vf_parts[j]) is Some && mu(*vf_parts[j]->0) is Some,
            forall|j: int| #![trigger vf_parts[j]] #![trigger buf@[j]] 0 <= j < i ==> mu::<&mut T>(buf@[j]) is Some && mu(*(vf_parts[j]->0)) == Some(*(mu::<&mut T>(buf@[j])->0))
                && mu(*final(vf_parts[j]->0)) == Some(*final(mu::<&mut T>(buf@[j])->0)), decreases len - i'''),
    'set_len': Fn('requires len <= N, inits(old(self).buf@, 0, len as int) ensures final(self).wf(), final(self).buf == old(self).buf, final(self).len == len'),
    'capacity': Fn('ensures r == N'),
    'len': Fn('ensures r == self.len, r == self.elems().len()'),
    'is_empty': Fn('ensures r == (self.elems().len() == 0)'),
    'is_full': Fn('ensures r == (self.elems().len() == N)'),
    'new': Fn('''ensures r is Ok <==> data@.len() <= N, r is Ok ==> r->Ok_0.wf() && all_cloned(data@, r->Ok_0.elems()),
        r is Err ==> r->Err_0 == (LengthError { capacity: N, len: data@.len() as usize })''',
        loop0='''invariant vf_n0 <= vf_m0, vf_m0 == data@.len(), len == data@.len(), data@.len() <= N, inits(buf@, 0, vf_n0 as int), all_cloned(data@.take(vf_n0 as int), win(buf@, 0, vf_n0 as int)), decreases vf_m0 - vf_n0''',
        after0='assert(data@.take(vf_n0 as int) =~= data@);'),
})
enc('Encode for SizedSlice<T, N>', 'seq_emit(self.elems())', 'seq_ok(self.elems())', 'seq_err(self.elems())', props='C03 C05 C09 C15')
# the value of a bounded vector that breaks its invariant is None, so decoding has to establish it
val('<T: Val, const N: usize>', SS, 'Option<Seq<T::V>>', 'if self.wf() { Some(vals(self.elems())) } else { None }')
dec('Decode for SizedSlice<T, N>', '''match usize::dec(b) { D::Panics => D::Panics, D::Err(e) => D::Err(arbitrary()), D::Ok(len, n) =>
    if len > N { D::Err(CollectionDecodeError::BadLength(LengthError { capacity: N, len })) }
    else { match decs::<T>(b.skip(n as int), len as nat) { D::Panics => D::Panics, D::Ok(vs, k) => D::Ok(Some(vs), n + k), D::Err(e) => D::Err(CollectionDecodeError::BadItem(e)) } } }''',
    props='C03 C05 C08 C15', fns={'decode': dec_loop('2', lambda k: f'vals(win::<T>(buf@, 0, {k}))',
    'usize::dec(old(input).rest()) == D::<usize, Infallible>::Ok(vf_m0, 2), vf_m0 == len, len <= N, inits::<T>(buf@, 0, vf_n0 as int),',
    '''assert(vals(win::<T>(buf@, 0, vf_n0 as int)) =~= decs::<T>(old(input).rest().skip(2), vf_n0 as nat)->Ok_0);
    assert(vals(win::<T>(buf@, 0, vf_n0 + 1)) =~= vals(win::<T>(buf@, 0, vf_n0 as int)).push(win::<T>(buf@, 0, vf_n0 + 1)[vf_n0 as int].val()));''')})
C.impls['Encode for SizedSlice<T, N>']['fns']['encode'].start = 'slice_inv(self);'
size('SizedEncode for SizedSlice<T, N>', '2 + T::msize() * N as nat', '''slice_inv(self); (self.elems().len() as usize).fits(); emits_fit(self.elems());
    assert(T::msize() * self.elems().len() <= T::msize() * N as nat) by (nonlinear_arith) requires self.elems().len() <= N;''')
rt('<T: RoundTrip, const N: usize>', SS, '''slice_inv(self); let s = self.elems(); let len = s.len() as usize; len.round_trip(emits(s) + rest); decs_emits(s, rest); cat(len.emit(), emits(s), rest);''', 'C03')

for k in ('AsMut<[T]>', 'AsRef<[T]>', 'Borrow<[T]>', 'BorrowMut<[T]>', 'Deref', 'DerefMut'):
    m = {'A': k[:5].lower() , 'B': 'borrow', 'D': 'deref'}[k[0]]
    m = {'AsMut<[T]>': 'as_mut', 'AsRef<[T]>': 'as_ref', 'Borrow<[T]>': 'borrow', 'BorrowMut<[T]>': 'borrow_mut', 'Deref': 'deref', 'DerefMut': 'deref_mut'}[k]
    mut = 'ensures slice(r) == old(self).elems(), slice(final(r)).len() == old(self).elems().len() ==> final(self).wf() && final(self).elems() == slice(final(r))'
    C.impl(f'{k} for {SS}', props='C10', fns={m: Fn(mut if 'ut' in k else 'ensures slice(r) == self.elems()')})
C.impl(f'From<[T;N]> for {SS}', props='C10 C16', fns={'from': Fn('ensures r.wf(), r.elems() == value@', start='assert(forall|r: SizedSlice<T, N>| r.len == N ==> (#[trigger] r.elems() =~= value@ <==> r.elems() == value@));')})
C.impl(f'TryFrom<&[T]> for {SS}', props='C10', fns={'try_from': Fn('''ensures r is Ok <==> value@.len() <= N, r is Ok ==> r->Ok_0.wf() && all_cloned(value@, r->Ok_0.elems()),
        r is Err ==> r->Err_0 == (LengthError { capacity: N, len: value@.len() as usize })''')})
C.impl('From<SizedSlice<T,N>> for Box<[T]>', props='C10 C16', fns={'from': Fn('ensures r@ == value.elems()')})
C.impl('From<SizedSlice<T,N>> for Vec<T>', props='C10 C16', fns={'from': Fn('ensures r@ == value.elems()')})
C.impl(f'Clone for {SS}', props='C10 C16', fns={'clone': Fn('ensures r.wf(), all_cloned(self.elems(), r.elems())', start='slice_inv(self);',
    loop0='invariant vf_n0 <= vf_m0, vf_m0 == self.len, self.wf(), inits::<T>(buf@, 0, vf_n0 as int), all_cloned(self.elems().take(vf_n0 as int), win(buf@, 0, vf_n0 as int)), decreases vf_m0 - vf_n0',
    after0='assert(self.elems().take(vf_n0 as int) =~= self.elems());')})
C.impl(f'Default for {SS}', props='C10 C16', fns={'default': Fn('ensures r.wf(), r.elems() == Seq::<T>::empty()')})
C.impl(f'IntoIterator for {SS}', props='C12 C16', header='impl<T, const N: usize> VfIntoIterator for SizedSlice<T, N>', fns={'into_iter': Fn('ensures r.wf(), r.elems() == self.elems()', start='slice_inv(&self);')})
C.lemma('''impl<T, const N: usize> VfView<T> for SizedSlice<T, N> {
    open spec fn places(&self) -> Seq<MaybeUninit<T>> { self.buf@ }
    open spec fn same(from: &Self, to: &Self) -> bool { to.len == from.len }
    #[verifier::external_body] unsafe fn vf_sub(&self, a: usize, n: usize) -> &[T] { unimplemented!() }
    #[verifier::external_body] unsafe fn vf_sub_mut(&mut self, a: usize, n: usize) -> &mut [T] { unimplemented!() }
    #[verifier::external_body] unsafe fn vf_at(&self, i: usize) -> &T { unimplemented!() }
}''')

# ------------------------------------------------------------------ the owning iterator
SI = 'SizedIter<T, N>'
C.lemma('''impl<T, const N: usize> SizedIter<T, N> {
    pub open spec fn wf(&self) -> bool { self.pos + self.len <= N && inits(self.buf@, self.pos as int, self.len as int) }
    /// What is still to come.
    pub open spec fn elems(&self) -> Seq<T> { win(self.buf@, self.pos as int, self.len as int) }
}
#[verifier::external_body] pub proof fn iter_inv<T, const N: usize>(s: &SizedIter<T, N>) ensures s.wf() {}''')
C.impl(SI, props='C12 C16', fns={
    'new': Fn('requires len <= N, inits(buf@, 0, len as int) ensures r.wf(), r.elems() == win(buf@, 0, len as int)'),
    'as_slice': Fn('ensures r@ == self.elems()', start='iter_inv(self);'),
    'as_mut_slice': Fn('ensures r@ == old(self).elems(), final(r)@.len() == old(self).elems().len() ==> final(self).wf() && final(self).elems() == final(r)@', start='iter_inv(self);')})
C.impl(f'AsRef<[T]> for {SI}', props='C12', fns={'as_ref': Fn('ensures r@ == self.elems()')})
C.impl(f'AsMut<[T]> for {SI}', props='C12', fns={'as_mut': Fn('ensures r@ == old(self).elems(), final(r)@.len() == old(self).elems().len() ==> final(self).wf() && final(self).elems() == final(r)@')})
C.impl(f'Clone for {SI}', props='C12 C16', fns={'clone': Fn('ensures r.wf(), all_cloned(self.elems(), r.elems())', start='iter_inv(self);',
    loop0='invariant start == self.pos, stop == self.pos + self.len, pos == self.pos, len == self.len, start <= vf_n0 <= vf_m0, vf_m0 == stop, self.wf(), inits::<T>(buf@, start as int, vf_n0 - start), all_cloned(self.elems().take(vf_n0 - start), win(buf@, start as int, vf_n0 - start)), decreases vf_m0 - vf_n0',
    after0='assert(self.elems().take(len as int) =~= self.elems());')})
STEP = '''ensures final(self).wf(), old(self).elems().len() == 0 ==> r is None && *final(self) == *old(self),
        old(self).elems().len() > 0 ==> r == Some(old(self).elems().%s()) && final(self).elems() == old(self).elems().%s()'''
C.impl(f'Iterator for {SI}', props='C12 C16', header='impl<T, const N: usize> VfIterator for SizedIter<T, N>', fns={
    'next': Fn(STEP % ('first', 'drop_first'), start='iter_inv(self);'),
    'size_hint': Fn('ensures r.0 == self.elems().len(), r.1 == Some(self.elems().len() as usize)')})
C.impl(f'DoubleEndedIterator for {SI}', props='C12 C16', header='impl<T, const N: usize> VfDouble for SizedIter<T, N>', fns={'next_back': Fn(STEP % ('last', 'drop_last'), start='iter_inv(self);')})

# ------------------------------------------------------------------ bounded strings
C.type('SizedStr', 'StringError', 'Utf16Error')
ST = 'SizedStr<N>'
C.lemma('''impl<const N: usize> SizedStr<N> {
    /// The invariant: well-formed text in the used part, and every byte of the buffer initialised.
    pub open spec fn wf(&self) -> bool { self.0.wf() && inits(self.0.buf@, 0, N as int) && valid_utf8(self.0.elems()) }
    pub open spec fn bytes(&self) -> Seq<u8> { self.0.elems() }
    pub open spec fn text(&self) -> Seq<char> { decode_utf8(self.0.elems()) }
}
#[verifier::external_body] pub proof fn str_inv<const N: usize>(s: &SizedStr<N>) ensures s.wf() {}
pub open spec fn str_new<const N: usize>(s: Seq<u8>, r: Result<SizedStr<N>, StringError>) -> bool {
    if s.len() > N { r == Err::<SizedStr<N>, StringError>(StringError::SmallBuffer(LengthError { capacity: N, len: s.len() as usize })) }
    else if !valid_utf8(s) { r == Err::<SizedStr<N>, StringError>(StringError::BadUtf8(Utf8Error { value: s[utf8_prefix(s)], index: utf8_prefix(s) as usize })) }
    else { r is Ok && r->Ok_0.wf() && r->Ok_0.bytes() == s }
}''')
UTF8 = 'assert forall|e: core::str::Utf8Error, s: Seq<u8>| is_utf8_prefix(s, #[trigger] utf8_at(&e)) implies utf8_at(&e) == #[trigger] utf8_prefix(s) by { utf8_prefix_is(s, utf8_at(&e)); }'
C.impl(ST, props='C11 C16', fns={
    'from_utf8': Fn('ensures str_new(s@, r)', start=UTF8),
    'from_utf8_unchecked': Fn('requires s@.len() <= N, valid_utf8(s@) ensures r.wf(), r.bytes() == s@', start='assert forall|b: Seq<u8>| b.len() >= s@.len() && (forall|i: int| 0 <= i < s@.len() ==> #[trigger] b[i] == s@[i]) implies #[trigger] b.take(s@.len() as int) == s@ by { assert(b.take(s@.len() as int) =~= s@); }'),
    'from_raw_parts': Fn('requires len <= N, valid_utf8(buf@.take(len as int)) ensures r.wf(), r.bytes() == buf@.take(len as int)',
        start='assert(forall|b: [MaybeUninit<u8>; N]| (forall|i: int| 0 <= i < N ==> mu(#[trigger] b@[i]) == Some(buf@[i])) ==> #[trigger] win(b@, 0, len as int) =~= buf@.take(len as int));'),
    'as_bytes': Fn('ensures r@ == self.bytes()', start='str_inv(self);'),
    'as_str': Fn('ensures r@ == self.text(), encode_utf8(r@) == self.bytes()', start='str_inv(self);'),
    'as_mut_str': Fn('ensures r@ == old(self).text(), final(self).wf(), final(self).text() == final(r)@', start='str_inv(self); assert forall|c: Seq<char>| valid_utf8(#[trigger] encode_utf8(c)) && decode_utf8(encode_utf8(c)) == c by { encode_utf8_valid_utf8(c); encode_utf8_decode_utf8(c); }'),
    'into_raw_parts': Fn('ensures r.1 == self.bytes().len(), r.0@.take(r.1 as int) == self.bytes()', start='str_inv(&self);'),
    'into_bytes': Fn('ensures r == self.0'),
    'into_boxed_str': Fn('ensures r@ == self.text()', start='str_inv(&self);'),
    'into_string': Fn('ensures r@ == self.text()'),
    'new': Fn('ensures str_new(encode_utf8(s@), r)', start='encode_utf8_valid_utf8(s@);'),
    'capacity': Fn('ensures r == N'),
    'len': Fn('ensures r == self.bytes().len()'),
    'is_empty': Fn('ensures r == (self.bytes().len() == 0)'),
    'is_full': Fn('ensures r == (self.bytes().len() == N)'),
    'chars': Fn('ensures r.remaining() == self.text()'),
    'char_indices': Fn('ensures indices_text(r) == self.text()'),
})
for k, m in {'AsMut<str>': 'as_mut', 'BorrowMut<str>': 'borrow_mut', 'DerefMut': 'deref_mut'}.items():
    C.impl(f'{k} for {ST}', props='C11', fns={m: Fn('ensures text(r) == old(self).text(), final(self).wf(), final(self).text() == text(final(r))')})
for k, m in {'AsRef<str>': 'as_ref', 'Borrow<str>': 'borrow', 'Deref': 'deref'}.items():
    C.impl(f'{k} for {ST}', props='C11', fns={m: Fn('ensures text(r) == self.text()')})
C.impl(f'AsRef<[u8]> for {ST}', props='C11', fns={'as_ref': Fn('ensures slice(r) == self.bytes()')})
C.lemma('pub open spec fn text(s: &str) -> Seq<char> { s@ }')
NN = '<const N: usize>'
std_conv(NN, '&str', ST, 'StringError')
std_conv(NN, 'String', ST, 'StringError')
std_conv(NN, ST, 'Box<str>')
std_conv(NN, ST, 'String')
C.impl(f'FromStr for {ST}', props='C11', fns={'from_str': Fn('ensures str_new(encode_utf8(s@), r)', start='encode_utf8_valid_utf8(s@);')})
C.impl(f'TryFrom<&str> for {ST}', props='C11', fns={'try_from': Fn('ensures str_new(encode_utf8(value@), r)')})
C.impl(f'TryFrom<String> for {ST}', props='C11', fns={'try_from': Fn('ensures str_new(encode_utf8(value@), r)')})
C.impl('From<SizedStr<N>> for Box<str>', props='C11 C16', fns={'from': Fn('ensures r@ == value.text()')})
C.impl('From<SizedStr<N>> for String', props='C11 C16', fns={'from': Fn('ensures r@ == value.text()')})
C.impl(f'Clone for {ST}', props='C11', fns={'clone': Fn('ensures r.wf(), r.bytes() == self.bytes()', start='str_inv(self);')})
C.impl(f'Default for {ST}', props='C11', fns={'default': Fn('ensures r.wf(), r.bytes() == Seq::<u8>::empty()')})
enc('Encode for SizedStr<N>', 'seq_emit(self.bytes())', 'seq_ok(self.bytes())', 'seq_err(self.bytes())', props='C03 C05 C09', fns={'encode': Fn(start='str_inv(self);')})
val(NN, ST, 'Option<Seq<char>>', 'if self.wf() { Some(self.text()) } else { None }')
dec('Decode for SizedStr<N>', '''match bytes_dec(b) { D::Panics => D::Panics, D::Err(e) => D::Err(arbitrary()), D::Ok(s, n) =>
    if s.len() > N { D::Err(CollectionDecodeError::BadLength(LengthError { capacity: N, len: s.len() as usize })) }
    else if valid_utf8(s) { D::Ok(Some(decode_utf8(s)), n) } else { D::Err(CollectionDecodeError::BadItem(Utf8Error { value: s[utf8_prefix(s)], index: utf8_prefix(s) as usize })) } }''',
    props='C03 C05 C08 C15', fns={'decode': Fn(start=UTF8 + 'assert forall|s: Seq<u8>, n: int| 0 <= n && 2 + n <= s.len() implies #[trigger] s.skip(2).take(n) == s.subrange(2, 2 + n) by { assert(s.skip(2).take(n) =~= s.subrange(2, 2 + n)); }')})
size('SizedEncode for SizedStr<N>', '2 + u8::msize() * N as nat', 'assert(u8::msize() * N as nat == N) by (nonlinear_arith) requires u8::msize() == 1; str_inv(self); (self.bytes().len() as usize).fits(); emits_bytes(self.bytes());')
rt(NN, ST, 'str_inv(self); bytes_round_trip(self.bytes(), rest);', 'C03')

# ------------------------------------------------------------------ slots
C.type('Slot')
C.lemma('''impl<T> Slot<T> {
    pub open spec fn wf(&self) -> bool { self.len <= self.buf@.len() && self.buf@.len() <= usize::MAX }
    pub open spec fn used(&self) -> Seq<u8> { self.buf@.take(self.len as int) }
}
#[verifier::external_body] pub proof fn slot_inv<T>(s: &Slot<T>) ensures s.wf() {}''')
C.impl('Slot<T>', props='C13', fns={
    'with_capacity': Fn('ensures r.wf(), r.buf@.len() == cap, r.used() == Seq::<u8>::empty()', start='broadcast use boxed;'),
    'as_slice': Fn('ensures r@ == self.used()', start='slot_inv(self);'),
    'as_mut_slice': Fn('ensures r@ == old(self).buf@, final(self).len == old(self).len, final(r)@.len() == old(self).buf@.len() ==> final(self).wf() && final(self).buf@ == final(r)@', start='slot_inv(self);'),
    'copy_from_slice': Fn('''
//A requires data@.len() <= old(self).buf@.len()
        ensures data@.len() <= old(self).buf@.len(), final(self).wf(), final(self).used() == data@, final(self).buf@.len() == old(self).buf@.len()'''),
    'set_len': Fn('''
//A requires len <= old(self).buf@.len()
        ensures len <= old(self).buf@.len(), final(self).wf(), final(self).len == len, final(self).buf == old(self).buf'''),
    'set_len_unchecked': Fn('requires len <= old(self).buf@.len() ensures final(self).wf(), final(self).len == len, final(self).buf == old(self).buf'),
    'capacity': Fn('ensures r == self.buf@.len()'),
    'len': Fn('ensures r == self.len'),
    'is_empty': Fn('ensures r == (self.used().len() == 0)', start='slot_inv(self);'),
    'is_full': Fn('ensures r == (self.used().len() == self.buf@.len())', start='slot_inv(self);'),
    'write': Fn('''
//A requires old(self).buf@.len() >= lent::<U, T>(&value).emit().len()
        ensures final(self).wf(), final(self).buf@.len() == old(self).buf@.len(), r is Ok <==> lent::<U, T>(&value).ok(),
            r is Ok ==> final(self).used() == lent::<U, T>(&value).emit(),
            r is Err ==> final(self).len == old(self).len && r->Err_0 == lent::<U, T>(&value).err()''', start='slot_inv(self);'),
    'read': Fn('''
//A requires !(T::dec(self.used()) is Panics)
        ensures match T::dec(self.used()) { D::Panics => false, D::Ok(v, n) => r is Ok && r->Ok_0.val() == v, D::Err(e) => r is Err && r->Err_0 == e }''', start='slot_inv(self);'),
    'new': Fn('ensures r.wf(), r.buf@.len() == T::msize(), r.used() == Seq::<u8>::empty()'),
    'from_raw_parts': Fn('requires len <= cap ensures r.wf(), r.buf@ == owned_at(ptr, cap), r.buf@.len() == cap, r.len == len'),
})
for k, m in {'AsMut<[u8]>': 'as_mut', 'BorrowMut<[u8]>': 'borrow_mut', 'DerefMut': 'deref_mut'}.items():
    C.impl(f'{k} for Slot<T>', props='C13', fns={m: Fn('ensures slice(r) == old(self).buf@, final(self).len == old(self).len, slice(final(r)).len() == old(self).buf@.len() ==> final(self).wf() && final(self).buf@ == slice(final(r))')})
for k, m in {'AsRef<[u8]>': 'as_ref', 'Borrow<[u8]>': 'borrow', 'Deref': 'deref'}.items():
    C.impl(f'{k} for Slot<T>', props='C13', fns={m: Fn('ensures slice(r) == self.used()')})
C.impl('Default for Slot<T>', props='C13', fns={'default': Fn('ensures r.wf(), r.buf@.len() == T::msize(), r.used() == Seq::<u8>::empty()')})


# ------------------------------------------------------------------ comparing and hashing
def compare(key, header, fn, spec, props, start=''):
    C.impl(key, header=header, props=props, fns={fn: Fn(f'ensures {spec}', start=start)})
C.lemma('#[verifier::external_body] pub proof fn out_inv(s: &Output<\'_>) ensures s.wf() {}')
for k, m in {'AsRef<[u8]>': 'as_ref', 'Borrow<[u8]>': 'borrow'}.items():
    C.impl(f"{k} for Output<'_>", props='C07', fns={m: Fn('ensures slice(r) == self.written()', start='out_inv(self);')})

EQ = 'T: PartialEq<U>, U: PartialEq<T>, const N: usize'
compare('PartialEq<SizedSlice<U,M>> for SizedSlice<T, N>', f'impl<{EQ}, const M: usize> VfPartialEq<SizedSlice<U, M>> for {SS}', 'eq', 'r == seq_eq(self.elems(), other.elems())', 'C10')
compare('PartialEq<[U;M]> for SizedSlice<T, N>', f'impl<{EQ}, const M: usize> VfPartialEq<[U; M]> for {SS}', 'eq', 'r == seq_eq(self.elems(), other@)', 'C10')
compare('PartialEq<&[U]> for SizedSlice<T, N>', f'impl<{EQ}> VfPartialEq<&[U]> for {SS}', 'eq', 'r == seq_eq(self.elems(), other@)', 'C10')
compare('PartialEq<Vec<U>> for SizedSlice<T, N>', f'impl<{EQ}> VfPartialEq<Vec<U>> for {SS}', 'eq', 'r == seq_eq(self.elems(), other@)', 'C10')
PO = 'T: PartialOrd, const N: usize'
compare('PartialOrd<SizedSlice<T,M>> for SizedSlice<T, N>', f'impl<{PO}, const M: usize> VfPartialOrd<SizedSlice<T, M>> for {SS}', 'partial_cmp', 'r == seq_pcmp(self.elems(), other.elems())', 'C10')
compare('PartialOrd<[T;M]> for SizedSlice<T, N>', f'impl<{PO}, const M: usize> VfPartialOrd<[T; M]> for {SS}', 'partial_cmp', 'r == seq_pcmp(self.elems(), other@)', 'C10')
compare('PartialOrd<&[T]> for SizedSlice<T, N>', f'impl<{PO}> VfPartialOrd<&[T]> for {SS}', 'partial_cmp', 'r == seq_pcmp(self.elems(), other@)', 'C10')
compare('PartialOrd<Vec<T>> for SizedSlice<T, N>', f'impl<{PO}> VfPartialOrd<Vec<T>> for {SS}', 'partial_cmp', 'r == seq_pcmp(self.elems(), other@)', 'C10')
compare('Ord for SizedSlice<T, N>', f'impl<T: Ord, const N: usize> VfOrd for {SS}', 'cmp', 'r == seq_cmp(self.elems(), other.elems())', 'C10')
compare('Hash for SizedSlice<T, N>', f'impl<T: Hash, const N: usize> VfHash for {SS}', 'hash', '*final(state) == fed_seq(self.elems(), *old(state))', 'C10')
compare('PartialEq<SizedStr<M>> for SizedStr<N>', f'impl<const N: usize, const M: usize> VfPartialEq<SizedStr<M>> for {ST}', 'eq', 'r == (self.text() == other.text())', 'C11')
compare('PartialEq<&str> for SizedStr<N>', f'impl{NN} VfPartialEq<&str> for {ST}', 'eq', 'r == (self.text() == other@)', 'C11')
compare('PartialEq<String> for SizedStr<N>', f'impl{NN} VfPartialEq<String> for {ST}', 'eq', 'r == (self.text() == other@)', 'C11')
compare('PartialOrd<SizedStr<M>> for SizedStr<N>', f'impl<const N: usize, const M: usize> VfPartialOrd<SizedStr<M>> for {ST}', 'partial_cmp', 'r == Some(byte_cmp(self.bytes(), other.bytes()))', 'C11')
compare('PartialOrd<&str> for SizedStr<N>', f'impl{NN} VfPartialOrd<&str> for {ST}', 'partial_cmp', 'r == Some(byte_cmp(self.bytes(), encode_utf8(other@)))', 'C11')
compare('PartialOrd<String> for SizedStr<N>', f'impl{NN} VfPartialOrd<String> for {ST}', 'partial_cmp', 'r == Some(byte_cmp(self.bytes(), encode_utf8(other@)))', 'C11')
compare('Ord for SizedStr<N>', f'impl{NN} VfOrd for {ST}', 'cmp', 'r == byte_cmp(self.bytes(), other.bytes())', 'C11')
compare('Hash for SizedStr<N>', f'impl{NN} VfHash for {ST}', 'hash', '*final(state) == fed_text(self.text(), *old(state))', 'C11')
for r in ('[u8]', '&[u8]', '&mut [u8]'):
    o = '(*old(*other))@' if 'mut' in r else 'other@'
    compare(f'PartialEq<{r.replace("mut ", "mut")}> for Slot<T>', f'impl<T> VfPartialEq<{r}> for Slot<T>', 'eq', f'r == (self.used() == {o})', 'C13', 'broadcast use seq_eq_u8;')
    compare(f"PartialEq<{r.replace('mut ', 'mut')}> for Output<'_>", f"impl VfPartialEq<{r}> for Output<'_>", 'eq', f'r == (self.written() == {o})', 'C07', 'broadcast use seq_eq_u8; out_inv(self);')
compare("PartialEq for Output<'_>", "impl<'a> VfPartialEq<Output<'a>> for Output<'a>", 'eq', 'r == (self.written() == other.written())', 'C07', 'broadcast use seq_eq_u8; out_inv(self); out_inv(other);')

# ------------------------------------------------------------------ collecting
C.impl(f'FromIterator<T> for {SS}', header=f'impl<T, const N: usize> VfFromIterator<T> for {SS}', props='C10 C16', fns={'from_iter': Fn(
    'ensures r.wf(), r.elems() == drawn(iter_of(iter), N as nat)', ghost='let ghost src = iter_of(iter);',
    loop0="""invariant_except_break vf_n0 <= vf_m0, vf_m0 == N, len == vf_n0, inits::<T>(buf@, 0, len as int), drawn(src, N as nat) == win::<T>(buf@, 0, len as int) + drawn(iter, (N - len) as nat),
        ensures len <= N, inits::<T>(buf@, 0, len as int), drawn(src, N as nat) == win::<T>(buf@, 0, len as int),
        decreases vf_m0 - vf_n0""")})

CHAR = 'assert forall|c: char| #[trigger] encode_utf8(seq![c]).len() == %s && 1 <= encode_utf8(seq![c]).len() <= 4 by { one_char(c); }' % 'vstd::utf8::encode_scalar(c as u32).len()'
std_conv(NN, 'char', ST, 'StringError')
C.impl(f'TryFrom<char> for {ST}', props='C11', fns={'try_from': Fn('ensures str_new(encode_utf8(seq![value]), r)', start='one_char(value); encode_utf8_valid_utf8(seq![value]);')})
C.impl(f'FromIterator<char> for {ST}', header=f'impl{NN} VfFromIterator<char> for {ST}', props='C11', fns={'from_iter': Fn(
    'ensures r.wf(), r.bytes() == encode_utf8(fitted(iter_of(iter), N as nat))', ghost='let ghost src = iter_of(iter); let ghost mut got = Seq::<char>::empty();',
    loop0="""invariant_except_break fitted(src, N as nat) == got + fitted(vf_it0, (N - len) as nat),
        invariant len <= N, buf@.take(len as int) == encode_utf8(got),
        ensures len <= N, got == fitted(src, N as nat),
        decreases N - len""",
    before0='assert(encode_utf8(got) =~= buf@.take(0)); assert(got + fitted(vf_it0, N as nat) =~= fitted(vf_it0, N as nat));',
    head0='one_char(c);',
    tail0='vstd::utf8::encode_utf8_push(got, c); assert(buf@.take(len as int) =~= encode_utf8(got.push(c))); got = got.push(c);',
    after0='encode_utf8_valid_utf8(got);')})

# ------------------------------------------------------------------ lazy values: the initialiser's type is left open (the code fixes it to a function pointer)
for L in ('LazyCell', 'LazyLock'):
    f = f'forced::<{L}<T, F>, T>(self)'
    enc(f'Encode for {L}<T>', f'{f}.emit()', f'{f}.ok()', f'{f}.err()', props='C03 C05', header=f'impl<T: Encode, F: FnOnce() -> T> Encode for {L}<T, F>')
    C.impl(f'SizedEncode for {L}<T>', f'open spec fn msize() -> nat {{ T::msize() }}\n        proof fn fits(&self) {{ {f}.fits(); }}', props='C06',
        header=f'impl<T: SizedEncode, F: FnOnce() -> T> SizedEncode for {L}<T, F>', fns={'MAX_ENCODED_SIZE': Fn()})

C.invariants = {'SizedSlice': 'slice_inv', 'SizedStr': 'str_inv', 'Slot': 'slot_inv', 'Output': 'out_inv'}

# ------------------------------------------------------------------ indexing, iteration by reference
def index(g, key, trait, view, props, of, mview=None, keep='final(self).wf()'):
    mview = mview or view
    g2 = re.sub('>$', f', I: SliceIndex<{of}>>', g)
    sl = f'&{of}'
    C.impl(f'Index<I> for {key}', f'open spec fn vf_in(&self, index: I) -> bool {{ forall|s: {sl}| {trait}(s) == self.{view} ==> #[trigger] index.in_bounds(s) }}', props=props, header=f'impl{g2} VfIndex<I> for {key}', fns={'index': Fn(f'''ensures exists|s: {sl}| #![trigger index.index_postcondition(s, r)] {trait}(s) == self.{view} && index.in_bounds(s) && index.index_postcondition(s, r)''')})
    C.impl(f'IndexMut<I> for {key}', f'open spec fn vf_in_mut(&self, index: I) -> bool {{ forall|s: {sl}| {trait}(s) == self.{mview} ==> #[trigger] index.in_bounds(s) }}', props=props, header=f'impl{g2} VfIndexMut<I> for {key}', fns={'index_mut': Fn(f'''ensures exists|s: {sl}, t: {sl}| #![trigger index.index_mut_postcondition(s, t, r, final(r))] {trait}(s) == old(self).{mview} && index.in_bounds(s)
            && index.index_mut_postcondition(s, t, r, final(r)) && ({trait}(t).len() == old(self).{mview}.len() ==> {keep} && final(self).{mview} == {trait}(t))''')})
index('<T, const N: usize>', SS, 'slice', 'elems()', 'C10', '[T]')
index('<T>', 'Slot<T>', 'slice', 'used()', 'C13', '[u8]', 'buf@', 'final(self).wf() && final(self).len == old(self).len')
index('<const N: usize>', ST, 'text', 'text()', 'C11', 'str')
C.impl(f"IntoIterator for &'a {SS}", props='C10', header=f"impl<'a, T, const N: usize> VfIntoIterator for &'a {SS}", fns={'into_iter': Fn(
    'ensures r.remaining().len() == self.elems().len(), forall|i: int| 0 <= i < self.elems().len() ==> *#[trigger] r.remaining()[i] == self.elems()[i]', start='slice_inv(self);')})
C.impl(f"IntoIterator for &'a mut {SS}", props='C10', header=f"impl<'a, T, const N: usize> VfIntoIterator for &'a mut {SS}", fns={'into_iter': Fn(
    '''ensures r.remaining().len() == old(self).elems().len(), forall|i: int| 0 <= i < old(self).elems().len() ==> *#[trigger] r.remaining()[i] == old(self).elems()[i],
        final(self).wf(), final(self).elems().len() == old(self).elems().len(), forall|i: int| 0 <= i < old(self).elems().len() ==> #[trigger] final(self).elems()[i] == *final(r.remaining()[i])''', start='slice_inv(self);')})
# ------------------------------------------------------------------ formatting: that of the contents
for _t, _g, _k, _o, _v, _p, _plain in (('Debug', '<T, const N: usize>', SS, 'T', 'elems()', 'C10', 'false'), ('Debug', '<const N: usize>', ST, 'char', 'text()', 'C11', 'false'), ('Display', '<const N: usize>', ST, 'char', 'text()', 'C11', 'false'), ('Debug', '<T>', 'Slot<T>', 'u8', 'used()', 'C13', 'true')):
    C.impl(f'{_t} for {_k}', f'type Of = Seq<{_o}>; open spec fn vf_{_t.lower()}(&self) -> Seq<{_o}> {{ self.{_v} }} open spec fn vf_{_t.lower()}_plain() -> bool {{ {_plain} }}', props=_p, header=f'impl{_g} Vf{_t} for {_k}', fns={'fmt': Fn()})
# ------------------------------------------------------------------ the cause an error names
for _k, _g, _b in (
    ('ItemDecodeError<I, E>', '<I, E>', 'Some(dyn_of(self.error))'), ('ItemEncodeError<I, E>', '<I, E>', 'Some(dyn_of(self.error))'),
    ('CollectionDecodeError<L, I>', '<L, I>', 'match *self { CollectionDecodeError::BadLength(e) => Some(dyn_of(e)), CollectionDecodeError::BadItem(e) => Some(dyn_of(e)) }'),
    ('CollectionEncodeError<L, I>', '<L, I>', 'match *self { CollectionEncodeError::BadLength(e) => Some(dyn_of(e)), CollectionEncodeError::BadItem(e) => Some(dyn_of(e)) }'),
    ('EnumDecodeError<D, F>', '<D: Decode, F>', 'match *self { EnumDecodeError::InvalidDiscriminant(e) => Some(dyn_of(e)), EnumDecodeError::UnassignedDiscriminant { value } => None, EnumDecodeError::BadField(e) => Some(dyn_of(e)) }'),
    ('EnumEncodeError<D, F>', '<D: Encode, F>', 'match *self { EnumEncodeError::BadDiscriminant(e) => Some(dyn_of(e)), EnumEncodeError::BadField(e) => Some(dyn_of(e)) }'),
    ('GenericDecodeError', '', 'match *self { GenericDecodeError::BadString(e) => Some(dyn_of(e)), GenericDecodeError::NullString(e) => Some(dyn_of(e)), GenericDecodeError::NullInteger(e) => Some(dyn_of(e)), GenericDecodeError::SmallBuffer(e) => Some(dyn_of(e)), GenericDecodeError::UnassignedDiscriminant { value } => None, GenericDecodeError::NarrowSystemTime(e) => Some(dyn_of(e)) }'),
    ('GenericEncodeError', '', 'match *self { GenericEncodeError::BadBorrow(e) => Some(dyn_of(e)), GenericEncodeError::LargeIsize(e) => Some(dyn_of(e)), GenericEncodeError::LargeUsize(e) => Some(dyn_of(e)) }'),
    ('RefCellEncodeError<E>', '<E>', 'match *self { RefCellEncodeError::BadBorrow(e) => Some(dyn_of(e)), RefCellEncodeError::BadValue(e) => Some(dyn_of(e)) }'),
    ('StringError', '', 'match *self { StringError::BadUtf16(e) => Some(dyn_of(e)), StringError::BadUtf8(e) => Some(dyn_of(e)), StringError::SmallBuffer(e) => Some(dyn_of(e)) }')):
    C.impl(f'Error for {_k}', f"open spec fn vf_cause(&self) -> Option<VfDyn<'static>> {{ {_b} }}", props='C15', header=f'impl{_g} VfError for {_k}', fns={'source': Fn()})
# a copy-on-write value comes back where the owned form writes and means what the borrowed form does (the law of `ToOwned`)
C.lemma("""proof fn cow_round_trip<'a, T: RoundTrip + DecodeBorrowed<B>, B: ToOwned<Owned = T> + Encode>(c: &Cow<'a, B>, t: T, rest: Seq<u8>)
    requires t.ok(), t.emit() == cow_val(c).emit(), t.val() == c.val(),
    ensures <Cow<'a, B> as Decode>::dec(c.emit() + rest) == D::<T::V, <T as Decode>::Error>::Ok(c.val(), c.emit().len()),
{ t.round_trip(rest); }""", 'C02')
