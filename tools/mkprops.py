#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
D='oct/src/decode/decode/mod.rs'; E='oct/src/encode/encode/mod.rs'; S='oct/src/encode/sized_encode/mod.rs'
IN='oct/src/decode/input/mod.rs'; OUT='oct/src/encode/output/mod.rs'
def P(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m} for n,m in state]
    if observe: a['observe_at']=observe
    return dict(id=id,title=title,statement=statement,quantifier={'over':over,'text':text},why_tests_cant=why,anchors=a)
L=[]
L.append(P('C01','Scalars survive an encode/decode round trip',
 'Encoding any fixed-width scalar (integers of 8 to 128 bits, floats, booleans, characters, non-zero integers, atomics, and pointer-sized integers inside the 16-bit range) always succeeds, and decoding the result yields the same value, bit for bit even for NaNs and negative zeros. Decoding consumes exactly the bytes that encoding produced, whatever bytes follow them, and encoding reads but never changes the value.',
 ['inputs'],'every value of every scalar type, and every tail of bytes following its encoding',
 'the existing tests round-trip no scalar: they encode and decode a few dozen hand-written literals of the 2^128 possible values',
 [E,D],[('numeric encoders/decoders','impl_numeric!, impl_non_zero!, impl_atomic! in '+E+' and '+D),('bool, char, usize, isize','impl Encode/Decode for bool|char|usize|isize')],
 observe=['Encode::encode','Decode::decode','Input::position','Output::as_slice']))
L.append(P('C02','Compound and wrapper values survive a round trip',
 'Whenever its component values round-trip, so does any optional, result, range or range bound, tuple of one to twelve members, array, unit or marker value, smart pointer, copy-on-write value, cell, lock (poisoned or not), lazily initialised value or arithmetic wrapper built from them: encoding succeeds and decoding yields an equal value of the same variant. The bytes consumed are exactly the bytes produced, whatever follows them. A mutably borrowed dynamically-checked cell is reported as an error instead, with nothing written.',
 ['inputs','histories'],'every variant and every component value; the range values are those not already exhausted by iteration',
 'tests decode one or two literal values of a few compound types and never feed an encoder\'s output to the decoder',
 [E,D],[('Option, Result, Bound','impl Encode/Decode for Option<T>|Result<T, E>|Bound<T>'),('tuples and arrays','impl_tuple!, impl for [T; N]'),('ranges','impl for Range*<T>'),('pointers, cells, locks, wrappers','impl for Box|Rc|Arc|Cow|Cell|RefCell|Mutex|RwLock|LazyCell|LazyLock|Wrapping|Saturating')]))
L.append(P('C03','Collections and strings survive a round trip at every length',
 'Any vector, slice, linked list, hash map, hash set, text string or C string, and any fixed-capacity vector or string, whose elements round-trip and whose length is at most 65535 encodes successfully and decodes to an equal collection: same length, same elements, same order where order exists. The bytes consumed are exactly the bytes produced, whatever follows them.',
 ['inputs'],'every length from 0 to 65535, every element value, every capacity at least the length',
 'tests use collections of at most a handful of elements, and never decode what they encoded',
 [E,D,'oct/src/sized_slice/code.rs','oct/src/sized_str/code.rs'],[('slices and vectors','impl for [T], Vec<T>, LinkedList<T>'),('maps and sets','impl for HashMap<K, V, S>, HashSet<K, S>'),('strings','impl for str, String, CStr, CString'),('fixed-capacity containers','oct/src/sized_slice/code.rs, oct/src/sized_str/code.rs')]))
L.append(P('C04','Network addresses and times survive a round trip',
 'Every IP address, socket address (with port, flow information and scope identifier) and duration decodes from its encoding to an equal value, consuming exactly the bytes produced. A system time, before or after the UNIX epoch, decodes to the same instant with its sub-second part dropped towards the epoch, and any whole-second system time decodes to itself.',
 ['inputs'],'all addresses, ports, flow labels and scopes, all durations, all representable system times',
 'one or two literal addresses and timestamps are tested out of more than 2^128',
 [E,D],[('addresses','impl for IpAddr|Ipv4Addr|Ipv6Addr|SocketAddr|SocketAddrV4|SocketAddrV6'),('times','impl for Duration|SystemTime')]))
L.append(P('C05','Encodings follow the specified wire format',
 'Every numeric value is written in little-endian order at its own width, characters as 32-bit code points, booleans as a byte 0 or 1, and pointer-sized integers as two bytes. Sequences and strings start with their two-byte element count (arrays have no count), optionals and results with a boolean sign (true for a present value or an error), range bounds with a byte 0, 1 or 2 (included, excluded, unbounded) and IP and socket addresses with a byte 4 or 6, followed by the contents. Composite values are exactly the concatenation of their parts in declaration order, independent of what was written before.',
 ['inputs'],'every value of every supported type, and every preceding stream content',
 'the literal byte strings in tests pin single values; a format slip that depends on the value, the length or the stream position passes them',
 [E],[('per-type encoders','impl Encode for … in '+E)]))
L.append(P('C06','No encoding exceeds the declared maximum size',
 'For every type with a declared maximum encoded size, encoding any value of it produces at most that many bytes, so a buffer of exactly that size never overflows. The declared size of a scalar is its exact encoded width, and that of a compound type is the tight sum or maximum over its parts.',
 ['inputs','programs'],'every value of every sized-encodable type, and every composition of them',
 'tests compare a few constants with hand-computed numbers; they never compare the constant with the bytes actually written',
 [S,'oct/src/sized_slice/code.rs','oct/src/sized_str/code.rs','oct-macros/src/impls/sized_encode_enum.rs','oct-macros/src/impls/sized_encode_struct.rs'],[('size constants','SizedEncode::MAX_ENCODED_SIZE impls')]))
L.append(P('C07','Byte streams move exactly the requested bytes and never overrun',
 'Reading or writing n bytes on a stream either transfers exactly the next n bytes in order and advances the position by n, or, precisely when fewer than n bytes remain, fails reporting the capacity, position and count and changes nothing. Across any sequence of operations the position never exceeds the capacity, remaining plus position equals capacity, bytes already written or not yet reached stay untouched, and the written part always reads back as the concatenation of the successful writes.',
 ['inputs','histories'],'all buffers, all request sizes up to the largest pointer-sized integer, all sequences of operations',
 'no existing test calls a stream directly; unchecked pointer arithmetic misbehaves only for particular positions and counts',
 [IN,OUT],[('Input::read, read_into','oct/src/decode/input/mod.rs'),('Output::write, as_slice','oct/src/encode/output/mod.rs')],
 state=[('pos','cursor, always at most the buffer length'),('buf','the borrowed buffer')]))
L.append(P('C08','Decoding arbitrary bytes never produces an invalid value',
 'Given any bytes long enough for what they announce, decoding yields either a valid value or the documented error, never an invalid value, a panic or undefined behaviour: surrogate and out-of-range code points, zero for non-zero integers, ill-formed UTF-8, embedded nuls, unassigned discriminants, over-long fixed-capacity contents and unrepresentable times are errors and everything else is accepted, with any non-zero byte meaning true. Bytes that end too early cause a panic, never an out-of-bounds read or a made-up value.',
 ['inputs'],'every byte string, for every decodable type',
 'tests feed well-formed inputs plus two surrogate literals; hostile inputs are unbounded in number',
 [D,'oct/src/sized_slice/code.rs','oct/src/sized_str/code.rs','oct/src/sized_str/conv.rs'],[('validation in decoders','impl Decode for char|NonZero|String|CString|Bound|IpAddr|SocketAddr|SystemTime'),('bounded containers','sized_slice/code.rs, sized_str/code.rs')]))
L.append(P('C09','Unencodable values are rejected, never truncated',
 'Encoding an unsigned pointer-sized integer above 65535, a signed one outside the 16-bit range, or a collection or string with more than 65535 elements fails with an error carrying the offending value, and writes nothing for it. Every other value of those types encodes in full, and a failing component makes the enclosing encoding fail with that component\'s error, never succeed with partial output.',
 ['inputs'],'all 2^64 pointer-sized values, all collection lengths, every position of a failing element',
 'no test encodes a value that must be rejected',
 [E],[('usize, isize','impl Encode for usize|isize'),('length prefixes','impl Encode for [T], LinkedList, HashMap, HashSet, CStr, str')]))
L.append(P('C10','The fixed-capacity vector behaves as a bounded sequence',
 'A fixed-capacity vector holds at most its capacity and exactly the elements given to it: construction or copying from longer data is refused (with the capacity and length where an error is returned) and collecting from an iterator keeps the longest fitting prefix. Length, emptiness, fullness, slices, indexing, references to each element, clones and conversions to and from arrays, slices, vectors, boxes and raw parts all agree with that sequence, and equality, ordering and hashing coincide with those of the equivalent slice.',
 ['inputs','histories'],'all capacities, all source lengths on both sides of the capacity, all element values',
 'one existing test collects eight numbers; boundary lengths, conversions, ordering and hashing are not exercised',
 ['oct/src/sized_slice/mod.rs','oct/src/sized_slice/conv.rs','oct/src/sized_slice/cmp.rs','oct/src/sized_slice/iter.rs'],[('constructors and accessors','oct/src/sized_slice/mod.rs'),('conversions','oct/src/sized_slice/conv.rs'),('comparison','oct/src/sized_slice/cmp.rs'),('collection','oct/src/sized_slice/iter.rs')],
 state=[('len','number of initialised elements, at most N'),('buf','storage; the first len elements are initialised')]))
L.append(P('C11','The fixed-capacity string is always valid, bounded UTF-8',
 'A fixed-capacity string always holds well-formed UTF-8 no longer than its capacity in bytes: construction from longer or ill-formed data fails with the capacity and length, or with the index and value of the first offending byte, and collecting characters keeps the longest prefix of whole characters that fits. Every accessor, clone, conversion, comparison, hash and formatting of it agrees with the equivalent ordinary string.',
 ['inputs'],'all byte strings, all capacities, all character sequences',
 'existing tests use four literals; multi-byte boundaries against the capacity and malformed sequences are unbounded in number',
 ['oct/src/sized_str/mod.rs','oct/src/sized_str/conv.rs','oct/src/sized_str/cmp.rs'],[('construction','SizedStr::new, from_utf8, from_str, try_from, from_iter'),('views and conversions','oct/src/sized_str/conv.rs'),('comparison','oct/src/sized_str/cmp.rs')]))
L.append(P('C12','The owning iterator yields each element once, from both ends',
 'Iterating a fixed-capacity vector by value yields every element exactly once, in order from the front and in reverse from the back under any interleaving, then nothing for ever. At every moment the reported remaining count, the remaining-elements view and a clone agree with what is still to come.',
 ['histories','inputs'],'all interleavings of front and back steps, views, hints and clones, for all lengths and capacities',
 'two fixed sequences are tested; the number of interleavings is unbounded',
 ['oct/src/sized_iter/mod.rs','oct/src/sized_slice/iter.rs'],[('next, next_back, nth, size_hint, as_slice, clone','oct/src/sized_iter/mod.rs')],
 state=[('pos','index of the next front element'),('len','number of remaining elements')]))
L.append(P('C13','A slot returns what was written and exposes only its used part',
 'After a successful write, reading a slot gives back the written value and its length and contents are exactly the encoding; a failed write leaves the length as it was. The length never exceeds the capacity (over-long copies and lengths are refused by panicking without touching the slot), the shared views, comparisons and decoding see only the used bytes while the mutable view is the whole buffer, and a slot sized for its type never overflows.',
 ['histories','inputs'],'all sequences of writes, copies, length changes and reads, all payloads and capacities',
 'one fixed sequence of three operations is tested',
 ['oct/src/slot/mod.rs'],[('write, read, copy_from_slice, set_len','oct/src/slot/mod.rs')],
 state=[('len','number of used bytes, at most the capacity'),('buf','allocated bytes, all initialised')]))
L.append(P('C14','Derived implementations follow the declaration',
 'A derived encoding is the concatenation of the fields in declaration order, preceded for enumerations by the variant\'s discriminant in the declared representation (pointer-sized when none is declared), where discriminants are the explicit ones or one more than the previous variant\'s, starting at zero. Derived decoding is its exact inverse and rejects every unassigned discriminant, reporting its value. The derived maximum size is the sum of the fields\' sizes, and for an enumeration the largest such sum over its variants plus the discriminant\'s size.',
 ['programs','inputs'],'all struct and enum shapes and representations, all field values, all discriminant values',
 'a few small shapes with one literal value each are tested; representations, gaps in discriminants and generics are not',
 ['oct-macros/src/impls/encode_enum.rs','oct-macros/src/impls/decode_enum.rs','oct-macros/src/impls/encode_struct.rs','oct-macros/src/impls/decode_struct.rs','oct-macros/src/impls/sized_encode_enum.rs','oct-macros/src/impls/sized_encode_struct.rs','oct-macros/src/discriminants/mod.rs','oct-macros/src/repr/mod.rs'],[('derive macros','oct-macros/src/impls/*.rs'),('discriminant numbering','oct-macros/src/discriminants/mod.rs'),('representation','oct-macros/src/repr/mod.rs')]))
L.append(P('C15','Errors report exactly what went wrong and survive conversion',
 'Every decoding or encoding error carries the true cause: the index of the first failing element together with that element\'s own error, the offending code point, octet and offset, timestamp, integer, or discriminant, or the capacity and length that did not fit. Converting any such error to the general error types keeps that information unchanged, with discriminants zero-extended to 128 bits.',
 ['inputs'],'every failing input, every position of the failing element, every discriminant value of every integer width',
 'tests inspect two error values; the index and value fields are never checked across positions',
 ['oct/src/error/generic_decode_error.rs','oct/src/error/generic_encode_error.rs','oct/src/primitive_discriminant/mod.rs',D,E],[('error construction','map_err in decoders and encoders'),('conversions','oct/src/error/generic_*_error.rs'),('to_u128','oct/src/primitive_discriminant/mod.rs')]))
L.append(P('C16','Owned elements are never duplicated, destroyed twice or used after a move',
 'Moving elements into a fixed-capacity vector, out of it through its iterator (also partially, from either end), into a box or ordinary vector or back into raw parts, cloning it, and decoding into any collection (also when decoding fails part-way) never destroys an element twice, never exposes an element after it was destroyed or moved out, and never reads or frees memory it does not own. Elements handed over to a caller are destroyed exactly once, by that caller.',
 ['histories','inputs'],'all interleavings of moves, partial iteration and drops; all positions of a failing element',
 'existing tests only use plain copyable elements, for which a double destruction or use after free is invisible',
 ['oct/src/sized_slice/conv.rs','oct/src/sized_slice/iter.rs','oct/src/sized_iter/mod.rs',D],[('moves','From<[T; N]>, into_raw_parts, into_boxed_slice, into_iter'),('iterator','SizedIter::next, next_back, clone'),('in-place initialisation','impl Decode for Vec<T>, [T; N], SizedSlice<T, N>')]))
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x,ensure_ascii=True)+'\n' for x in L))
for x in L:
    assert len(x['title'])<=80
    import re; n=len(re.findall(r'[.!?](?:\s|$)',x['statement'])); assert n<=3,(x['id'],n)
print(len(L))
