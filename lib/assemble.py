"""Joins the functions extracted from rustc's expansion of /repo with the contracts in /verif/verus
into one file for Verus.

A contract names an impl by the key the extractor prints ("Encode for Option<T>") and gives the
specification items of that impl and, per function, requires/ensures, loop invariants and proof
hints.  Nothing of an executable body is written here: bodies come from the expansion only."""
import re


class Fn:
    def __init__(self, spec='', start='', attrs='', ret='r', after='', **hints):
        self.spec, self.start, self.attrs, self.ret, self.hints, self.after = spec, start, attrs, ret, hints, after


class Contracts:
    def __init__(self):
        self.impls = {}     # key -> (spec items, {name: Fn}, props)
        self.types = {}     # struct/enum name -> attribute text
        self.aux = []       # (text, props): lemmas and specification functions
        self.fields = {}
        self.invariants = {}    # type -> the axiom that states its invariant

    def impl(self, key, items='', fns=None, props='', header=None, lemma=''):
        assert key not in self.impls, key
        self.impls[key] = dict(items=items, fns=fns or {}, props=props.split(), header=header)
        if lemma:
            self.lemma(lemma, props)

    def lemma(self, text, props=''):
        self.aux.append((text, props.split()))

    def type(self, *names, attrs=''):
        for n in names:
            self.types[n] = attrs


def mode_lines(text, mode):
    out = []
    for l in text.split('\n'):
        m = re.match(r'\s*//([AB]) (.*)', l)
        if m:
            l = m.group(2) if m.group(1) == mode else ''
        out.append(l)
    return '\n'.join(out)


def place_hints(body, fn, name):
    """Insert loop contracts and hints; return (text, problem)."""
    loops = set(re.findall(r'/\*@loop (\d+)\*/', body))
    want = {k[4:] for k in fn.hints if k.startswith('loop')}
    if loops != want:
        return None, f'{name}: the contract describes loops {sorted(want)}, the code has {sorted(loops)}'
    for what in ('before', 'loop', 'head', 'tail', 'after'):
        def sub(m):
            t = fn.hints.get(what + m.group(1), '')
            if t and what != 'loop':
                return ' proof { ' + t + '\n } '
            return '\n' + t + '\n' if t else ''
        body = re.sub(r'/\*@%s (\d+)\*/' % what, sub, body)
    start = fn.start
    method = name.split('::')[-1] if ' for ' in name else ''
    # mention the specification functions of this impl, so that Verus orders their definitions first
    if method == 'encode':
        start = 'let _ = (self.emit(), self.ok(), self.err()); ' + start
    if method == 'decode':
        start = 'let _ = Self::dec(Seq::empty()); ' + start
    ghost = fn.hints.get('ghost', '')
    if start or ghost:
        i = body.index('{') + 1
        body = body[:i] + ' ' + ghost + ' proof { ' + start + '\n } ' + body[i:]
    return body, None


PRIM = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'u64': 8, 'i64': 8, 'u128': 16, 'i128': 16, 'f32': 4, 'f64': 8}


def params(fn, sig):
    # hints call the stream `input` or `output`, whatever the source calls it
    ren = {}
    for m in re.finditer(r'(\w+)\s*:\s*&mut (?:\w+::)*(Input|Output)\b', sig):
        if m.group(1) != m.group(2).lower():
            ren[m.group(2).lower()] = m.group(1)
    if not ren:
        return fn
    def sub(t):
        for a, b in ren.items():
            t = re.sub(r'(?<![.\w])%s\b' % a, b, t)
        return t
    return Fn(spec=fn.spec, start=sub(fn.start), attrs=fn.attrs, ret=fn.ret, **{k: sub(v) for k, v in fn.hints.items()})


class Assembly:
    def __init__(self, items, contracts, preludes, mode, trust=(), drop=(), probe=False):
        self.mode, self.trust, self.drop, self.probe = mode, set(trust), set(drop), probe
        self.lines, self.owner = [], {}     # line number -> obligation
        self.obl = {}                       # obligation -> dict(kind, props)
        self.undecided, self.unreached = [], []
        self.rules = {}
        self.used, self.seen = set(), {}
        self.items, self.c = items, contracts
        self.put('#![allow(unused, non_snake_case, non_camel_case_types)]\n#![feature(allocator_api)]')
        self.put('use vstd::prelude::*;')
        self.put(open_use())
        self.put('verus! {')
        for name, text in preludes:
            self.put(mode_lines(text, mode), owner='prelude ' + name)
        for it in items:
            if it['kind'] in ('struct', 'enum') and it['key'] in contracts.types:
                self.data(it)
        for it in items:
            if it['kind'] == 'impl':
                self.impl(it)
        for text, props in contracts.aux:
            m = re.search(r'proof fn (\w+)|impl[^{]*?(\w+) for ([^{]+)', text)
            name = 'lemma ' + (flat(m.group(0)) if m else flat(text)[:40])
            if name in self.drop:
                self.undecided.append((f'{name}: not accepted by the front end of the verifier', props))
                continue
            if re.search(r'proof fn', text):
                self.obl[name] = dict(kind='lemma', props=props)
            self.put(spin(mode_lines(text, mode)), owner=name)
        for k, c in contracts.impls.items():
            if k not in self.used:
                self.undecided.append((f'{k} is not in the source', c['props']))
            for n in c['fns']:
                if k in self.seen and n not in self.seen[k]:
                    self.undecided.append((f'{k}::{n} is not in the source', c['props']))
        for n in contracts.types:
            if n not in self.used:
                self.undecided.append((f'type {n} is not in the source', []))
        self.put('} // verus!')
        self.put('pub mod encode { pub use crate::*; } pub mod decode { pub use crate::*; } pub mod error { pub use crate::*; }')
        self.put('fn main() {}')

    def put(self, text, owner=None):
        for l in text.split('\n'):
            self.lines.append(l)
            if owner:
                self.owner[len(self.lines)] = owner

    def text(self):
        return '\n'.join(self.lines) + '\n'

    def data(self, it):
        self.used.add(it['key'])
        attrs = self.c.types[it['key']]
        where = (' ' + it['where']) if it.get('where') else ''
        f = [re.sub(r'PhantomData<fn\(\) -> (\w+)>', r'PhantomData<\1>', x) for x in it['fields']]
        if it['kind'] == 'struct' and not it['named'] and not f:
            body = where + ';'
        elif it['kind'] == 'enum' or it['named']:
            body = f'{where} {{ ' + ', '.join(f) + ' }'
        else:
            body = '(' + ', '.join(f) + ')' + where + ';'
        self.put(f"{attrs}\npub {it['kind']} {it['key']}{it['generics']}{body}", owner='type ' + it['key'])

    def impl(self, it):
        key = it['key']
        c = self.c.impls.get(key)
        if c is None:
            for m in it['members']:
                if m['kind'] == 'fn':
                    self.unreached.append(f"{key}::{m['name']}")
            return
        trait = ' for ' in key
        if key in self.used and trait:
            self.undecided.append((f'{key}: several impls', c['props']))
            return
        self.used.add(key)
        if key in self.drop:
            self.undecided.append((f'{key}: not accepted by the front end of the verifier', c['props']))
            return
        self.put((c['header'] or it['header']) + ' {', owner='impl ' + key)
        seen = self.seen.setdefault(key, set())
        for m in it['members']:
            if m['kind'] == 'type':
                self.put(m['text'], owner='impl ' + key)
            elif m['kind'] == 'const':
                self.const(key, it, m, c)
                seen.add(m['name'])
            elif m['kind'] == 'fn':
                name = f"{key}::{m['name']}"
                fn = c['fns'].get(m['name'])
                if fn is None:
                    if trait and m['name'] in ('encode', 'decode'):
                        fn = Fn()
                    else:
                        self.unreached.append(name)
                        continue
                seen.add(m['name'])
                self.fn(name, it, m, fn, c, trait)
        if c['items']:
            self.put(spin(self.plain_error(it, mode_lines(c['items'], self.mode))), owner='spec ' + key)
            if 'proof fn' in c['items']:
                self.obl['spec ' + key] = dict(kind='lemma', props=c['props'])
        self.put('}')

    def const(self, key, it, m, c):
        if m['name'] == 'MAX_ENCODED_SIZE':
            name = f'{key}::MAX_ENCODED_SIZE'
            fn = c['fns'].get('MAX_ENCODED_SIZE', Fn())
            self.obl[name] = dict(kind='const', props=c['props'])
            if name in self.trust:
                self.put(f"#[verifier::external_body] fn vf_max() -> (r: usize) {{ unimplemented!() }}", owner=name)
            else:
                hint = f'proof {{ {fn.start} }}' if fn.start else ''
                if self.probe: hint = 'proof { assert(false); } ' + hint
                self.put(f"#[verifier::spinoff_prover] fn vf_max() -> (r: usize) {{ {hint} {m['expr']} }}", owner=name)
        else:
            self.undecided.append((f"{key}: constant {m['name']}", c['props']))

    def fn(self, name, it, m, fn, c, trait):
        key = it['key']
        self.obl[name] = dict(kind='fn', props=c['props'])
        for r in m['rules']:
            self.rules.setdefault(r, set()).add(name)
        sig = re.sub(r'\bconst (unsafe )?fn\b', r'\1fn', m['sig'])
        ret = m['ret'] or '()'
        sig = sig.replace('@RET@', f'-> ({fn.ret}: {ret})' if ret != '()' or not m['sig'].rstrip().endswith('@RET@') else f'-> ({fn.ret}: ())')
        vis = '' if trait else 'pub '
        sig = self.plain_error(it, sig)
        sig, _, where = sig.partition(' where ')
        problem = None
        if m['bad']:
            problem = f"{name}: {m['bad'][0]}"
            body = None
        else:
            body, problem = place_hints(m['body'], params(self.invariant(it, m, fn), m['sig']), name)
            if body:
                body = mode_lines(body, self.mode)
        if name in self.trust:
            problem = problem or f'{name}: not accepted by the front end of the verifier'
        if body:
            body = re.sub(r'\[0u8; /\*@len (.*?)\*/\]', lambda x: self.zeros(it, x.group(1)), body)
            body = re.sub(r'use ::[\w:]+;', '', body)
            for m2 in re.findall(r'use (\w+) as (\w+);', body):       # a local name for an enum
                body = re.sub(r'\b%s::' % m2[1], m2[0] + '::', body.replace('use %s as %s;' % m2, ''))
            body = re.sub(r'\bInto::into\(', 'vf_into(', body)
            body = re.sub(r'\bBox::from_raw\(', 'vf_box_from_raw(', body)
            if 'vf_into(' in body:
                body = body.replace('{', '{ broadcast use std_conversions; ', 1)
            for x in re.findall(r'(\w+)\s*:\s*&(?:\'\w+ )?str\b', m['sig']):
                body = re.sub(r'(?<![\w.])%s\.len\(\)' % x, f'vf_str_len({x})', body)
            if self.probe:
                i = body.index('{') + 1
                body = body[:i] + ' proof { assert(false); } ' + body[i:]
            if key == 'Slot<T>':
                body = re.sub(r'(?<![\w.])(\w+)\.borrow\(\)', r'vf_borrow::<_, T>(&\1)', body)
        if problem:
            self.undecided.append((problem, c['props']))
            self.obl.pop(name)
            body = '{ unimplemented!() }'
            self.put('#[verifier::external_body]')
        else:
            self.put('#[verifier::spinoff_prover]')
        if fn.attrs:
            self.put(fn.attrs)
        spec = mode_lines(fn.spec, self.mode)
        if where:
            where = ' where ' + where
        self.put(f'{vis}{flat(sig)}{where}\n{spec}\n{body}', owner=name)

    def invariant(self, it, m, fn):
        # the type invariant of the receiver, proved by whatever builds or changes one, may be used at the start
        own = re.match(r'(?:&(?:mut )?)?(?:\w+::)*(\w+)', it['key'].split(' for ')[-1])
        inv = self.c.invariants.get(own.group(1)) if own else None
        r = re.match(r'[^(]*(?:<[^(]*>)?\(\s*(&[^,)]*?\bself|(?:mut )?self)\b', m['sig'])
        if not inv or not r or f'{inv}(' in fn.start or it['key'].startswith('&'):
            return fn
        return Fn(spec=fn.spec, start=f"{inv}({'self' if r.group(1).startswith('&') else '&self'}); " + fn.start, attrs=fn.attrs, ret=fn.ret, **fn.hints)

    def plain_error(self, it, text):
        # Self::Error, where it involves a type parameter bound by a projection, is written out (the front end cannot normalise it)
        for t in it['members']:
            e = t.get('text', '').partition('=')[2].strip(' ;')
            if t['kind'] == 'type' and t['name'] == 'Error' and re.search(r'(Error|Owned) *= *\w', it['header']):
                text = text.replace('Self::Error', e)
        return text

    def zeros(self, it, text):
        n = None
        t = it['key'].split(' for ')[-1]
        if 'MAX_ENCODED_SIZE' in text and t in PRIM:
            n = PRIM[t]
        return f'[0u8; {n}]' if n else text


def spin(text):
    return re.sub(r'(?<!broadcast )(?<!\w)proof fn', '#[verifier::spinoff_prover] proof fn', re.sub(r'pub proof fn', 'proof fn', text))


def flat(s):
    return ' '.join(s.split())


def open_use():
    return '''extern crate self as oct;
extern crate alloc;
use core::convert::Infallible;
use vstd::std_specs::nonzero::*;
use vstd::utf8::{encode_utf8_valid_utf8, encode_utf8_decode_utf8, decode_utf8, encode_utf8, valid_utf8};
use core::marker::{PhantomData, PhantomPinned};
use core::mem::{ManuallyDrop, MaybeUninit};
use core::ops::{Bound, Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive, Deref, DerefMut};
use core::num::{Saturating, Wrapping, NonZero};
use core::cell::{BorrowError, Cell, Ref, RefCell, LazyCell};
use core::time::Duration;
use core::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6};
use core::hash::{BuildHasher, Hash};
use core::fmt::{self, Formatter};
use std::sync::{Arc, Mutex, MutexGuard, PoisonError, RwLock, RwLockReadGuard, LazyLock};
use std::sync::atomic::*;
use std::rc::Rc;
use std::borrow::{Borrow, BorrowMut, Cow, ToOwned};
use std::collections::{HashMap, HashSet, LinkedList};
use std::ffi::{CStr, CString};
use core::{ptr, slice, str::{CharIndices, Chars}};
use core::slice::SliceIndex;
use vstd::slice::SliceIndexSpec;
use vstd::std_specs::iter::IteratorSpec;
use std::str::FromStr;
use std::time::{SystemTime, SystemTimeError};
use vstd::std_specs::cmp::*;
'''
