//! C07: byte streams move exactly the requested bytes and never overrun.
use crate::{contracts, Src};
use core::borrow::Borrow;
use oct::decode::Input;
use oct::encode::Output;
use oct::error::{InputError, OutputError};

const B: usize = 5;

fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false }
    let mut i = 0;
    while i < a.len() { if a[i] != b[i] { return false } i += 1; }
    true
}
fn input_state(i: &Input, cap: usize, pos: usize) {
    assert!(i.capacity() == cap && i.position() == pos && i.remaining() == cap - pos, "capacity, position and remaining agree");
}
fn output_state(o: &Output, before: &[u8], pos: usize) {
    assert!(o.capacity() == before.len() && o.position() == pos && o.remaining() == before.len() - pos, "capacity, position and remaining agree");
    assert!(o.as_slice().len() == pos, "the view has exactly the written bytes");
}

contracts! {
    full 8 "every count; stream contents and lengths 0 to 5" fn c07_read_any_count(s) {
        let buf: [u8; B] = s.array::<B>();
        let (len, pre, n) = (s.len(B, B), s.len(B, B), s.usize());
        s.assume(pre <= len);
        let d = &buf[..len];
        let mut i = Input::new(d);
        input_state(&i, len, 0);
        match i.read(pre) { Ok(x) => assert!(eq(x, &d[..pre]), "read returns the next bytes"), Err(_) => panic!("a read that fits succeeds") }
        input_state(&i, len, pre);
        match i.read(n) {
            Ok(x) => { assert!(n <= len - pre, "a read beyond the end fails"); assert!(x.len() == n, "read returns exactly the requested count"); assert!(eq(x, &d[pre..pre + n]), "read returns the next bytes"); input_state(&i, len, pre + n); }
            Err(InputError { capacity, position, count }) => { assert!(n > len - pre, "a read that fits succeeds"); assert!(capacity == len && position == pre && count == n, "the error reports capacity, position and count"); input_state(&i, len, pre); }
        }
    }
    full 9 "stream lengths 0 to 5, destination lengths 0 to 7" fn c07_read_into(s) {
        let buf: [u8; B] = s.array::<B>();
        let old: [u8; 7] = s.array::<7>();
        let (len, pre, n) = (s.len(B, B), s.len(B, B), s.len(7, 7));
        s.assume(pre <= len);
        let d = &buf[..len];
        let mut dst = old;
        let mut i = Input::new(d);
        assert!(i.read(pre).is_ok(), "a read that fits succeeds");
        match i.read_into(&mut dst[..n]) {
            Ok(()) => {
                assert!(n <= len - pre, "a read beyond the end fails");
                input_state(&i, len, pre + n);
                let mut k = 0;
                while k < 7 { assert!(dst[k] == if k < n { d[pre + k] } else { old[k] }, "the destination holds exactly the next bytes"); k += 1; }
            }
            Err(InputError { capacity, position, count }) => {
                assert!(n > len - pre, "a read that fits succeeds");
                assert!(capacity == len && position == pre && count == n, "the error reports capacity, position and count");
                assert!(dst == old, "a failed read leaves the destination as it was");
                input_state(&i, len, pre);
            }
        }
    }
    full 9 "stream lengths 0 to 5, source lengths 0 to 7" fn c07_write(s) {
        let before: [u8; B] = s.array::<B>();
        let src: [u8; 7] = s.array::<7>();
        let (len, pre, n) = (s.len(B, B), s.len(B, B), s.len(7, 7));
        s.assume(pre <= len);
        let mut buf = before;
        {
            let mut o = Output::new(&mut buf[..len]);
            output_state(&o, &before[..len], 0);
            assert!(o.write(&src[..pre]).is_ok(), "a write that fits succeeds");
            output_state(&o, &before[..len], pre);
            match o.write(&src[..n]) {
                Ok(()) => {
                    assert!(n <= len - pre, "a write beyond the end fails");
                    output_state(&o, &before[..len], pre + n);
                    let w: &[u8] = o.as_slice();
                    let mut k = 0;
                    while k < w.len() { assert!(w[k] == if k < pre { src[k] } else { src[k - pre] }, "the written part is the concatenation of the writes"); k += 1; }
                }
                Err(OutputError { capacity, position, count }) => {
                    assert!(n > len - pre, "a write that fits succeeds");
                    assert!(capacity == len && position == pre && count == n, "the error reports capacity, position and count");
                    output_state(&o, &before[..len], pre);
                    assert!(eq(o.as_slice(), &src[..pre]), "a failed write changes nothing");
                }
            }
        }
        let done = if n <= len - pre { pre + n } else { pre };
        let mut k = 0;
        while k < B { assert!(buf[k] == if k < pre { src[k] } else if k < done { src[k - pre] } else { before[k] }, "bytes not reached stay untouched"); k += 1; }
    }
    full 8 "" fn c07_output_views(s) {
        let mut a: [u8; 4] = s.array::<4>();
        let (n, m) = (s.len(3, 3), s.len(3, 3));
        let w: [u8; 3] = s.array::<3>();
        let mut b: [u8; 3] = s.array::<3>();
        let mut o = Output::new(&mut a);
        assert!(o.write(&w[..n]).is_ok());
        let r: &[u8] = o.as_ref();
        assert!(eq(r, &w[..n]), "as_ref is the written part");
        let r: &[u8] = o.borrow();
        assert!(eq(r, &w[..n]), "borrow is the written part");
        assert!(o.as_ptr() == o.as_slice().as_ptr(), "the pointer is that of the first byte");
        let mut x = w;
        assert!(o == w[..n] && o == &w[..n] && o == &mut x[..n], "comparison sees the written part");
        let other = { let mut t = [0u8; 3]; let mut k = 0; while k < 3 { t[k] = s.u8(); k += 1; } t };
        assert!((o == other[..m]) == eq(&w[..n], &other[..m]), "comparison sees exactly the written part");
        let mut p = Output::new(&mut b);
        assert!(p.write(&other[..m]).is_ok());
        assert!((o == p) == eq(&w[..n], &other[..m]), "comparison of streams compares the written parts");
    }
    bounded 8 "4 operations, 5 bytes" fn c07_input_history(s) {
        let buf: [u8; B] = s.array::<B>();
        let mut i = Input::new(&buf);
        let mut pos = 0;
        let mut k = 0;
        while k < 4 {
            let n = s.len(6, 6);
            let fits = n <= B - pos;
            if s.bool() {
                match i.read(n) { Ok(x) => { assert!(fits && eq(x, &buf[pos..pos + n]), "read returns the next bytes"); pos += n; } Err(e) => assert!(!fits && e.capacity == B && e.position == pos && e.count == n, "the error is exact") }
            } else {
                let mut dst = [0xEEu8; 6];
                match i.read_into(&mut dst[..n]) { Ok(()) => { assert!(fits && eq(&dst[..n], &buf[pos..pos + n]), "read_into fills in the next bytes"); pos += n; } Err(e) => assert!(!fits && e.capacity == B && e.position == pos && e.count == n, "the error is exact") }
            }
            input_state(&i, B, pos);
            k += 1;
        }
    }
    native 0 "up to 40 operations on up to 64 bytes" fn c07_input_long(s) {
        let buf = s.bytes(8, 64);
        let mut i = Input::new(&buf);
        let mut pos = 0;
        for _ in 0..40 {
            let n = if s.below(8) == 0 { s.usize() } else { s.below(9) as usize };
            let fits = n <= buf.len() - pos;
            if s.bool() || n > 100 {
                match i.read(n) { Ok(x) => { assert!(fits && x == &buf[pos..pos + n]); assert!(x.as_ptr() == buf[pos..].as_ptr()); pos += n; } Err(e) => assert!(!fits && e.capacity == buf.len() && e.position == pos && e.count == n) }
            } else {
                let mut dst = vec![0xEEu8; n];
                match i.read_into(&mut dst) { Ok(()) => { assert!(fits && dst == &buf[pos..pos + n]); pos += n; } Err(e) => assert!(!fits && e.capacity == buf.len() && e.position == pos && e.count == n && dst.iter().all(|x| *x == 0xEE)) }
            }
            input_state(&i, buf.len(), pos);
        }
    }
    bounded 8 "3 writes, 5 bytes" fn c07_output_history(s) {
        let before: [u8; B] = s.array::<B>();
        let src: [u8; 6] = s.array::<6>();
        let mut buf = before;
        let mut model = before;
        let mut pos = 0;
        {
            let mut o = Output::new(&mut buf);
            let mut k = 0;
            while k < 3 {
                let n = s.len(6, 6);
                let fits = n <= B - pos;
                match o.write(&src[..n]) {
                    Ok(()) => { assert!(fits, "a write beyond the end fails"); let mut j = 0; while j < n { model[pos + j] = src[j]; j += 1; } pos += n; }
                    Err(e) => assert!(!fits && e.capacity == B && e.position == pos && e.count == n, "the error is exact"),
                }
                output_state(&o, &before, pos);
                assert!(eq(o.as_slice(), &model[..pos]), "the written part is the concatenation of the writes");
                k += 1;
            }
        }
        assert!(eq(&buf, &model), "bytes not reached stay untouched");
    }
    native 0 "up to 40 writes into up to 70000 bytes" fn c07_output_long(s) {
        let cap = s.len(8, 70000);
        let mut buf = vec![0xC3u8; cap];
        let mut model = Vec::new();
        {
            let mut o = Output::new(&mut buf);
            for _ in 0..40 {
                let n = if s.below(6) == 0 { s.u16() as usize } else { s.below(9) as usize };
                let x = s.u8();
                let d: Vec<u8> = (0..n).map(|k| x.wrapping_add(k as u8)).collect();
                let fits = n <= cap - model.len();
                match o.write(&d) { Ok(()) => { assert!(fits); model.extend_from_slice(&d); } Err(e) => assert!(!fits && e.capacity == cap && e.position == model.len() && e.count == n) }
                assert!(o.as_slice() == model && o.position() == model.len() && o.capacity() == cap && o.remaining() == cap - model.len());
            }
        }
        assert!(buf[..model.len()] == model && buf[model.len()..].iter().all(|x| *x == 0xC3));
    }
}
