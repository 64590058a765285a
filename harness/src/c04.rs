//! C04: network addresses and times survive a round trip.
use crate::common::*;
use crate::{contracts, Src};
use core::net::*;
use core::time::Duration;
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};
use std::time::{SystemTime, UNIX_EPOCH};

fn v4<S: Src>(s: &mut S) -> Ipv4Addr { Ipv4Addr::new(s.u8(), s.u8(), s.u8(), s.u8()) }
fn v6<S: Src>(s: &mut S) -> Ipv6Addr { Ipv6Addr::new(s.u16(), s.u16(), s.u16(), s.u16(), s.u16(), s.u16(), s.u16(), s.u16()) }

contracts! {
    full 34 "" fn c04_ip(s) {
        let a = v4(s);
        roundtrip::<6, _, _>(s, &a, |_, b| a.octets() == b.octets());
        let a = v6(s);
        roundtrip::<18, _, _>(s, &a, |_, b| a.segments() == b.segments());
    }
    full 34 "" fn c04_ip_any(s) {
        let c = s.bool();
        let a = if c { IpAddr::V4(v4(s)) } else { IpAddr::V6(v6(s)) };
        roundtrip::<19, _, _>(s, &a, |_, b| match (a, *b) { (IpAddr::V4(x), IpAddr::V4(y)) => x.octets() == y.octets(), (IpAddr::V6(x), IpAddr::V6(y)) => x.segments() == y.segments(), _ => false });
    }
    full 34 "" fn c04_socket(s) {
        let a = SocketAddrV4::new(v4(s), s.u16());
        roundtrip::<8, _, _>(s, &a, |_, b| a.ip().octets() == b.ip().octets() && a.port() == b.port());
        let a = SocketAddrV6::new(v6(s), s.u16(), s.u32(), s.u32());
        roundtrip::<28, _, _>(s, &a, |_, b| a.ip().segments() == b.ip().segments() && a.port() == b.port() && a.flowinfo() == b.flowinfo() && a.scope_id() == b.scope_id());
    }
    full 34 "" fn c04_socket_any(s) {
        let c = s.bool();
        let a = if c { SocketAddr::V4(SocketAddrV4::new(v4(s), s.u16())) } else { SocketAddr::V6(SocketAddrV6::new(v6(s), s.u16(), s.u32(), s.u32())) };
        roundtrip::<29, _, _>(s, &a, |_, b| match (a, *b) {
            (SocketAddr::V4(x), SocketAddr::V4(y)) => x.ip().octets() == y.ip().octets() && x.port() == y.port(),
            (SocketAddr::V6(x), SocketAddr::V6(y)) => x.ip().segments() == y.ip().segments() && x.port() == y.port() && x.flowinfo() == y.flowinfo() && x.scope_id() == y.scope_id(),
            _ => false });
    }
    full 34 "" fn c04_duration(s) {
        let (a, b) = (s.u64(), s.u32());
        s.assume(b < 1_000_000_000);
        let d = Duration::new(a, b);
        roundtrip::<14, _, _>(s, &d, |_, e| e.as_secs() == a && e.subsec_nanos() == b);
    }
    full 34 "system times at least at the epoch" fn c04_time_after(s) {
        let (a, b) = (s.u64(), s.u32());
        s.assume(b < 1_000_000_000);
        s.assume(a <= i64::MAX as u64);
        let t = UNIX_EPOCH.checked_add(Duration::new(a, b));
        s.assume(t.is_some());
        let t = t.unwrap();
        let whole = UNIX_EPOCH.checked_add(Duration::new(a, 0)).unwrap();
        roundtrip::<10, _, _>(s, &t, |_, u| *u == whole);
    }
    full 34 "system times before the epoch" fn c04_time_before(s) {
        let (a, b) = (s.u64(), s.u32());
        s.assume(b < 1_000_000_000);
        s.assume(a <= 1u64 << 63);
        let t = UNIX_EPOCH.checked_sub(Duration::new(a, b));
        s.assume(t.is_some());
        let t = t.unwrap();
        let whole = UNIX_EPOCH.checked_sub(Duration::new(a, 0)).unwrap();
        roundtrip::<10, _, _>(s, &t, |_, u| *u == whole);
    }
    full 40 "what is assumed of the library's addresses and durations" fn c04_trusted(s) {
        let (x, y) = (s.u32(), s.u128());
        assert!(Ipv4Addr::from_bits(x).to_bits() == x && Ipv6Addr::from_bits(y).to_bits() == y);
        let (p, f, c) = (s.u16(), s.u32(), s.u32());
        let a = SocketAddrV4::new(Ipv4Addr::from_bits(x), p);
        assert!(a.ip().to_bits() == x && a.port() == p);
        let a = SocketAddrV6::new(Ipv6Addr::from_bits(y), p, f, c);
        assert!(a.ip().to_bits() == y && a.port() == p && a.flowinfo() == f && a.scope_id() == c);
        let n = s.u64();
        assert!(Duration::from_secs(n).as_secs() == n && Duration::from_secs(n).subsec_nanos() == 0);
        let q = (f / 1_000_000_000) as u64;
        if let Some(w) = n.checked_add(q) { let d = Duration::new(n, f); assert!(d.as_secs() == w && d.subsec_nanos() as u64 == f as u64 - q * 1_000_000_000); }
    }
    native 0 "what is assumed of the library's system times" fn c04_trusted_times(s) {
        const G: i128 = 1_000_000_000;
        let fits = |ns: i128| ns >= -(1i128 << 63) * G && ns < (1i128 << 63) * G;
        let wide = s.bool();
        let mut dur = || { let n = s.u64(); Duration::new(if wide { n } else { n % (1 << 40) }, s.u32() % 1_000_000_000) };
        let ns = |d: Duration| d.as_secs() as i128 * G + d.subsec_nanos() as i128;
        let (d, e) = (dur(), dur());
        // a time by its distance from the epoch
        let at = |before: bool, d: Duration| if before { UNIX_EPOCH.checked_sub(d).map(|t| (t, -ns(d))) } else { UNIX_EPOCH.checked_add(d).map(|t| (t, ns(d))) };
        for b in [false, true] {
            assert!(at(b, d).is_some() == fits(if b { -ns(d) } else { ns(d) }));
            let Some((t, n)) = at(b, d) else { continue };
            let (x, y) = (t.checked_add(e), t.checked_sub(e));
            assert!(x.is_some() == fits(n + ns(e)) && y.is_some() == fits(n - ns(e)));
            for (u, m) in [x.map(|u| (u, n + ns(e))), y.map(|u| (u, n - ns(e)))].into_iter().flatten() {
                match u.duration_since(UNIX_EPOCH) { Ok(d) => assert!(m >= 0 && ns(d) == m), Err(_) => assert!(m < 0) }
                match UNIX_EPOCH.duration_since(u) { Ok(d) => assert!(m <= 0 && ns(d) == -m), Err(_) => assert!(m > 0) }
                match u.duration_since(t) { Ok(d) => assert!(m >= n && ns(d) == m - n), Err(_) => assert!(m < n) }
                assert!((u >= UNIX_EPOCH) == (m >= 0) && (u > t) == (m > n) && (u == t) == (m == n));
            }
        }
    }
}
