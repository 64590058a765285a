// Types of the standard library the verifier does not know, and the contracts assumed of their functions.
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct ExCell<T: ?Sized>(Cell<T>);
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct ExRefCell<T: ?Sized>(RefCell<T>);
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct ExRef<'b, T: ?Sized>(Ref<'b, T>);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExBorrowError(BorrowError);
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct ExMutex<T: ?Sized>(Mutex<T>);
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct ExRwLock<T: ?Sized>(RwLock<T>);
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct ExMutexGuard<'a, T: ?Sized + 'a>(MutexGuard<'a, T>);
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct ExRwLockReadGuard<'a, T: ?Sized>(RwLockReadGuard<'a, T>);
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct ExPoisonError<T>(PoisonError<T>);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExIpv4Addr(Ipv4Addr);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExIpv6Addr(Ipv6Addr);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExSocketAddrV4(SocketAddrV4);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExSocketAddrV6(SocketAddrV6);
#[verifier::external_type_specification] pub struct ExIpAddr(IpAddr);
#[verifier::external_type_specification] pub struct ExSocketAddr(SocketAddr);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExSystemTime(SystemTime);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExSystemTimeError(SystemTimeError);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExCString(CString);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExCStr(CStr);
#[verifier::external_type_specification] pub struct ExPhantomPinned(PhantomPinned);
#[verifier::external_type_specification] pub struct ExWrapping<T>(Wrapping<T>);
#[verifier::external_type_specification] pub struct ExSaturating<T>(Saturating<T>);
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(A)] pub struct ExLinkedList<T, A: std::alloc::Allocator>(LinkedList<T, A>);

pub uninterp spec fn cell_val<T: ?Sized>(c: &Cell<T>) -> &T;
pub assume_specification<T> [Cell::<T>::new](x: T) -> (r: Cell<T>) ensures cell_val(&r) == x;
pub assume_specification<T: Copy> [Cell::<T>::get](c: &Cell<T>) -> (r: T) ensures *cell_val(c) == r;
pub uninterp spec fn refcell_val<T: ?Sized>(c: &RefCell<T>) -> &T;
pub uninterp spec fn refcell_free<T: ?Sized>(c: &RefCell<T>) -> bool;
pub uninterp spec fn refcell_err<T: ?Sized>(c: &RefCell<T>) -> BorrowError;
pub uninterp spec fn ref_val<'a, 'b, T: ?Sized>(c: &'a Ref<'b, T>) -> &'a T;
pub assume_specification<T> [RefCell::<T>::new](x: T) -> (r: RefCell<T>) ensures refcell_val(&r) == x, refcell_free(&r);
pub assume_specification<'a, T: ?Sized> [RefCell::<T>::try_borrow](c: &'a RefCell<T>) -> (r: Result<Ref<'a, T>, BorrowError>) ensures r is Ok <==> refcell_free(c), r is Ok ==> ref_val(&r->Ok_0) == refcell_val(c), r is Err ==> r->Err_0 == refcell_err(c);
pub assume_specification<'b, '_0, T: ?Sized> [<Ref<'b, T> as core::ops::Deref>::deref](c: &'_0 Ref<'b, T>) -> (r: &'_0 T) ensures r == ref_val(c);
pub uninterp spec fn mutex_val<T: ?Sized>(c: &Mutex<T>) -> &T;
pub uninterp spec fn mguard_val<'a, 'b, T: ?Sized>(c: &'a MutexGuard<'b, T>) -> &'a T;
pub uninterp spec fn poison_val<T>(c: PoisonError<T>) -> T;
pub assume_specification<T> [Mutex::<T>::new](x: T) -> (r: Mutex<T>) ensures mutex_val(&r) == x;
pub assume_specification<'a, T: ?Sized> [Mutex::<T>::lock](c: &'a Mutex<T>) -> (r: Result<MutexGuard<'a, T>, PoisonError<MutexGuard<'a, T>>>) ensures r is Ok ==> mguard_val(&r->Ok_0) == mutex_val(c), r is Err ==> mguard_val(&poison_val(r->Err_0)) == mutex_val(c);
pub assume_specification<T> [PoisonError::<T>::into_inner](c: PoisonError<T>) -> (r: T) ensures r == poison_val(c);
pub assume_specification<'b, 'x, T: ?Sized> [<MutexGuard<'b, T> as core::ops::Deref>::deref](c: &'x MutexGuard<'b, T>) -> (r: &'x T) ensures r == mguard_val(c);
pub uninterp spec fn rwlock_val<T: ?Sized>(c: &RwLock<T>) -> &T;
pub uninterp spec fn rguard_val<'a, 'b, T: ?Sized>(c: &'a RwLockReadGuard<'b, T>) -> &'a T;
pub assume_specification<T> [RwLock::<T>::new](x: T) -> (r: RwLock<T>) ensures rwlock_val(&r) == x;
pub assume_specification<'a, T: ?Sized> [RwLock::<T>::read](c: &'a RwLock<T>) -> (r: Result<RwLockReadGuard<'a, T>, PoisonError<RwLockReadGuard<'a, T>>>) ensures r is Ok ==> rguard_val(&r->Ok_0) == rwlock_val(c), r is Err ==> rguard_val(&poison_val(r->Err_0)) == rwlock_val(c);
pub uninterp spec fn ip4_bits(x: Ipv4Addr) -> u32;
pub assume_specification [Ipv4Addr::to_bits](x: Ipv4Addr) -> (r: u32) ensures r == ip4_bits(x);
pub assume_specification [Ipv4Addr::from_bits](x: u32) -> (r: Ipv4Addr) ensures x == ip4_bits(r);
pub uninterp spec fn list<T, A: std::alloc::Allocator>(x: &LinkedList<T, A>) -> Seq<T>;
pub assume_specification<T> [LinkedList::<T>::new]() -> (r: LinkedList<T>) ensures list(&r) == Seq::<T>::empty();
pub assume_specification [i64::unsigned_abs](x: i64) -> (r: u64) ensures r == if x < 0 { -x } else { x as int };
pub assume_specification [i64::is_positive](x: i64) -> (r: bool) ensures r == (x > 0);
pub assume_specification [i64::wrapping_neg](x: i64) -> (r: i64) ensures r == if x == i64::MIN { x as int } else { -x };
pub assume_specification<'b, 'x, T: ?Sized> [<RwLockReadGuard<'b, T> as core::ops::Deref>::deref](c: &'x RwLockReadGuard<'b, T>) -> (r: &'x T) ensures r == rguard_val(c);
pub assume_specification<T> [RangeInclusive::<T>::start](x: &RangeInclusive<T>) -> (r: &T) ensures *r == x@.start;
pub assume_specification<T> [RangeInclusive::<T>::end](x: &RangeInclusive<T>) -> (r: &T) ensures *r == x@.end;

// text
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExStdUtf8Error(core::str::Utf8Error);
pub uninterp spec fn utf8_at(e: &core::str::Utf8Error) -> int;
/// the length of the longest valid prefix that `str::from_utf8` reports
pub open spec fn utf8_prefix(b: Seq<u8>) -> int { choose|i: int| is_utf8_prefix(b, i) }
pub open spec fn is_utf8_prefix(b: Seq<u8>, i: int) -> bool {
    0 <= i < b.len() && valid_utf8(b.take(i)) && forall|j: int| i < j <= b.len() ==> !#[trigger] valid_utf8(b.take(j))
}
pub proof fn utf8_prefix_is(b: Seq<u8>, i: int)
    requires is_utf8_prefix(b, i)
    ensures utf8_prefix(b) == i
{
    let k = utf8_prefix(b);
    assert(is_utf8_prefix(b, k));
    if k < i { assert(!valid_utf8(b.take(i))); }
    if i < k { assert(!valid_utf8(b.take(k))); }
}
pub assume_specification [core::str::Utf8Error::valid_up_to](e: &core::str::Utf8Error) -> (r: usize) ensures r == utf8_at(e);
pub assume_specification<'a> [core::str::from_utf8](b: &'a [u8]) -> (r: Result<&'a str, core::str::Utf8Error>)
    ensures r is Ok <==> valid_utf8(b@), r is Ok ==> encode_utf8(r->Ok_0@) == b@, r is Err ==> is_utf8_prefix(b@, utf8_at(&r->Err_0));
pub assume_specification<'a> [str::from_utf8](b: &'a [u8]) -> (r: Result<&'a str, core::str::Utf8Error>)
    ensures r is Ok <==> valid_utf8(b@), r is Ok ==> encode_utf8(r->Ok_0@) == b@, r is Err ==> is_utf8_prefix(b@, utf8_at(&r->Err_0));
pub assume_specification [String::from_utf8_unchecked](b: Vec<u8>) -> (r: String) requires valid_utf8(b@) ensures r@ == decode_utf8(b@);
pub uninterp spec fn cstr(c: &CStr) -> Seq<u8>;
pub uninterp spec fn cstring(c: &CString) -> Seq<u8>;
pub open spec fn nul_at(b: Seq<u8>) -> int { choose|i: int| first_nul(b, i) }
pub open spec fn first_nul(b: Seq<u8>, i: int) -> bool { 0 <= i < b.len() && b[i] == 0 && forall|j: int| 0 <= j < i ==> b[j] != 0 }
pub proof fn nul_at_is(b: Seq<u8>, i: int) requires first_nul(b, i) ensures nul_at(b) == i
{ let k = nul_at(b); assert(first_nul(b, k)); }
pub open spec fn has_nul(b: Seq<u8>) -> bool { exists|i: int| 0 <= i < b.len() && b[i] == 0 }
#[verifier::external_body]
pub proof fn cstring_has_no_nul(c: &CString) ensures !has_nul(cstring(c)) {}
pub assume_specification [CStr::to_bytes](c: &CStr) -> (r: &[u8]) ensures r@ == cstr(c);
pub assume_specification [CString::as_c_str](c: &CString) -> (r: &CStr) ensures cstr(r) == cstring(c);
pub assume_specification [CString::from_vec_unchecked](b: Vec<u8>) -> (r: CString) requires !has_nul(b@) ensures cstring(&r) == b@;
pub assume_specification<T, A: std::alloc::Allocator> [LinkedList::<T, A>::push_back](x: &mut LinkedList<T, A>, v: T) ensures list(final(x)) == list(old(x)).push(v);
pub assume_specification<T, A: std::alloc::Allocator> [LinkedList::<T, A>::len](x: &LinkedList<T, A>) -> (r: usize) ensures r == list(x).len();
impl<T> VfIter<T> for LinkedList<T> {
    open spec fn vf_elems(&self) -> Seq<T> { list(self) }
    #[verifier::external_body] fn vf_len(&self) -> usize { self.len() }
    #[verifier::external_body] fn vf_nth(&self, i: usize) -> &T { self.iter().nth(i).unwrap() }
}

// time
pub uninterp spec fn dur_secs(d: Duration) -> u64;
pub uninterp spec fn dur_nanos(d: Duration) -> u32;
pub assume_specification [Duration::as_secs](d: &Duration) -> (r: u64) ensures r == dur_secs(*d);
pub assume_specification [Duration::subsec_nanos](d: &Duration) -> (r: u32) ensures r == dur_nanos(*d), r < 1_000_000_000;
pub assume_specification [Duration::from_secs](s: u64) -> (r: Duration) ensures dur_secs(r) == s, dur_nanos(r) == 0;
/// carries whole seconds out of the nanoseconds, and panics where the seconds overflow
pub assume_specification [Duration::new](s: u64, n: u32) -> (r: Duration)
//A     requires s + n / 1_000_000_000 <= u64::MAX,
    ensures s + n / 1_000_000_000 <= u64::MAX, dur_secs(r) == s + n / 1_000_000_000, dur_nanos(r) == n % 1_000_000_000;
#[verifier::external_body]
pub proof fn dur_nanos_bound(d: Duration) ensures dur_nanos(d) < 1_000_000_000 {}
/// nanoseconds since the epoch
pub uninterp spec fn time_ns(t: SystemTime) -> int;
pub open spec fn dur_ns(d: Duration) -> int { dur_secs(d) * 1_000_000_000 + dur_nanos(d) }
pub assume_specification [SystemTime::duration_since](t: &SystemTime, o: SystemTime) -> (r: Result<Duration, SystemTimeError>)
    ensures r is Ok <==> time_ns(*t) >= time_ns(o), r is Ok ==> dur_ns(r->Ok_0) == time_ns(*t) - time_ns(o) && dur_nanos(r->Ok_0) < 1_000_000_000;
/// what the platform can represent: whole and fractional seconds, the former a 64-bit integer
pub open spec fn time_fits(ns: int) -> bool { -0x8000_0000_0000_0000 * 1_000_000_000 <= ns < 0x8000_0000_0000_0000 * 1_000_000_000 }
#[verifier::external_body]
pub proof fn time_bound(t: SystemTime) ensures time_fits(time_ns(t)) {}
pub assume_specification [SystemTime::checked_add](t: &SystemTime, d: Duration) -> (r: Option<SystemTime>)
    ensures r is Some <==> time_fits(time_ns(*t) + dur_ns(d)), r is Some ==> time_ns(r->0) == time_ns(*t) + dur_ns(d);
pub assume_specification [SystemTime::checked_sub](t: &SystemTime, d: Duration) -> (r: Option<SystemTime>)
    ensures r is Some <==> time_fits(time_ns(*t) - dur_ns(d)), r is Some ==> time_ns(r->0) == time_ns(*t) - dur_ns(d);

// addresses
pub uninterp spec fn ip6_bits(x: Ipv6Addr) -> u128;
pub assume_specification [Ipv6Addr::to_bits](x: Ipv6Addr) -> (r: u128) ensures r == ip6_bits(x);
pub assume_specification [Ipv6Addr::from_bits](x: u128) -> (r: Ipv6Addr) ensures x == ip6_bits(r);
pub uninterp spec fn v4_ip(x: SocketAddrV4) -> Ipv4Addr;
pub uninterp spec fn v4_port(x: SocketAddrV4) -> u16;
pub assume_specification [SocketAddrV4::new](ip: Ipv4Addr, port: u16) -> (r: SocketAddrV4) ensures v4_ip(r) == ip, v4_port(r) == port;
pub assume_specification [SocketAddrV4::ip](x: &SocketAddrV4) -> (r: &Ipv4Addr) ensures *r == v4_ip(*x);
pub assume_specification [SocketAddrV4::port](x: &SocketAddrV4) -> (r: u16) ensures r == v4_port(*x);
pub uninterp spec fn v6_ip(x: SocketAddrV6) -> Ipv6Addr;
pub uninterp spec fn v6_port(x: SocketAddrV6) -> u16;
pub uninterp spec fn v6_flow(x: SocketAddrV6) -> u32;
pub uninterp spec fn v6_scope(x: SocketAddrV6) -> u32;
pub assume_specification [SocketAddrV6::new](ip: Ipv6Addr, port: u16, flow: u32, scope: u32) -> (r: SocketAddrV6) ensures v6_ip(r) == ip, v6_port(r) == port, v6_flow(r) == flow, v6_scope(r) == scope;
pub assume_specification [SocketAddrV6::ip](x: &SocketAddrV6) -> (r: &Ipv6Addr) ensures *r == v6_ip(*x);
pub assume_specification [SocketAddrV6::port](x: &SocketAddrV6) -> (r: u16) ensures r == v6_port(*x);
pub assume_specification [SocketAddrV6::flowinfo](x: &SocketAddrV6) -> (r: u32) ensures r == v6_flow(*x);
pub assume_specification [SocketAddrV6::scope_id](x: &SocketAddrV6) -> (r: u32) ensures r == v6_scope(*x);
#[verifier::external_body]
pub exec const UNIX_EPOCH: SystemTime ensures time_ns(UNIX_EPOCH) == 0 { std::time::UNIX_EPOCH }
#[verifier::external_body]
pub proof fn time_order()
    ensures <SystemTime as PartialOrdSpec>::obeys_partial_cmp_spec(),
        forall|a: SystemTime, b: SystemTime| #[trigger] a.partial_cmp_spec(&b) == Some(
            if time_ns(a) < time_ns(b) { core::cmp::Ordering::Less } else if time_ns(a) == time_ns(b) { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater })
{}
pub proof fn wrap63() ensures 0x8000_0000_0000_0000u64 as i64 == i64::MIN
{ assert(0x8000_0000_0000_0000u64 as i64 == -0x8000_0000_0000_0000i64) by (bit_vector); }
#[verifier::external_body] pub proof fn no_infallible(x: Infallible) ensures false {}
pub uninterp spec fn cow_val<'a, 'b, T: ?Sized + ToOwned>(c: &'a Cow<'b, T>) -> &'a T;
pub assume_specification<'b, 'x, T: ?Sized + ToOwned> [<Cow<'b, T> as core::ops::Deref>::deref](c: &'x Cow<'b, T>) -> (r: &'x T) ensures r == cow_val(c);
use std::sync::atomic::Ordering as AtomicOrdering;
/// Atomics: what a load of an atomic nobody stores to yields.
pub trait VfAtomic<T>: Sized {
    spec fn held(&self) -> T;
    fn vf_new(v: T) -> (r: Self) ensures r.held() == v;
    fn vf_load(&self, o: AtomicOrdering) -> (r: T) ensures r == self.held();
}

// hash maps and sets
pub uninterp spec fn pairs<K, V, S, A: std::alloc::Allocator>(m: &HashMap<K, V, S, A>) -> Seq<(K, V)>;
pub uninterp spec fn keys<K, S, A: std::alloc::Allocator>(m: &HashSet<K, S, A>) -> Seq<K>;
#[verifier::external_body] pub proof fn pairs_len<K, V, S>(m: &HashMap<K, V, S>) ensures pairs(m).len() == vstd::std_specs::hash::spec_hash_map_len(m) {}
#[verifier::external_body] pub proof fn keys_len<K, S>(m: &HashSet<K, S>) ensures keys(m).len() == vstd::std_specs::hash::spec_hash_set_len(m) {}
pub trait VfPairs<K, V> {
    spec fn vf_pairs(&self) -> Seq<(K, V)>;
    fn vf_len(&self) -> (r: usize) ensures r == self.vf_pairs().len();
    fn vf_nth(&self, i: usize) -> (r: (&K, &V)) requires i < self.vf_pairs().len() ensures *r.0 == self.vf_pairs()[i as int].0, *r.1 == self.vf_pairs()[i as int].1;
}
impl<K, V, S> VfPairs<K, V> for HashMap<K, V, S> {
    open spec fn vf_pairs(&self) -> Seq<(K, V)> { pairs(self) }
    #[verifier::external_body] fn vf_len(&self) -> usize { self.len() }
    #[verifier::external_body] fn vf_nth(&self, i: usize) -> (&K, &V) { self.iter().nth(i).unwrap() }
}
impl<K, S> VfIter<K> for HashSet<K, S> {
    open spec fn vf_elems(&self) -> Seq<K> { keys(self) }
    #[verifier::external_body] fn vf_len(&self) -> usize { self.len() }
    #[verifier::external_body] fn vf_nth(&self, i: usize) -> &K { self.iter().nth(i).unwrap() }
}
/// What a map or a set shows: abstract keys and values.  `Eq` and `Hash` of the keys are taken to agree with their abstract values.
pub uninterp spec fn map_val<K: Val, V: Val, S>(m: &HashMap<K, V, S>) -> Map<K::V, V::V>;
pub uninterp spec fn set_val<K: Val, S>(m: &HashSet<K, S>) -> Set<K::V>;
pub open spec fn map_of<K, V>(s: Seq<(K, V)>) -> Map<K, V> decreases s.len() { if s.len() == 0 { Map::empty() } else { map_of(s.drop_last()).insert(s.last().0, s.last().1) } }
pub open spec fn set_of<K>(s: Seq<K>) -> Set<K> decreases s.len() { if s.len() == 0 { Set::empty() } else { set_of(s.drop_last()).insert(s.last()) } }
#[verifier::external_body] pub proof fn map_entries<K: Val, V: Val, S>(m: &HashMap<K, V, S>) ensures map_of(vals(pairs(m))) == map_val(m) {}
#[verifier::external_body] pub proof fn set_entries<K: Val, S>(m: &HashSet<K, S>) ensures set_of(vals(keys(m))) == set_val(m) {}
pub trait VfMap<K: Val, V: Val, S>: Sized {
    spec fn shown(&self) -> Map<K::V, V::V>;
    fn vf_with_capacity_and_hasher(n: usize, s: S) -> (r: Self) ensures r.shown() == Map::<K::V, V::V>::empty();
    fn vf_insert(&mut self, k: K, v: V) ensures final(self).shown() == old(self).shown().insert(k.val(), v.val());
}
impl<K: Val + Eq + Hash, V: Val, S: BuildHasher> VfMap<K, V, S> for HashMap<K, V, S> {
    open spec fn shown(&self) -> Map<K::V, V::V> { map_val(self) }
    #[verifier::external_body] fn vf_with_capacity_and_hasher(n: usize, s: S) -> Self { HashMap::with_capacity_and_hasher(n, s) }
    #[verifier::external_body] fn vf_insert(&mut self, k: K, v: V) { self.insert(k, v); }
}
pub trait VfSet<K: Val, S>: Sized {
    spec fn shown(&self) -> Set<K::V>;
    fn vf_with_capacity_and_hasher(n: usize, s: S) -> (r: Self) ensures r.shown() == Set::<K::V>::empty();
    fn vf_insert(&mut self, k: K) ensures final(self).shown() == old(self).shown().insert(k.val());
}
impl<K: Val + Eq + Hash, S: BuildHasher> VfSet<K, S> for HashSet<K, S> {
    open spec fn shown(&self) -> Set<K::V> { set_val(self) }
    #[verifier::external_body] fn vf_with_capacity_and_hasher(n: usize, s: S) -> Self { HashSet::with_capacity_and_hasher(n, s) }
    #[verifier::external_body] fn vf_insert(&mut self, k: K) { self.insert(k); }
}
