//! C21: Len and SliceHash.
use crate::com::*;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, LinkedList, VecDeque};
use std::ffi::{CStr, CString, OsStr, OsString};
use std::ops::Range;
use std::rc::Rc;
use std::sync::Arc;

fn is<T: Len + ?Sized>(x: &T, n: usize) {
    check!(x.len() == n);
    check!(Len::is_empty(x) == (n == 0));
    // asking does not change anything
    check!(Len::len(x) == n);
}
/// through all the pointers
fn through<T: Len + Clone + 'static>(x: T, n: usize) {
    is(&x, n);
    is(&Box::new(x.clone()), n);
    is(&Rc::new(x.clone()), n);
    is(&Arc::new(x.clone()), n);
    is(&Box::new(Rc::new(Arc::new(x.clone()))), n);
    let r = Rc::new(x.clone());
    let (r2, r3) = (r.clone(), r.clone());
    is(&r2, n);
    drop(r2);
    is(&r3, n);
    let d: Box<dyn Len> = Box::new(x.clone());
    is(&d, n);
    let d: Arc<dyn Len> = Arc::new(x);
    is(&d, n);
}
static BIG: [u8; 70000] = [b'a'; 70000];

/// a hasher that remembers all it was given; two of them, told apart by their seed
#[derive(Clone, Copy)]
struct Rec(u64);
struct RecH(Vec<u8>, u64);
impl BuildHasher for Rec {
    type Hasher = RecH;
    fn build_hasher(&self) -> RecH { RecH(Vec::new(), self.0) }
}
static mut LAST: Vec<u8> = Vec::new();
static mut FINISHED: usize = 0;
impl Hasher for RecH {
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
    fn finish(&self) -> u64 {
        unsafe { LAST = self.0.clone(); FINISHED += 1; }
        self.1
    }
}
/// everything the hash function got to see
fn stream<T: SliceHash + ?Sized>(x: &T, r: Range<usize>) -> Vec<u8> {
    unsafe { FINISHED = 0; }
    let seed = any_u64();
    check!(x.hash(&Rec(seed), r) == seed);
    unsafe { check!(FINISHED == 1); std::mem::take(&mut *std::ptr::addr_of_mut!(LAST)) }
}
fn bytes(n: usize) -> Vec<u8> { (0..n).map(|_| any_u8()).collect() }
fn ascii(n: usize) -> String { sstr(n, 7) }
/// any range inside of 0..n
fn range(n: usize) -> Range<usize> { let a = pick(n as u64 + 1); let b = a + pick((n - a) as u64 + 1); a..b }
macro_rules! shash {
    ($make:expr, $sub:expr, $own:expr, $na:expr, $nb:expr, $r:literal) => {{
        let (na, nb) = (pick($na + 1), pick($nb + 1));
        let a = $make(na);
        let b = $make(nb);
        let (ra, rb) = (range(na), range(nb));
        let sub = $sub;
        let (xa, xb): (&[u8], &[u8]) = (sub(&a, ra.clone()), sub(&b, rb.clone()));
        let same = same_bytes(xa, xb);
        let sa = stream($own(&a), ra.clone());
        let sb = stream($own(&b), rb.clone());
        // the hash depends on the bytes of the range and on nothing else
        check!(same_bytes(&sa, &sb) == same);
        // as if they were all there is
        let alone = xa.to_vec();
        check!(same_bytes(&stream(&alone[..], 0..alone.len()), &sa));
        reach($r);
    }};
}
fn conc_string(n: usize, cap: usize) -> String { let mut s = String::with_capacity(cap); for i in 0..n { s.push(if i % 3 == 2 { 'é' } else { 'x' }); } s }
harnesses! {
fn c21_str() {
    // lengths up to 70000
    let n = any(17) as usize;
    assume(n <= BIG.len());
    let b = unsafe { BIG.get_unchecked(..n) };
    is(b, n);
    let s = unsafe { std::str::from_utf8_unchecked(b) };
    is(s, n);
    is(OsStr::new(s), n);
    reach(1);
}
fn c21_zst() {
    // any length at all
    let n = any_u64() as usize;
    let mut v: Vec<()> = Vec::new();
    unsafe { v.set_len(n) };
    is(&v, n);
    is(&v[..], n);
    is(&v.clone().into_boxed_slice(), n);
    is(&Box::new(v), n);
    reach(2);
}
fn c21_string() {
    let n = pick(5);
    let s = ascii(n);
    is(&s[..], n);
    is(&s.clone().into_boxed_str(), n);
    is(&OsString::from(s.clone()), n);
    is(OsStr::new(&s), n);
    is(&Box::<OsStr>::from(OsStr::new(&s)), n);
    is(&Rc::<str>::from(&s[..]), n);
    is(&Arc::<str>::from(&s[..]), n);
    is(&Rc::<[u8]>::from(s.as_bytes()), n);
    through(s, n);
    reach(3);
}
fn c21_utf8() {
    // bytes, not characters
    let n = pick(6);
    let s = conc_string(n, pick(2) * 64);
    let l = s.as_bytes().len();
    is(&s[..], l);
    is(&OsString::from(s.clone()), l);
    is(OsStr::new(&s), l);
    let c = CString::new(s.clone()).unwrap();
    is(&c, l);
    is(c.as_c_str(), l);
    through(s, l);
    reach(4);
}
fn c21_cstr() {
    let n = pick(4);
    let mut v = bytes(n);
    for i in 0..n { assume(v[i] != 0); }
    let c = unsafe { CString::from_vec_unchecked(v.clone()) };
    is(&c, n);
    is(c.as_c_str(), n);
    is(&c.clone().into_boxed_c_str(), n);
    is(&Rc::<CStr>::from(c.clone()), n);
    v.push(0);
    is(unsafe { CStr::from_bytes_with_nul_unchecked(&v) }, n);
    through(c, n);
    reach(5);
}
fn c21_osbytes() {
    let n = pick(5);
    let v = bytes(n);
    let o = unsafe { OsStr::from_encoded_bytes_unchecked(&v) };
    is(o, n);
    is(&o.to_os_string(), n);
    is(&Arc::<OsStr>::from(o), n);
    through(o.to_os_string(), n);
    reach(6);
}
fn c21_vec() {
    let n = pick(6);
    let mut v: Vec<u32> = Vec::with_capacity(pick(3) * 4);
    for i in 0..n { v.push(i as u32); }
    is(&v[..], n);
    if n > 0 { is(&v[1..], n - 1); v.pop(); is(&v, n - 1); v.push(3); }
    is(&v.clone().into_boxed_slice(), n);
    is(&Rc::<[u32]>::from(v.clone()), n);
    through(v, n);
    reach(7);
}
fn c21_deque() {
    // every rotation of the buffer
    let mut d: VecDeque<u16> = VecDeque::with_capacity(4);
    let rot = pick(5);
    for i in 0..rot { d.push_back(i as u16); }
    for _ in 0..rot { d.pop_front(); }
    let front = pick(3);
    let back = pick(6 - front as u64);
    for i in 0..back { d.push_back(i as u16); }
    for i in 0..front { d.push_front(i as u16); }
    is(&d, front + back);
    through(d, front + back);
    reach(8);
}
fn c21_list() {
    let (n, m) = (pick(4), pick(3));
    let mut l = LinkedList::new();
    for i in 0..n { l.push_back(i as u16); }
    for i in 0..m { l.push_front(i as u16); }
    is(&l, n + m);
    if n + m > 0 { if any_bool() { l.pop_back(); } else { l.pop_front(); } is(&l, n + m - 1); l.push_back(1); }
    through(l, n + m);
    reach(9);
}
fn c21_heap() {
    let n = pick(5);
    let mut h = BinaryHeap::new();
    for _ in 0..n { h.push(any(2) as u8); }
    is(&h, n);
    let p = pick(n as u64 + 1);
    for _ in 0..p { h.pop(); }
    is(&h, n - p);
    through(h, n - p);
    reach(10);
}
fn c21_btree() {
    // inserted and removed, equal keys among them
    let k = pick(5);
    let mut m = BTreeMap::new();
    let mut s = BTreeSet::new();
    let mut seen = 0u32;
    for _ in 0..k { let x = pick(4); m.insert(x as u8, 1u16); s.insert(x as u8); seen |= 1 << x; }
    let r = pick(4);
    m.remove(&(r as u8));
    let n = (seen & !(1 << r)).count_ones() as usize;
    is(&s, seen.count_ones() as usize);
    is(&m, n);
    through(m, n);
    through(s, seen.count_ones() as usize);
    reach(11);
}
fn c21_hash() {
    let k = pick(4);
    let h = tab(codes(4, 1));
    let mut m: HashMap<K, u16, Tab> = HashMap::with_hasher(h);
    let mut s: HashSet<K, Tab> = HashSet::with_capacity_and_hasher(pick(2) * 20, h);
    let mut seen = 0u32;
    for i in 0..k { let x = pick(4); m.insert(sk(x), i as u16); s.insert(sk(x)); seen |= 1 << x; }
    let r = pick(4);
    s.remove(&qk(r));
    is(&m, seen.count_ones() as usize);
    is(&s, (seen & !(1 << r)).count_ones() as usize);
    through(m, seen.count_ones() as usize);
    through(s, (seen & !(1 << r)).count_ones() as usize);
    reach(12);
}
fn c21_many() {
    // lengths that do not fit a byte
    let n = [255, 256, 300][pick(3)];
    let v: Vec<u16> = (0..n as u16).collect();
    is(&v.iter().map(|&x| x).collect::<VecDeque<u16>>(), n);
    is(&v.iter().map(|&x| x).collect::<LinkedList<u16>>(), n);
    is(&v.iter().map(|&x| x).collect::<BTreeSet<u16>>(), n);
    is(&v.iter().map(|&x| (x, ())).collect::<BTreeMap<u16, ()>>(), n);
    is(&BinaryHeap::from(v.clone()), n);
    is(&v, n);
    let s = conc_string(n, 0);
    is(&s, s.as_bytes().len());
    let l = s.as_bytes().len();
    is(OsStr::new(&s), l);
    let c = CString::new(s).unwrap();
    is(&c, l);
    is(&*c, l);
    reach(13);
}
fn c21_many_hash() {
    let n = [255, 256, 300][pick(3)];
    let h = tab((0..300u64).map(|i| i << 57 | i).collect());
    let mut m = HashMap::with_hasher(h);
    let mut s = HashSet::with_hasher(h);
    for i in 0..n { m.insert(sk(i), ()); s.insert(sk(i)); }
    is(&m, n);
    is(&s, n);
    reach(14);
}
// the collections of the crate
fn c21_own() {
    let n = pick(4);
    let t = tab(vec![1, 9, 4, 9]);
    is(&CommonMap::<K, u16, u8, Tab>::from_vec_with_hasher(kv(n), t), n);
    is(&CommonSet::<K, u8, Tab>::from_vec_with_hasher(ks(n), t), n);
    is(&ScanningMap::<K, u16>::from_vec(kv(n)), n);
    is(&ScanningSet::<K>::from_vec(ks(n)), n);
    is(&IntegerRangeMap::<u16, u16>::from_vec((0..n as u16).map(|i| (i, i)).collect()), n);
    is(&IntegerRangeSet::<u16>::from_vec((0..n as u16).collect()), n);
    is(&IntegerMap::<u16, u16, u8>::from_vec((0..n as u16).map(|i| (i * 3, i)).collect()), n);
    is(&IntegerSet::<u16, u8>::from_vec((0..n as u16).map(|i| i * 3).collect()), n);
    is(&FrozenSet::<K, Tab>::from_vec_with_hasher(ks(n), t), n);
    let x = str_lens(n).1;
    is(&LengthMap::<String, u16, u8>::from_vec(with_vals(x.clone())), n);
    is(&LengthSet::<String, u8>::from_vec(x.clone()), n);
    is(&LeftSliceMap::<String, u16, u8, Tab>::from_vec_with_hasher(with_vals(x.clone()), 0..1, t), n);
    is(&LeftSliceSet::<String, u8, Tab>::from_vec_with_hasher(x.clone(), 0..1, t), n);
    is(&RightSliceMap::<String, u16, u8, Tab>::from_vec_with_hasher(with_vals(x.clone()), 0..1, t), n);
    is(&RightSliceSet::<String, u8, Tab>::from_vec_with_hasher(x, 0..1, t), n);
    reach(15);
}
fn c21_hash_bytes() { shash!(bytes, |v: &Vec<u8>, r: Range<usize>| -> &'static [u8] { Box::leak(v[r].to_vec().into_boxed_slice()) }, |v| { let v: &Vec<u8> = v; &v[..] }, 3, 3, 20); }
fn c21_hash_string() { shash!(ascii, |v: &String, r: Range<usize>| -> &'static [u8] { Box::leak(v.as_bytes()[r].to_vec().into_boxed_slice()) }, |v| { let v: &String = v; v }, 3, 3, 21); }
fn c21_hash_bytes_t() { shash!(bytes, |v: &Vec<u8>, r: Range<usize>| -> &'static [u8] { Box::leak(v[r].to_vec().into_boxed_slice()) }, |v| { let v: &Vec<u8> = v; &v[..] }, 5, 4, 1020); }
fn c21_hash_string_t() { shash!(ascii, |v: &String, r: Range<usize>| -> &'static [u8] { Box::leak(v.as_bytes()[r].to_vec().into_boxed_slice()) }, |v| { let v: &String = v; v }, 5, 4, 1021); }
// a string and its bytes; characters of several bytes may be cut
fn c21_hash_both() {
    let s = ["", "aé", "日本", "€x€", "xyzzy é!"][pick(5)];
    let o = s.to_string();
    let r = range(s.len());
    let a = stream(&o, r.clone());
    let b = stream(s.as_bytes(), r.clone());
    check!(a == b);
    let c = stream(&s.as_bytes()[r.clone()], 0..r.len());
    check!(a == c);
    reach(22);
}
// long ranges
fn c21_hash_long() {
    let v: Vec<u8> = (0..400).map(|i| (i * 7) as u8).collect();
    let a = pick(3) * 70;
    let b = a + [0, 1, 255, 256, 260][pick(5)];
    let s = stream(&v[..], a..b);
    check!(s == stream(&v[a..b].to_vec()[..], 0..b - a));
    // one byte matters, inside or outside
    let i = pick(400);
    let mut w = v.clone();
    w[i] ^= 1 << pick(8);
    check!((stream(&w[..], a..b) == s) == (i < a || i >= b));
    reach(23);
}
}
