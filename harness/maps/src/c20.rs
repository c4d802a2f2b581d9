//! C20: hashing and equality that answer differently at each call.
use crate::com::*;

/// A key that knows which one it is, but lies about it: equality and lengths are arbitrary at each call.
#[derive(Clone, Copy, Debug)]
pub struct W {
    id: u16,
    /// how often it still lies (then it never equals anything)
    own: u8,
}
static mut LIES: u32 = 0;
fn lie(bits: u32) -> u64 {
    unsafe {
        if LIES == 0 { return 0; }
        LIES -= 1;
    }
    any(bits)
}
fn lies(n: u32) { unsafe { LIES = n } }
impl PartialEq for W {
    fn eq(&self, _: &W) -> bool { lie(1) == 1 }
}
impl Eq for W {}
impl Hash for W {
    fn hash<H: Hasher>(&self, h: &mut H) { h.write_u16(self.id) }
}
impl Len for W {
    fn len(&self) -> usize { lie(2) as usize }
}
impl SliceHash for W {
    fn hash<BH: BuildHasher>(&self, bh: &BH, range: std::ops::Range<usize>) -> u64 { lie(2) }
}
/// a hasher with an arbitrary answer at each call
#[derive(Clone, Copy, Default)]
pub struct Any;
impl BuildHasher for Any {
    type Hasher = Any;
    fn build_hasher(&self) -> Any { Any }
}
impl Hasher for Any {
    fn write(&mut self, _: &[u8]) {}
    fn finish(&self) -> u64 { lie(2) }
}
fn w(i: usize) -> W { W { id: i as u16, own: 0 } }
fn wv(n: usize) -> Vec<(W, u16)> { (0..n).map(|i| (w(i), val(i))).collect() }
/// what is left: the size, and every entry once
macro_rules! intact {
    ($m:expr, $n:expr, $id:expr) => {{
        let n: usize = $n;
        let id = $id;
        check!($m.len() == n);
        let mut seen = 0u64;
        let mut c = 0;
        for (k, v) in $m.iter() {
            let i = id(k);
            check!(i < n && *v == val(i) && seen >> i & 1 == 0);
            seen |= 1 << i;
            c += 1;
        }
        check!(c == n && seen == (1 << n) - 1);
        check!($m.keys().count() == n && $m.values().count() == n);
    }};
}
/// the answers of a lookup, whatever they are, are entries of the map
macro_rules! touch {
    ($m:expr, $n:expr, $q:expr, $q2:expr, $id:expr, $reach:literal) => {{
        let n: usize = $n;
        let id = $id;
        match pick(7) {
            0 => { if let Some(v) = $m.get(&$q) { check!(*v >= 100 && (*v as usize) < 100 + n); } }
            1 => { if let Some((k, v)) = $m.get_key_value(&$q) { check!(id(k) < n && *v == val(id(k))); } }
            2 => { if let Some(v) = $m.get_mut(&$q) { check!(*v >= 100 && (*v as usize) < 100 + n); } }
            3 => {
                // never two references to one value
                if let Some([a, b]) = $m.get_many_mut([&$q, &$q2]) {
                    check!(!std::ptr::eq(a, b));
                    check!(*a >= 100 && (*a as usize) < 100 + n && *b >= 100 && (*b as usize) < 100 + n);
                }
            }
            4 => { check!($m.contains_key(&$q) || true); }
            5 => { let c = $m.clone(); intact!(c, n, id); let e = c == $m; observe(e as u64); }
            _ => { allow_panic(); let v = $m[$q]; check!(v >= 100 && (v as usize) < 100 + n); }
        }
        lies(0);
        intact!($m, n, id);
        reach($reach);
    }};
}
macro_rules! triple {
    ($m:expr, $a:expr, $b:expr, $c:expr, $r:literal) => {
        if let Some([a, b, c]) = $m.get_many_mut([&$a, &$b, &$c]) {
            check!(!std::ptr::eq(a, b) && !std::ptr::eq(a, c) && !std::ptr::eq(b, c));
            reach($r);
        }
    };
}
fn wid(k: &W) -> usize { k.id as usize }
fn sid(k: &String) -> usize { (k.as_bytes()[1] - b'0') as usize }
/// strings k0c, k1c, .. of which some are longer
fn strings(n: usize) -> Vec<(String, u16)> {
    (0..n).map(|i| { let mut s = String::from("k"); s.push((b'0' + i as u8) as char); for _ in 0..i % 3 { s.push('c'); } (s, val(i)) }).collect()
}
/// strings of one length, told apart in the middle
fn same_len(n: usize) -> Vec<(String, u16)> {
    (0..n).map(|i| { let mut s = String::from("k"); s.push((b'0' + i as u8) as char); s.push('c'); (s, val(i)) }).collect()
}
/// any string of up to 3 characters
fn query() -> String { let n = pick(4); sstr(n, 1) }
macro_rules! strings {
    ($m:expr, $n:expr, $l:literal, $r:literal) => {{
        let n: usize = $n;
        lies($l);
        allow_panic();
        let mut m = $m;
        lies(2);
        let i = pick(n as u64 + 1);
        let q = if i < n { m.iter().nth(i).unwrap().0.clone() } else { query() };
        let mut q2 = q.clone();
        q2.push('!');
        expect_panic(0);
        touch!(m, n, q, q2, sid, $r);
    }};
}
/// sets of 4 and of 2 values; so many lies while building the first, in queries, and in set operations
fn set(a: u32, b: u32, c: u32) {
    lies(a);
    let s: FrozenSet<W, Any> = FrozenSet::from_vec_with_hasher((0..4).map(w).collect(), Any);
    lies(b);
    match pick(4) {
        0 => { if let Some(k) = s.get(&w(0)) { check!(k.id < 4); } }
        1 => { s.contains(&w(1)); }
        2 => { let t = s.clone(); let e = s == t; observe(e as u64); }
        _ => {
            lies(c);
            let t: FrozenSet<W, Any> = FrozenSet::from_vec_with_hasher((0..2).map(w).collect(), Any);
            let n = match pick(4) { 0 => s.union(&t).count(), 1 => s.intersection(&t).count(), 2 => s.difference(&t).count(), _ => s.symmetric_difference(&t).count() };
            check!(n <= 6);
            reach(33);
        }
    }
    lies(0);
    check!(Len::len(&s) == 4);
    let mut seen = 0u64;
    for k in &s { check!(k.id < 4 && seen >> k.id & 1 == 0); seen |= 1 << k.id; }
    check!(seen == 15);
    reach(32);
}
harnesses! {
// lookups in a map built while the hash function changes all the time
fn c20_fk4() { lies(8); let mut m: FrozenMap<W, u16, Any> = FrozenMap::from_vec_with_hasher(wv(4), Any); lies(8); touch!(m, 4, w(0), w(9), wid, 1); }
fn c20_fk2() { lies(8); let mut m: FrozenMap<W, u16, Any> = FrozenMap::from_vec_with_hasher(wv(2), Any); touch!(m, 2, w(0), w(9), wid, 1); }
fn c20_ck3() { lies(12); let mut m: CommonMap<W, u16, u8, Any> = CommonMap::from_vec_with_hasher(wv(3), Any); lies(6); touch!(m, 3, w(0), w(9), wid, 2); }
fn c20_ck1() { lies(12); let mut m: CommonMap<W, u16, u8, Any> = CommonMap::from_vec_with_hasher(wv(1), Any); lies(6); touch!(m, 1, w(0), w(9), wid, 1002); }
fn c20_ck_empty() { lies(12); let mut m: CommonMap<W, u16, u8, Any> = CommonMap::from_vec_with_hasher(wv(0), Any); lies(6); touch!(m, 0, w(0), w(9), wid, 1003); reach(30); }
fn c20_sk3() { lies(12); let mut m: ScanningMap<W, u16> = ScanningMap::from_vec(wv(3)); touch!(m, 3, w(0), w(9), wid, 4); }
fn c20_nl3() { lies(12); let mut m: LengthMap<W, u16, u8> = LengthMap::from_vec(wv(3)); lies(6); touch!(m, 3, w(0), w(9), wid, 5); }
fn c20_ll3() { lies(9); let mut m: LeftSliceMap<W, u16, u8, Any> = LeftSliceMap::from_vec_with_hasher(wv(3), 1..2, Any); lies(6); touch!(m, 3, w(0), w(9), wid, 6); }
fn c20_many_ck() { let mut m: CommonMap<W, u16, u8, Tab> = CommonMap::from_vec_with_hasher(wv(3), tab(codes(3, 1))); lies(14); triple!(m, w(0), w(1), w(9), 8); lies(0); intact!(m, 3, wid); }
fn c20_many_sk() { let mut m: ScanningMap<W, u16> = ScanningMap::from_vec(wv(3)); lies(14); triple!(m, w(0), w(1), w(9), 9); lies(0); intact!(m, 3, wid); }
fn c20_many_fk() { let mut m: FrozenMap<W, u16, Tab> = FrozenMap::from_vec_with_hasher(wv(4), tab(codes(4, 1))); lies(14); triple!(m, w(0), w(1), w(9), 10); lies(0); intact!(m, 4, wid); }
// values without size may be referred to as often as one likes
fn c20_many_zst() {
    let mut m: ScanningMap<K, ()> = ScanningMap::from_vec((0..3).map(|i| (sk(i), ())).collect());
    check!(m.get_many_mut([&qk(0), &qk(1)]).is_some());
    let mut m: FrozenMap<K, (), Tab> = FrozenMap::from_vec_with_hasher((0..4).map(|i| (sk(i), ())).collect(), tab(codes(5, 2)));
    check!(m.get_many_mut([&qk(0), &qk(3)]).is_some());
    check!(m.get_many_mut([&qk(3), &qk(3)]).is_none());
    check!(m.get_many_mut([&qk(3), &qk(4)]).is_none());
    reach(31);
}
// a right-hand range needs lengths that stay above it, otherwise it panics or wraps
fn c20_rl3() { lies(14); allow_panic(); let mut m: RightSliceMap<W, u16, u8, Any> = RightSliceMap::from_vec_with_hasher(wv(3), 0..1, Any); lies(7); touch!(m, 3, w(0), w(9), wid, 7); }
// strings with such a hasher
fn c20_fs_len() { strings!(FrozenMap::<String, u16, Any>::from_vec_with_hasher(strings(4), Any), 4, 12, 11); }
fn c20_fs_left() { strings!(FrozenMap::<String, u16, Any>::from_vec_with_hasher(same_len(4), Any), 4, 5, 12); }
fn c20_ls() { strings!(LeftSliceMap::<String, u16, u8, Any>::from_vec_with_hasher(strings(3), 1..3, Any), 3, 12, 13); }
fn c20_rs() { strings!(RightSliceMap::<String, u16, u8, Any>::from_vec_with_hasher(strings(3), 0..2, Any), 3, 9, 14); }
fn c20_cs() { strings!(CommonMap::<String, u16, u8, Any>::from_vec_with_hasher(strings(3), Any), 3, 9, 15); }
// sets
fn c20_set() { set(4, 6, 4) }
fn c20_set_t() { set(8, 8, 10) }
fn c20_set_own() {
    lies(12);
    let s: CommonSet<W, u8, Any> = CommonSet::from_vec_with_hasher((0..3).map(w).collect(), Any);
    lies(0);
    let mut seen = 0u64;
    for k in s { check!(k.id < 3 && seen >> k.id & 1 == 0); seen |= 1 << k.id; }
    check!(seen == 7);
    reach(34);
}
// many entries: the table is chosen with one set of codes and filled with another
fn c20_ck130_t() { lies(0); let mut v = wv(0); for i in 0..40 { v.push((w(i), val(i))); } lies(6); let mut m: CommonMap<W, u16, u8, Any> = CommonMap::from_vec_with_hasher(v, Any); touch!(m, 40, w(0), w(9), wid, 1005); }
fn c20_fk5_t() { lies(10); let mut m: FrozenMap<W, u16, Any> = FrozenMap::from_vec_with_hasher(wv(5), Any); lies(9); touch!(m, 5, w(0), w(9), wid, 1); }
fn c20_ck4_t() { lies(16); let mut m: CommonMap<W, u16, u8, Any> = CommonMap::from_vec_with_hasher(wv(4), Any); lies(8); touch!(m, 4, w(0), w(9), wid, 2); }
}
