//! C01: FrozenMap with keys of an arbitrary type and an arbitrary hash function.
use crate::com::*;

fn look(m: &mut FrozenMap<K, u16, Tab>, n: usize, q: usize) {
    let e = if q < n { Some(val(q)) } else { None };
    lookups!(m, &qk(q), e, |k: &K| k.tag == STORED);
    check!(m.len() == n);
    check!(m.is_empty() == (n == 0));
}
/// n keys and one absent key, all hash codes arbitrary below 2^bits
fn all(n: usize, bits: u32) {
    let t = tab(codes(n + 1, bits));
    let mut m = FrozenMap::from_vec_with_hasher(kv(n), t);
    let q = below(n as u64 + 1) as usize;
    look(&mut m, n, q);
    if q == n { reach(1) } else { reach(2) }
}
/// concrete codes except for the last `s` keys, whose codes are arbitrary 64-bit values, and an absent key
/// whose code is arbitrary below 2^abs
fn some(n: usize, s: usize, f: fn(u64) -> u64, abs: u32) {
    let mut c = Vec::with_capacity(n + 1);
    for i in 0..n - s { c.push(f(i as u64)); }
    for _ in 0..s { c.push(any_u64()); }
    c.push(any(abs));
    let mut m = FrozenMap::from_vec_with_hasher(kv(n), tab(c));
    let q = if any_bool() { if n > 20 { pick(n as u64) } else { below(n as u64) as usize } } else { n };
    look(&mut m, n, q);
    if q == n { reach(1) } else { reach(2) }
}
/// every key is found, concrete codes
fn present(n: usize, f: fn(u64) -> u64) {
    let mut c = Vec::with_capacity(n + 1);
    for i in 0..n { c.push(f(i as u64)); }
    let mut m = FrozenMap::from_vec_with_hasher(kv(n), tab(c));
    let q = pick(n as u64);
    look(&mut m, n, q);
    reach(3);
}
pub fn spread(i: u64) -> u64 { i.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 17 }
pub fn few(i: u64) -> u64 { i * i % 61 }
pub fn ident(i: u64) -> u64 { i }
/// every key of a map of some hundreds, and others
fn large<T: Kit<u16>>(n: usize) {
    let (kit, ks) = T::keys(n);
    let mut m = kit.build(entries_of(&ks, val));
    let i = place(n);
    *T::get_mut(&mut m, &ks[i]).unwrap() = 7;
    for (j, k) in ks.iter().enumerate() {
        let v = if i == j { 7 } else { val(j) };
        check!(T::get(&m, k) == Some(&v) && T::contains_key(&m, k));
        match T::get_key_value(&m, k) { Some((x, y)) => check!(x == k && *y == v), None => check!(false) }
    }
    check!(T::len(&m) == n);
    let q = kit.absent(&ks);
    check!(T::get(&m, &q).is_none() && !T::contains_key(&m, &q) && T::get_key_value(&m, &q).is_none() && T::get_mut(&mut m, &q).is_none());
    reach(33);
}
harnesses! {
fn c01_large_fk() { large::<Lfk>(LARGE) }
fn c01_0() { all(0, 64) }
fn c01_1() { all(1, 64) }
fn c01_2() { all(2, 64) }
fn c01_3() { all(3, 64) }
fn c01_4_2() { all(4, 2) }
fn c01_4_3() { all(4, 3) }
fn c01_5_2() { all(5, 2) }
fn c01_8s2() { some(8, 2, ident, 64) }
fn c01_8s3() { some(8, 3, ident, 64) }
fn c01_8s2f() { some(8, 2, few, 64) }
fn c01_9s1() { some(9, 1, few, 16) }
fn c01_9s2_t() { some(9, 2, few, 8) }
fn c01_13s0() { some(13, 0, spread, 64) }
fn c01_40s0() { some(40, 0, few, 64) }
fn c01_130s0() { some(130, 0, spread, 16) }
fn c01_255s0() { some(255, 0, spread, 12) }
fn c01_256s0() { some(256, 0, spread, 12) }
fn c01_300s0() { some(300, 0, few, 12) }
fn c01_256c() { present(256, same) }
fn c01_1100p() { present(1100, spread) }
fn c01_4_4_t() { all(4, 4) }
fn c01_5_3_t() { all(5, 3) }
fn c01_6_2_t() { all(6, 2) }
fn c01_7_2_t() { all(7, 2) }
fn c01_13s1_t() { some(13, 1, spread, 64) }
fn c01_13s2_t() { some(13, 2, spread, 16) }
fn c01_130s1_t() { some(130, 1, spread, 16) }
fn c01_256s0_t() { some(256, 0, spread, 64) }
}
pub fn same(_: u64) -> u64 { 7 }
