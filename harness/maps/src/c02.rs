//! C02: FrozenMap with u32 keys.
use crate::com::*;

type M = FrozenMap<u32, u16, Tab>;
fn build(keys: &[u32]) -> M { FrozenMap::from_vec_with_hasher(with_vals(keys.to_vec()), Tab(&[])) }
fn probe(m: &mut M, keys: &[u32], q: u32) {
    let e = to_val(find_int(keys, q));
    lookups!(m, &q, e, |_: &u32| true);
    check!(m.len() == keys.len());
    if e.is_some() { reach(1) } else { reach(2) }
}
/// the same, in ascending or descending order
fn sorted(n: usize, bits: u32, off: u32, down: bool) {
    let d: Vec<u32> = (0..n).map(|_| any(bits) as u32).collect();
    let mut ok = true;
    for i in 1..n { ok &= if down { d[i] < d[i - 1] } else { d[i] > d[i - 1] }; }
    assume(ok);
    let keys: Vec<u32> = d.iter().map(|x| off.wrapping_add(*x)).collect();
    let mut m = build(&keys);
    probe(&mut m, &keys, any_u32());
}
/// n arbitrary distinct keys of the given width, any query
fn all(n: usize, bits: u32, off: u32) {
    let keys: Vec<u32> = (0..n).map(|_| off.wrapping_add(any(bits) as u32)).collect();
    distinct_ints(&keys);
    let mut m = build(&keys);
    probe(&mut m, &keys, any_u32());
}
/// a run that starts anywhere, in an order given by a rotation and a reflection, any query
fn run(n: usize) {
    let b = any_u32();
    assume(b <= u32::MAX - (n as u32 - 1));
    let r = pick(n as u64);
    let back = pick(2) == 1;
    let keys: Vec<u32> = (0..n).map(|i| { let j = (i + r) % n; b + if back { n - 1 - j } else { j } as u32 }).collect();
    let mut m = build(&keys);
    probe(&mut m, &keys, any_u32());
}
/// every order of a run of four
fn perm4() {
    let b = any_u32();
    assume(b <= u32::MAX - 3);
    let keys: Vec<u32> = (0..4).map(|_| b + pick(4) as u32).collect();
    distinct_ints(&keys);
    let mut m = build(&keys);
    probe(&mut m, &keys, any_u32());
}
/// a run of small numbers with one key moved beyond its end (or far away)
fn gap(n: usize, b: u32, bits: u32) {
    let hole = pick(n as u64);
    let mut keys: Vec<u32> = (0..n).map(|i| b.wrapping_add(i as u32)).collect();
    keys[hole] = b.wrapping_add(n as u32).wrapping_add(any(bits) as u32);
    let mut m = build(&keys);
    probe(&mut m, &keys, b.wrapping_add(any(bits + 1) as u32));
}
/// some concrete keys and s arbitrary ones, any query of the given width
fn some(fixed: &[u32], s: usize, bits: u32, qbits: u32) {
    let mut keys = fixed.to_vec();
    for _ in 0..s { keys.push(any(bits) as u32); }
    distinct_ints(&keys);
    let mut m = build(&keys);
    let q = if any_bool() { let i = below(keys.len() as u64) as usize; let mut q = 0; for (j, k) in keys.iter().enumerate() { q |= *k & ((i == j) as u32).wrapping_neg(); } q } else { any(qbits) as u32 };
    probe(&mut m, &keys, q);
}
/// many concrete keys: each of them is found; any query of the given width
fn big(n: usize, f: fn(u32) -> u32, qbits: u32) {
    let keys: Vec<u32> = (0..n as u32).map(f).collect();
    let mut m = build(&keys);
    let q = if any_bool() { keys[pick(n as u64)] } else { any(qbits) as u32 };
    probe(&mut m, &keys, q);
}
fn spread(i: u32) -> u32 { i.wrapping_mul(0x9E37_79B9) }
fn dense(i: u32) -> u32 { u32::MAX - i }
fn even(i: u32) -> u32 { i * 2 }
fn blocks(i: u32) -> u32 { (i % 8) * 1000 + i / 8 }
/// every key of a map of some hundreds, and others
fn large<T: Kit<u16>>(n: usize) {
    let (kit, ks) = T::keys(n);
    let mut m = kit.build(entries_of(&ks, val));
    let i = place(n);
    *T::get_mut(&mut m, &ks[i]).unwrap() = 7;
    for (j, k) in ks.iter().enumerate() {
        let v = if i == j { 7 } else { val(j) };
        check!(T::get(&m, k) == Some(&v) && T::contains_key(&m, k));
        match T::get_key_value(&m, k) { Some((x, y)) => check!(x == k && *y == v), None => check!(false) }
    }
    check!(T::len(&m) == n);
    let q = kit.absent(&ks);
    check!(T::get(&m, &q).is_none() && !T::contains_key(&m, &q) && T::get_key_value(&m, &q).is_none() && T::get_mut(&mut m, &q).is_none());
    reach(3);
}
harnesses! {
fn c02_large_fr() { large::<Lfr>(LARGE) }
fn c02_large_fi() { large::<Lfi>(LARGE) }
fn c02_0() { let mut m = build(&[]); probe(&mut m, &[], any_u32()); }
fn c02_1() { all(1, 32, 0) }
fn c02_2() { all(2, 32, 0) }
fn c02_3() { all(3, 32, 0) }
fn c02_4lo() { sorted(4, 3, 0, false) }
fn c02_4hi() { sorted(4, 3, u32::MAX - 7, true) }
fn c02_4wrap() { sorted(4, 3, u32::MAX - 3, false) }
fn c02_5() { sorted(5, 3, 9, false) }
fn c02_4x4s_t() { sorted(4, 4, 0, true) }
fn c02_6() { sorted(6, 3, 0, true) }
fn c02_perm4() { perm4() }
fn c02_run4() { run(4) }
fn c02_run5() { run(5) }
fn c02_run9() { run(9) }
fn c02_gap4() { gap(4, 0, 4) }
fn c02_gap6() { gap(6, 1000, 4) }
fn c02_gap5hi() { gap(5, u32::MAX - 4, 4) }
fn c02_ends() { some(&[0, u32::MAX, 1 << 31], 1, 6, 6) }
fn c02_some8() { some(&[0, 3, 17, 64, 100, 1000, 70000], 1, 6, 8) }
fn c02_150even() { big(150, even, 10) }
fn c02_255() { big(255, spread, 10) }
fn c02_256() { big(256, spread, 10) }
fn c02_256d() { big(256, dense, 32) }
fn c02_300b() { big(300, blocks, 14) }
fn c02_4lo_t() { all(4, 3, 0) }
fn c02_4hi_t() { all(4, 3, u32::MAX - 7) }
fn c02_4wrap_t() { all(4, 3, u32::MAX - 3) }
fn c02_7x4_t() { sorted(7, 4, 0, false) }
fn c02_6x5_t() { sorted(6, 5, 0, false) }
fn c02_4x6_t() { sorted(4, 6, 0, false) }
fn c02_4x5_t() { all(4, 5, 0) }
fn c02_5x3_t() { all(5, 3, 0) }
fn c02_5x4_t() { all(5, 4, u32::MAX - 15) }
fn c02_ends_t() { some(&[0, u32::MAX, 1 << 31], 1, 32, 32) }
fn c02_ends2_t() { some(&[0, u32::MAX, 1 << 31], 2, 6, 6) }
fn c02_some8_t() { some(&[0, 3, 17, 64, 100, 1000], 2, 6, 16) }
fn c02_gap12_t() { gap(12, 5, 8) }
fn c02_run17_t() { run(17) }
fn c02_1100_t() { big(1100, spread, 16) }
fn c02_256q_t() { big(256, spread, 32) }
}
