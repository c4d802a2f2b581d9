//! C05: entries with repeated keys.
use crate::com::*;

/// an answer for a query: some entry with that key
macro_rules! one_of {
    ($m:expr, $q:expr, $keys:expr) => {{
        let (q, keys) = ($q, $keys);
        let mut e = false;
        for k in keys.iter() { e |= k == q; }
        check!($m.contains_key(q) == e);
        match $m.get(q).copied() {
            Some(v) => { check!(v >= 100 && (v as usize) < 100 + keys.len()); check!(keys[v as usize - 100] == *q); reach(1); }
            None => { check!(!e); reach(2); }
        }
        match $m.get_key_value(q) { Some((k, v)) => { check!(k == q); check!(*v >= 100 && (*v as usize) < 100 + keys.len()); check!(keys[*v as usize - 100] == *q); } None => check!(!e) }
        match $m.get_mut(q) { Some(v) => { check!(*v >= 100 && (*v as usize) < 100 + keys.len()); check!(keys[*v as usize - 100] == *q); } None => check!(!e) }
        e
    }};
}
macro_rules! in_set {
    ($s:expr, $q:expr, $e:expr) => {{
        let q = $q;
        check!($s.contains(q) == $e);
        match $s.get(q) { Some(k) => { check!($e); check!(k == q); } None => check!(!$e) }
    }};
}
/// ids: every pattern of equal keys, once (each id is at most one more than the largest before it)
fn pattern(n: usize) -> Vec<usize> {
    let mut v = Vec::new();
    let mut top = 0;
    for i in 0..n { let x = if i == 0 { 0 } else { pick(top as u64 + 2) }; if i > 0 && x > top { top = x; } v.push(x); }
    v
}
fn any_type(n: usize, bits: u32) {
    let ids = pattern(n);
    let keys: Vec<K> = ids.iter().map(|&i| sk(i)).collect();
    let t = tab(codes(n + 1, bits));
    let mut m = FrozenMap::from_vec_with_hasher(with_vals(keys.clone()), t);
    let q = pick(n as u64 + 1);
    let e = one_of!(m, &qk(q), &keys);
    let s = FrozenSet::from_vec_with_hasher(keys, t);
    in_set!(s, &qk(q), e);
}
/// specialised kinds
fn special(n: usize, bits: u32) {
    let ids = pattern(n);
    let keys: Vec<K> = ids.iter().map(|&i| sk(i)).collect();
    let t = tab(codes(n + 1, bits));
    let q = pick(n as u64 + 1);
    let mut m = CommonMap::<K, u16, u8, Tab>::from_vec_with_hasher(with_vals(keys.clone()), t);
    one_of!(m, &qk(q), &keys);
    let mut m = ScanningMap::<K, u16>::from_vec(with_vals(keys.clone()));
    one_of!(m, &qk(q), &keys);
    let keys: Vec<i32> = ids.iter().map(|&i| (i * i * 7) as i32 - 3).collect();
    let mut m = IntegerMap::<i32, u16, u8>::from_vec(with_vals(keys.clone()));
    one_of!(m, &((q * q * 7) as i32 - 3), &keys);
}
fn ints(n: usize, off: u32, bits: u32, sorted: bool) {
    let d: Vec<u32> = (0..n).map(|_| any(bits) as u32).collect();
    if sorted { let mut ok = true; for i in 1..n { ok &= d[i - 1] <= d[i]; } assume(ok); }
    let keys: Vec<u32> = d.iter().map(|x| off.wrapping_add(*x)).collect();
    ints_of(keys, off.wrapping_add(any(bits + 1) as u32));
}
fn ints_of(keys: Vec<u32>, q: u32) {
    let mut e = find_int(&keys, q) != 0;
    let mut m = FrozenMap::from_vec_with_hasher(with_vals(keys.clone()), Tab(&[]));
    one_of!(m, &q, &keys);
}
fn ints_set(n: usize, off: u32, bits: u32) {
    let keys: Vec<u32> = (0..n).map(|_| off.wrapping_add(any(bits) as u32)).collect();
    let q = off.wrapping_add(any(bits + 1) as u32);
    let e = find_int(&keys, q) != 0;
    let s = FrozenSet::from_vec_with_hasher(keys, Tab(&[]));
    in_set!(s, &q, e);
}
/// a run that starts anywhere with one key repeated in place of another, or in addition
fn run_dup(n: usize, add: bool) {
    let b = [0, 5000, u32::MAX - 16][pick(3)] + pick(2) as u32;
    let (i, j) = (pick(n as u64), pick(n as u64));
    let mut keys: Vec<u32> = (0..n as u32).map(|i| b + i).collect();
    if add { let k = keys[j]; keys.push(k); } else { keys[i] = keys[j]; }
    ints_of(keys, b.wrapping_sub(4).wrapping_add(any(4) as u32));
}
/// as many keys as a run has, with the same ends and sum: 0 0 3 3
fn balanced() { let b = any_u32(); assume(b < u32::MAX - 8); ints_of(vec![b, b, b + 3, b + 3, b + 1, b + 5, b + 6, b + 6], b.wrapping_add(any(4) as u32)); }
fn big(n: usize, d: u32, f: fn(u32) -> u32) {
    let keys: Vec<u32> = (0..n as u32).map(|i| f(i % d)).collect();
    let mut m = FrozenMap::from_vec_with_hasher(with_vals(keys.clone()), Tab(&[]));
    let q = if any_bool() { keys[pick(d as u64)] } else { any(9) as u32 };
    one_of!(m, &q, &keys);
}
fn big_k(n: usize, d: usize) {
    let keys: Vec<K> = (0..n).map(|i| sk(i % d)).collect();
    let mut m = FrozenMap::from_vec_with_hasher(with_vals(keys.clone()), tab((0..d as u64).map(|i| i.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 17).collect()));
    one_of!(m, &qk(pick(d as u64 + 1)), &keys);
}
fn big_s(n: usize, d: usize) {
    let f = |i: usize| { let mut s = String::from("k"); s.push((b'0' + (i / 100) as u8) as char); s.push((b'0' + (i / 10 % 10) as u8) as char); s.push((b'0' + (i % 10) as u8) as char); s };
    let keys: Vec<String> = (0..n).map(|i| f(i % d)).collect();
    let mut m = FrozenMap::from_vec_with_hasher(with_vals(keys.clone()), POS);
    let q = f(pick(d as u64 + 1));
    one_of!(m, &q, &keys);
}
fn strs(lens: &[usize], bits: u32, h: Lin) {
    let keys: Vec<String> = lens.iter().map(|&l| sstr(l, bits)).collect();
    let b = bytes_of(&keys);
    let q = sstr(pick(*lens.iter().max().unwrap() as u64 + 2), bits);
    let e = find_bytes(&b, q.as_bytes()) != 0;
    let mut m = FrozenMap::from_vec_with_hasher(with_vals(keys.clone()), h);
    check!(m.contains_key(&q) == e);
    match m.get(&q).copied() {
        Some(v) => { check!(v >= 100 && (v as usize) < 100 + keys.len()); check!(same_bytes(&b[v as usize - 100], q.as_bytes())); reach(1); }
        None => { check!(!e); reach(2); }
    }
    let s = FrozenSet::from_vec_with_hasher(keys, h);
    in_set!(s, &q, e);
}
const ONE: Lin = Lin { w: [1; 4], mask: u64::MAX };
const POS: Lin = Lin { w: [1, 3, 7, 31], mask: u64::MAX };
fn even(i: u32) -> u32 { i * 2 }
fn dense(i: u32) -> u32 { i + 3 }
harnesses! {
fn c05_k2() { any_type(2, 64) }
fn c05_k3() { any_type(3, 64) }
fn c05_k4() { any_type(4, 1) }
fn c05_k5_t() { any_type(5, 1) }
fn c05_sp3() { special(3, 2) }
fn c05_sp4() { special(4, 1) }
fn c05_i2() { ints(2, 0, 31, false) }
fn c05_i4() { ints(4, 0, 2, false) }
fn c05_i4hi() { ints(4, u32::MAX - 3, 2, true) }
fn c05_i5() { ints(5, 7, 2, true) }
fn c05_i6() { ints(6, 0, 2, true) }
fn c05_i4s() { ints_set(4, 3, 2) }
fn c05_run4() { run_dup(4, false) }
fn c05_run5() { run_dup(5, true) }
fn c05_run8() { balanced() }
fn c05_300() { big(300, 200, even) }
fn c05_256() { big(256, 255, dense) }
fn c05_255() { big(255, 128, even) }
fn c05_same() { big(260, 1, dense) }
fn c05_k300() { big_k(300, 250) }
fn c05_k200() { big_k(200, 20) }
fn c05_s20() { big_s(20, 19) }
fn c05_s60() { big_s(60, 55) }
fn c05_s300() { big_s(300, 250) }
fn c05_s3() { strs(&[1, 1, 2], 7, ONE) }
fn c05_s4() { strs(&[1, 1, 1, 1], 1, ONE) }
fn c05_s4b() { strs(&[1, 1, 1, 2], 2, ONE) }
fn c05_s5_t() { strs(&[1, 1, 1, 1, 2], 1, ONE) }
fn c05_s4x2_t() { strs(&[2, 2, 2, 2], 1, ONE) }
fn c05_s5x2_t() { strs(&[1, 1, 1, 1, 1, 2, 2], 1, ONE) }
fn c05_k4_t() { any_type(4, 2) }
fn c05_k6_t() { any_type(6, 1) }
fn c05_sp5_t() { special(5, 1) }
fn c05_i5_t() { ints(5, 0, 3, true) }
fn c05_i4_t() { ints(4, 0, 3, false) }
fn c05_i7_t() { ints(7, 0, 2, true) }
fn c05_run8_t() { run_dup(8, false) }
}
