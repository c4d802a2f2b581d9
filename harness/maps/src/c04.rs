//! C04: FrozenSet.
use crate::com::*;

macro_rules! members {
    ($s:expr, $q:expr, $exp:expr, $own:expr) => {{
        let (q, exp, own) = ($q, $exp, $own);
        let c = $s.contains(q);
        observe(c as u64);
        check!(c == exp);
        check!(Set::contains(&$s, q) == exp);
        match $s.get(q) { Some(k) => { check!(exp); check!(k == q); check!(own(k)); } None => check!(!exp) }
    }};
}
macro_rules! size {
    ($s:expr, $n:expr) => {{ check!($s.len() == $n); check!($s.is_empty() == ($n == 0)); check!($s.iter().count() == $n); }};
}
fn any_type(n: usize, bits: u32) {
    let s = FrozenSet::from_vec_with_hasher(ks(n), tab(codes(n + 1, bits)));
    let q = below(n as u64 + 1) as usize;
    members!(s, &qk(q), q < n, |k: &K| k.tag == STORED && k.id as usize == q);
    size!(s, n);
    if q < n { reach(1) } else { reach(2) }
}
/// concrete codes for all but the last s keys
fn some(n: usize, s: usize, f: fn(u64) -> u64, abs: u32) {
    let mut c = Vec::with_capacity(n + 1);
    for i in 0..n - s { c.push(f(i as u64)); }
    for _ in 0..s { c.push(any_u64()); }
    c.push(any(abs));
    let m = FrozenSet::from_vec_with_hasher(ks(n), tab(c));
    let q = if any_bool() { pick(n as u64) } else { n };
    members!(m, &qk(q), q < n, |k: &K| k.tag == STORED);
    size!(m, n);
    if q < n { reach(1) } else { reach(2) }
}
fn ints(keys: &[u32], q: u32) { ints_q(keys, || q) }
fn ints_q(keys: &[u32], q: impl Fn() -> u32) {
    let s = FrozenSet::from_vec_with_hasher(keys.to_vec(), Tab(&[]));
    let q = q();
    let e = find_int(keys, q) != 0;
    members!(s, &q, e, |_: &u32| true);
    size!(s, keys.len());
    if e { reach(1) } else { reach(2) }
}
fn run(n: usize) {
    let b = any_u32();
    assume(b <= u32::MAX - (n as u32 - 1));
    let r = pick(n as u64);
    let keys: Vec<u32> = (0..n).map(|i| b + ((i + r) % n) as u32).collect();
    ints(&keys, any_u32());
}
fn sorted(n: usize, bits: u32, off: u32) {
    let d: Vec<u32> = (0..n).map(|_| any(bits) as u32).collect();
    let mut ok = true;
    for i in 1..n { ok &= d[i] > d[i - 1]; }
    assume(ok);
    let keys: Vec<u32> = d.iter().map(|x| off.wrapping_add(*x)).collect();
    ints(&keys, any_u32());
}
fn big_ints(n: usize, f: fn(u32) -> u32, qbits: u32) {
    let keys: Vec<u32> = (0..n as u32).map(f).collect();
    ints_q(&keys, || if any_bool() { keys[pick(n as u64)] } else { any(qbits) as u32 });
}
fn few(n: usize) {
    let keys: Vec<u32> = (0..n).map(|_| any_u32()).collect();
    distinct_ints(&keys);
    ints(&keys, any_u32());
}
fn strs(keys: Vec<String>, q: String, h: Lin) {
    let b = bytes_of(&keys);
    distinct_bytes(&b);
    let n = keys.len();
    let s = FrozenSet::from_vec_with_hasher(keys, h);
    let e = find_bytes(&b, q.as_bytes()) != 0;
    members!(s, &q, e, |_: &String| true);
    size!(s, n);
    if e { reach(1) } else { reach(2) }
}
fn lens(l: &[usize], bits: u32, h: Lin) {
    let keys: Vec<String> = l.iter().map(|&x| sstr(x, bits)).collect();
    let q = sstr(pick(*l.iter().max().unwrap() as u64 + 2), bits);
    strs(keys, q, h);
}
/// characters at the end of strings of one length in ascending order, and a longer one
fn asc(pre: &str, bits: u32, more: &str, h: Lin) {
    let c: Vec<u8> = (0..4).map(|_| b'a' + any(bits) as u8).collect();
    assume(c[0] < c[1] && c[1] < c[2] && c[2] < c[3]);
    let mut keys: Vec<String> = c.iter().map(|c| { let mut s = pre.to_string(); s.push(*c as char); s }).collect();
    keys.push(more.to_string());
    let mut q = pre.to_string();
    match pick(3) { 0 => (), 1 => q.push((b'a' + any(bits) as u8) as char), _ => q = more.to_string() }
    strs(keys, q, h);
}
fn pat(ps: &[&str], bits: u32, h: Lin, qs: &[&str]) {
    let inst = |p: &str| { let mut v = Vec::with_capacity(p.len()); for c in p.bytes() { v.push(if c == b'?' { b'a' + any(bits) as u8 } else { c }); } unsafe { String::from_utf8_unchecked(v) } };
    let keys: Vec<String> = ps.iter().map(|p| inst(p)).collect();
    let i = pick((qs.len() + keys.len()) as u64);
    let q = if i < qs.len() { inst(qs[i]) } else { keys[i - qs.len()].clone() };
    strs(keys, q, h);
}
fn big_strs(n: usize, pre: &'static str, right: bool) {
    let f = |i: usize| {
        let mut s = String::from(if right && i % 2 == 1 { "xx" } else { pre });
        s.push((b'0' + (i / 100) as u8) as char); s.push((b'0' + (i / 10 % 10) as u8) as char); s.push((b'0' + (i % 10) as u8) as char);
        s
    };
    let keys: Vec<String> = (0..n).map(f).collect();
    let s = FrozenSet::from_vec_with_hasher(keys.clone(), POS);
    let (q, e) = if any_bool() { (keys[pick(n as u64)].clone(), true) } else {
        let mut q = keys[n / 2].clone().into_bytes();
        let l = q.len();
        match pick(3) { 0 => { q.pop(); } 1 => q.push(b'x'), _ => q[l - 2] = b'0' + any(4) as u8 }
        let e = find_bytes(&bytes_of(&keys), &q) != 0;
        (unsafe { String::from_utf8_unchecked(q) }, e)
    };
    members!(s, &q, e, |_: &String| true);
    size!(s, n);
    if e { reach(1) } else { reach(2) }
}
const ONE: Lin = Lin { w: [1; 4], mask: u64::MAX };
const POS: Lin = Lin { w: [1, 3, 7, 31], mask: u64::MAX };
const NIL: Lin = Lin { w: [1; 4], mask: 0 };
pub fn spread(i: u64) -> u64 { i.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 17 }
fn spread32(i: u32) -> u32 { i.wrapping_mul(0x9E37_79B9) }
fn dense(i: u32) -> u32 { u32::MAX - i }
/// concrete keys of hundreds of characters
fn longs(keys: Vec<String>, at: &[usize]) {
    let b = bytes_of(&keys);
    let s = FrozenSet::from_vec_with_hasher(keys.clone(), POS);
    let q = long_query(&keys, at);
    let e = to_val(find_bytes(&b, q.as_bytes()));
    members!(s, &q, e.is_some(), |_: &String| true);
    size!(s, keys.len());
    if e.is_some() { reach(1) } else { reach(2) }
}
/// every kind of frozen set with some hundreds of values
fn large<T: SKit>(n: usize) where T::Set: Set<T::Key> {
    let (kit, ks) = T::keys(n);
    let s = kit.build(ks.clone());
    for k in &ks { check!(T::contains(&s, k)); match T::get(&s, k) { Some(x) => check!(x == k), None => check!(false) } }
    size!(s, n);
    let q = kit.absent(&ks);
    check!(!T::contains(&s, &q) && T::get(&s, &q).is_none() && !Set::contains(&s, &q));
    reach(3);
}
harnesses! {
fn c04_large_fk() { large::<SLfk>(LARGE) }
fn c04_large_fr() { large::<SLfr>(LARGE) }
fn c04_large_fi() { large::<SLfi>(LARGE) }
fn c04_large_fn() { large::<SLfn>(LARGE) }
fn c04_large_fl() { large::<SLfl>(LARGE) }
fn c04_large_ft() { large::<SLft>(LARGE) }
fn c04_large2_fn() { large::<SLfn>(255) }
fn c04_large2_fl() { large::<SLfl>(255) }
fn c04_large2_ft() { large::<SLft>(255) }
fn c04_k0() { any_type(0, 64) }
fn c04_k2() { any_type(2, 64) }
fn c04_k3() { any_type(3, 64) }
fn c04_k4() { any_type(4, 2) }
fn c04_k5() { any_type(5, 1) }
fn c04_k8() { some(8, 2, spread, 64) }
fn c04_k40() { some(40, 0, spread, 64) }
fn c04_k256() { some(256, 0, spread, 12) }
fn c04_i1() { few(1) }
fn c04_i3() { few(3) }
fn c04_run4() { run(4) }
fn c04_run6() { run(6) }
fn c04_i4() { sorted(4, 3, 0) }
fn c04_i4hi() { sorted(4, 3, u32::MAX - 7) }
fn c04_i5() { sorted(5, 3, 70) }
fn c04_i130() { big_ints(130, spread32, 10) }
fn c04_i256() { big_ints(256, spread32, 10) }
fn c04_i300() { big_ints(300, dense, 32) }
fn c04_s3() { lens(&[1, 2, 2], 7, ONE) }
fn c04_len4() { lens(&[0, 1, 2, 3], 2, ONE) }
fn c04_len5() { lens(&[1, 1, 2, 2, 4], 1, ONE) }
fn c04_eq4() { lens(&[1, 1, 1, 1], 2, ONE) }
fn c04_eq4n() { lens(&[2, 2, 2, 2], 1, NIL) }
fn c04_mix5() { lens(&[2, 2, 2, 2, 3], 1, NIL) }
fn c04_asc() { asc("k", 3, "kaz", ONE) }
fn c04_ascr() { asc("kk", 3, "kky", POS) }
fn c04_left() { pat(&["ka?", "kb?", "kc?", "kd?"], 2, ONE, &["k??", "k?", "?", "", "k???"]) }
fn c04_left2() { pat(&["k1x", "k2x", "k3x", "k4x", "kk1yx"], 2, POS, &["k?x", "k1?", "?x", "?", "", "kk1?x"]) }
fn c04_right() { pat(&["aa?z", "bbaaz", "aabaz", "cac?z", "aadaz"], 2, ONE, &["aa?z", "b??z", "?z", "z", "", "aac?z?"]) }
fn c04_right2() { pat(&["aaab", "aabb", "aacb", "aadb", "xxaaeb"], 1, ONE, &["aa?b", "xxaa?b", "?b", "b", "", "aa?bb"]) }
fn c04_s40() { big_strs(40, "key", false) }
fn c04_s256() { big_strs(256, "key", false) }
fn c04_s40r() { big_strs(40, "", true) }
fn c04_s260r() { big_strs(260, "", true) }
fn c04_long_a() { longs((0..5).map(|i| lkey([0, 4, 256, 300, 515][i], 0, b'b')).collect(), &[0, 3, 255, 299]) }
fn c04_long_b() { longs((0..6).map(|i| lkey([44, 300, 300, 300, 556, 1][i], i * 7, b'c')).collect(), &[0, 7, 14, 21, 299]) }
fn c04_long_l() { longs((0..5).map(|i| lkey(300, 280, b'b' + i as u8)).collect(), &[0, 24, 280, 299]) }
fn c04_long_r() { longs((0..5).map(|i| lkey(290 + i, 285 + i, b'b' + i as u8)).collect(), &[0, 29, 30, 285, 288]) }
fn c04_mix5b_t() { lens(&[1, 1, 1, 1, 3], 2, POS) }
fn c04_k4_t() { any_type(4, 3) }
fn c04_k5_t() { any_type(5, 2) }
fn c04_k13_t() { some(13, 1, spread, 64) }
fn c04_i4_t() { sorted(4, 5, 0) }
fn c04_i6_t() { sorted(6, 4, 3) }
fn c04_run17_t() { run(17) }
fn c04_len7_t() { lens(&[1, 1, 2, 2, 2, 3, 5], 2, ONE) }
fn c04_eq4_t() { lens(&[2, 2, 2, 2], 1, ONE) }
fn c04_eq5_t() { lens(&[2, 2, 2, 2, 2], 2, NIL) }
fn c04_mix5_t() { lens(&[2, 2, 2, 2, 3], 1, ONE) }
fn c04_i1100_t() { big_ints(1100, spread32, 16) }
}
