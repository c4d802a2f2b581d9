//! C03: FrozenMap with String keys.
use crate::com::*;

type M = FrozenMap<String, u16, Lin>;
fn probe(m: &mut M, keys: &[Vec<u8>], q: &String) {
    let e = to_val(find_bytes(keys, q.as_bytes()));
    lookups!(m, q, e, |_: &String| true);
    check!(m.len() == keys.len());
    if e.is_some() { reach(1) } else { reach(2) }
}
/// a query of any length up to max, its characters like those of the keys
fn query(max: usize, bits: u32) -> String { sstr(pick(max as u64 + 1), bits) }
/// distinct arbitrary keys of the given lengths and any query
fn all(lens: &[usize], bits: u32, h: Lin) {
    let keys: Vec<String> = lens.iter().map(|&l| sstr(l, bits)).collect();
    let b = bytes_of(&keys);
    distinct_bytes(&b);
    let mut m = FrozenMap::from_vec_with_hasher(with_vals(keys), h);
    let q = query(*lens.iter().max().unwrap_or(&0) + 1, bits);
    probe(&mut m, &b, &q);
}
/// the same for keys of one length in ascending order, followed by some of other lengths
fn asc(n: usize, l: usize, more: &[usize], bits: u32, h: Lin) {
    let mut keys: Vec<String> = (0..n).map(|_| sstr(l, bits)).collect();
    let mut ok = true;
    let ord = |s: &String| { let mut o = 0u64; for c in s.bytes() { o = o << 8 | c as u64 } o };
    for i in 1..n { ok &= ord(&keys[i - 1]) < ord(&keys[i]); }
    for &l in more { keys.push(sstr(l, bits)); }
    assume(ok);
    let b = bytes_of(&keys);
    if more.len() > 1 { distinct_bytes(&b); }
    let mut m = FrozenMap::from_vec_with_hasher(with_vals(keys), h);
    let q = query(more.iter().copied().max().unwrap_or(0).max(l) + 1, bits);
    probe(&mut m, &b, &q);
}
/// keys with a fixed part: in the pattern, '?' is an arbitrary character, anything else stands for itself
fn pat(ps: &[&str], bits: u32, h: Lin, qs: &[&str]) {
    let inst = |p: &str| { let mut v = Vec::with_capacity(p.len()); for c in p.bytes() { v.push(if c == b'?' { b'a' + any(bits) as u8 } else { c }); } unsafe { String::from_utf8_unchecked(v) } };
    let keys: Vec<String> = ps.iter().map(|p| inst(p)).collect();
    let b = bytes_of(&keys);
    distinct_bytes(&b);
    let mut m = FrozenMap::from_vec_with_hasher(with_vals(keys.clone()), h);
    let i = pick((qs.len() + keys.len()) as u64);
    let q = if i < qs.len() { inst(qs[i]) } else { keys[i - qs.len()].clone() };
    probe(&mut m, &b, &q);
}
/// many concrete keys; queries are keys, keys with an arbitrary character somewhere, shorter and longer ones
fn big(n: usize, f: fn(usize) -> String, h: Lin) {
    let keys: Vec<String> = (0..n).map(f).collect();
    let b = bytes_of(&keys);
    let mut m = FrozenMap::from_vec_with_hasher(with_vals(keys.clone()), h);
    let c = |x: u8| if n < 100 { any(7) as u8 } else { x & 0xF0 | any(4) as u8 };
    let (q, e) = if any_bool() {
        let i = pick(n as u64);
        (keys[i].clone(), Some(val(i)))
    } else {
        let mut q = keys[pick(3) * (n / 3)].clone().into_bytes();
        match pick(4) {
            0 => { q.pop(); }
            1 => q.push(c(b'0')),
            2 => { let l = q.len(); q[l - 1] = c(q[l - 1]) }
            _ => { let l = q.len(); q[l / 2] = c(q[l / 2]) }
        }
        let e = to_val(find_bytes(&b, &q));
        (unsafe { String::from_utf8_unchecked(q) }, e)
    };
    lookups!(m, &q, e, |_: &String| true);
    check!(m.len() == n);
    if e.is_some() { reach(1) } else { reach(2) }
}
const ONE: Lin = Lin { w: [1; 4], mask: u64::MAX };
const BIT: Lin = Lin { w: [1; 4], mask: 1 };
const POS: Lin = Lin { w: [1, 3, 7, 31], mask: u64::MAX };
const NIL: Lin = Lin { w: [1; 4], mask: 0 };
fn num(i: usize) -> String { let mut s = String::new(); s.push((b'0' + (i / 100) as u8) as char); s.push((b'0' + (i / 10 % 10) as u8) as char); s.push((b'0' + (i % 10) as u8) as char); s }
fn fnum(i: usize) -> String { let mut s = num(i); s.insert_str(0, "key"); s.push('z'); s }
fn rnum(i: usize) -> String { let mut s = num(i); if i % 2 == 1 { s.insert_str(0, "xx") } s.push('z'); s }
fn long(i: usize) -> String { let mut s = String::from("abcdefghijklmnopqrstuvwxyz"); for _ in 0..i % 7 { s.push('-') } s.push_str(&num(i)); s }
/// 20 keys, two of which share every short substring
fn dup(i: usize) -> String { let mut s = String::from("p"); s.push((b'a' + (if i == 0 { 1 } else { i }) as u8) as char); s.push(if i == 0 { 'y' } else { 'x' }); s }
/// concrete keys of hundreds of characters
fn longs(keys: Vec<String>, at: &[usize]) {
    let b = bytes_of(&keys);
    let mut m = FrozenMap::from_vec_with_hasher(with_vals(keys.clone()), POS);
    let q = long_query(&keys, at);
    let e = to_val(find_bytes(&b, q.as_bytes()));
    lookups!(m, &q, e, |_: &String| true);
    check!(m.len() == keys.len());
    if e.is_some() { reach(1) } else { reach(2) }
}
/// every key of a map of some hundreds, and others
fn large<T: Kit<u16>>(n: usize) {
    let (kit, ks) = T::keys(n);
    let mut m = kit.build(entries_of(&ks, val));
    let i = place(n);
    *T::get_mut(&mut m, &ks[i]).unwrap() = 7;
    for (j, k) in ks.iter().enumerate() {
        let v = if i == j { 7 } else { val(j) };
        check!(T::get(&m, k) == Some(&v) && T::contains_key(&m, k));
        match T::get_key_value(&m, k) { Some((x, y)) => check!(x == k && *y == v), None => check!(false) }
    }
    check!(T::len(&m) == n);
    let q = kit.absent(&ks);
    check!(T::get(&m, &q).is_none() && !T::contains_key(&m, &q) && T::get_key_value(&m, &q).is_none() && T::get_mut(&mut m, &q).is_none());
    reach(3);
}
harnesses! {
fn c03_large_fn() { large::<Lfn>(LARGE) }
fn c03_large2_fn() { large::<Lfn>(255) }
fn c03_large_fl() { large::<Lfl>(LARGE) }
fn c03_large2_fl() { large::<Lfl>(255) }
fn c03_large_ft() { large::<Lft>(LARGE) }
fn c03_large2_ft() { large::<Lft>(255) }
fn c03_0() { all(&[], 2, ONE) }
fn c03_1() { all(&[2], 7, ONE) }
fn c03_2() { all(&[0, 2], 7, ONE) }
fn c03_3() { all(&[1, 2, 2], 7, ONE) }
fn c03_len4() { all(&[0, 1, 2, 3], 2, ONE) }
fn c03_len4b() { all(&[1, 1, 1, 2], 2, ONE) }
fn c03_len5() { all(&[1, 1, 2, 2, 4], 1, ONE) }
fn c03_len6() { all(&[2, 2, 2, 3, 3, 3], 1, ONE) }
fn c03_eq4x1() { asc(4, 1, &[], 3, ONE) }
fn c03_eq4x1o() { all(&[1, 1, 1, 1], 2, ONE) }
fn c03_eq4x2() { all(&[2, 2, 2, 2], 1, ONE) }
fn c03_eq4x3() { asc(4, 3, &[], 1, POS) }
fn c03_eq4x2n() { all(&[2, 2, 2, 2], 2, NIL) }
fn c03_mix5() { asc(4, 2, &[1], 1, ONE) }
fn c03_mix5b() { asc(4, 2, &[3], 1, ONE) }
fn c03_mix5c() { all(&[2, 2, 2, 2, 3], 1, BIT) }
fn c03_mix5e() { asc(4, 2, &[0], 1, ONE) }
fn c03_long_a() { longs((0..5).map(|i| lkey([0, 4, 256, 300, 515][i], 0, b'b')).collect(), &[0, 3, 255, 299]) }
fn c03_long_b() { longs((0..6).map(|i| lkey([44, 300, 300, 300, 556, 1][i], i * 7, b'c')).collect(), &[0, 7, 14, 21, 299]) }
fn c03_long_l() { longs((0..5).map(|i| lkey(300, 280, b'b' + i as u8)).collect(), &[0, 24, 280, 299]) }
fn c03_long_r() { longs((0..5).map(|i| lkey(290 + i, 285 + i, b'b' + i as u8)).collect(), &[0, 29, 30, 285, 288]) }
fn c03_mix5f_t() { asc(4, 3, &[2], 1, ONE) }
fn c03_left() { pat(&["ka?", "kb?", "kc?", "kd?"], 2, ONE, &["k??", "k?", "?", "", "k???"]) }
fn c03_right() { pat(&["aa?z", "bbaaz", "aabaz", "cac?z", "aadaz"], 2, ONE, &["aa?z", "b??z", "?z", "z", "", "aac?z?"]) }
fn c03_right2() { pat(&["aaab", "aabb", "aacb", "aadb", "xxaaeb"], 1, ONE, &["aa?b", "xxaa?b", "?b", "b", "", "aa?bb"]) }
fn c03_right3() { pat(&["k1x", "k2x", "k3x", "k4x", "kk1yx"], 2, POS, &["k?x", "k1?", "?x", "?", "", "kk1?x"]) }
fn c03_left3() { pat(&["a1x", "b2?", "a3x", "b4x", "b1"], 2, BIT, &["?1x", "b?", "?", "", "b2?", "a1??"]) }
fn c03_20dup() { big(20, dup, ONE) }
fn c03_40() { big(40, fnum, ONE) }
fn c03_256() { big(256, fnum, POS) }
fn c03_256one_t() { big(256, fnum, ONE) }
fn c03_40r() { big(40, rnum, ONE) }
fn c03_260r() { big(260, rnum, POS) }
fn c03_60long() { big(60, long, POS) }
fn c03_eq4x1_t() { all(&[1, 1, 1, 1], 3, ONE) }
fn c03_eq4x3_t() { all(&[3, 3, 3, 3], 1, POS) }
fn c03_mix5_t() { all(&[2, 2, 2, 2, 1], 1, ONE) }
fn c03_mix5b_t() { all(&[2, 2, 2, 2, 3], 1, ONE) }
fn c03_eq4x2_t() { all(&[2, 2, 2, 2], 2, ONE) }
fn c03_eq5x3_t() { all(&[3, 3, 3, 3, 3], 1, ONE) }
fn c03_eq4x4_t() { all(&[4, 4, 4, 4], 1, ONE) }
fn c03_mix6_t() { all(&[2, 2, 2, 2, 3, 4], 1, ONE) }
fn c03_mix6b_t() { all(&[3, 3, 3, 3, 4, 2], 1, BIT) }
fn c03_len7_t() { all(&[1, 1, 2, 2, 2, 3, 5], 2, ONE) }
fn c03_len4_t() { all(&[1, 2, 3, 4], 7, ONE) }
}
