//! C06: the specialised hash maps and sets: general hashing, integer hashing, hashing by length, scanning.
use crate::com::*;

macro_rules! members {
    ($s:expr, $q:expr, $exp:expr) => {{
        let (q, exp) = ($q, $exp);
        check!($s.contains(q) == exp);
        check!(Set::contains(&$s, q) == exp);
        match $s.get(q) { Some(k) => { check!(exp); check!(k == q); } None => check!(!exp) }
    }};
}
macro_rules! common {
    ($s:ty, $n:expr, $bits:expr) => {{
        let n: usize = $n;
        let t = tab(codes(n + 1, $bits));
        let q = below(n as u64 + 1) as usize;
        let mut m = CommonMap::<K, u16, $s, Tab>::from_vec_with_hasher(kv(n), t);
        let e = if q < n { Some(val(q)) } else { None };
        lookups!(m, &qk(q), e, |k: &K| k.tag == STORED);
        check!(Len::len(&m) == n);
        let s = CommonSet::<K, $s, Tab>::from_vec_with_hasher(ks(n), t);
        members!(s, &qk(q), q < n);
        check!(Len::len(&s) == n);
        if q < n { reach(1) } else { reach(2) }
    }};
}
/// concrete codes for the first keys, the rest arbitrary
macro_rules! common_some {
    ($s:ty, $n:expr, $sym:expr, $abs:expr) => {{
        let n: usize = $n;
        let mut c: Vec<u64> = (0..n - $sym).map(|i| spread(i as u64)).collect();
        for _ in 0..$sym { c.push(any_u64()); }
        c.push(any($abs));
        let mut m = CommonMap::<K, u16, $s, Tab>::from_vec_with_hasher(kv(n), tab(c));
        let q = if any_bool() { pick(n as u64) } else { n };
        let e = if q < n { Some(val(q)) } else { None };
        lookups!(m, &qk(q), e, |k: &K| k.tag == STORED);
        check!(Len::len(&m) == n);
        if q < n { reach(1) } else { reach(2) }
    }};
}
pub fn spread(i: u64) -> u64 { i.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 17 }
macro_rules! scan {
    ($n:expr) => {{
        let n: usize = $n;
        let q = below(n as u64 + 1) as usize;
        let mut m = ScanningMap::<K, u16>::from_vec(kv(n));
        let e = if q < n { Some(val(q)) } else { None };
        lookups!(m, &qk(q), e, |k: &K| k.tag == STORED);
        check!(Len::len(&m) == n);
        let s = ScanningSet::<K>::from_vec(ks(n));
        members!(s, &qk(q), q < n);
        check!(Len::len(&s) == n);
        if q < n { reach(1) } else { reach(2) }
    }};
}
/// n integers in ascending order above `off` (the first two in any order), any query
macro_rules! ints {
    ($t:ty, $s:ty, $n:expr, $bits:expr, $off:expr, $q:expr) => {{
        let n: usize = $n;
        let d: Vec<$t> = (0..n).map(|_| any($bits) as $t).collect();
        let mut ok = true;
        for i in 1..n { ok &= if i == 1 { d[0] != d[1] } else { d[i] > d[i - 1] && d[i] > d[0] }; }
        assume(ok);
        let keys: Vec<$t> = d.iter().map(|x| (*x).wrapping_add($off)).collect();
        let q: $t = $q;
        let e = to_val(find_int(&keys, q));
        let mut m = IntegerMap::<$t, u16, $s>::from_vec(with_vals(keys.clone()));
        lookups!(m, &q, e, |_: &$t| true);
        check!(Len::len(&m) == n);
        if e.is_some() { reach(1) } else { reach(2) }
    }};
}
macro_rules! int_set {
    ($t:ty, $s:ty, $n:expr, $bits:expr, $off:expr, $q:expr) => {{
        let n: usize = $n;
        let d: Vec<$t> = (0..n).map(|_| any($bits) as $t).collect();
        let mut ok = true;
        for i in 1..n { ok &= d[i] > d[i - 1]; }
        assume(ok);
        let keys: Vec<$t> = d.iter().map(|x| (*x).wrapping_add($off)).collect();
        let q: $t = $q;
        let e = find_int(&keys, q) != 0;
        let s = IntegerSet::<$t, $s>::from_vec(keys);
        members!(s, &q, e);
        check!(Len::len(&s) == n);
        if e { reach(1) } else { reach(2) }
    }};
}
/// strings hashed by length
macro_rules! lens {
    ($s:ty, $l:expr, $bits:expr) => {{
        let l: &[usize] = $l;
        let keys: Vec<String> = l.iter().map(|&x| sstr(x, $bits)).collect();
        let b = bytes_of(&keys);
        distinct_bytes(&b);
        let q = sstr(pick(*l.iter().max().unwrap_or(&0) as u64 + 2), $bits);
        let e = to_val(find_bytes(&b, q.as_bytes()));
        let mut m = LengthMap::<String, u16, $s>::from_vec(with_vals(keys.clone()));
        lookups!(m, &q, e, |_: &String| true);
        check!(Len::len(&m) == l.len());
        let s = LengthSet::<String, $s>::from_vec(keys);
        members!(s, &q, e.is_some());
        check!(Len::len(&s) == l.len());
        if e.is_some() { reach(1) } else { reach(2) }
    }};
}
macro_rules! borrow_look {
    ($m:expr, $q:expr, $exp:expr) => {{
        let (q, exp) = ($q, $exp);
        check!($m.get(q).copied() == exp);
        check!($m.contains_key(q) == exp.is_some());
        match $m.get_key_value(q) { Some((k, v)) => { check!(Some(*v) == exp); check!(&**k == q); } None => check!(exp.is_none()) }
        check!($m.get_mut(q).map(|v| *v) == exp);
    }};
}
/// lookups through a borrowed form of the key
fn borrowed(n: usize) {
    let t = tab(codes(n + 1, 2));
    let q = below(n as u64 + 1) as usize;
    let e = if q < n { Some(val(q)) } else { None };
    let bx = || (0..n).map(|i| (Box::new(sk(i)), val(i))).collect::<Vec<_>>();
    let mut m = CommonMap::<Box<K>, u16, u8, Tab>::from_vec_with_hasher(bx(), t);
    borrow_look!(m, &qk(q), e);
    let mut m = ScanningMap::<Box<K>, u16>::from_vec(bx());
    borrow_look!(m, &qk(q), e);
    let s = CommonSet::<Box<K>, u16, Tab>::from_vec_with_hasher(bx().into_iter().map(|x| x.0).collect(), t);
    check!(s.contains::<K>(&qk(q)) == (q < n));
    match s.get::<K>(&qk(q)) { Some(k) => { check!(q < n); check!(**k == qk(q)); } None => check!(q == n) }
    reach(3);
}
fn borrowed_str() {
    let l = [0, 1, 1, 2];
    let keys: Vec<String> = l.iter().map(|&x| sstr(x, 3)).collect();
    let b = bytes_of(&keys);
    distinct_bytes(&b);
    let q = sstr(pick(4), 3);
    let e = to_val(find_bytes(&b, q.as_bytes()));
    let mut m = LengthMap::<Box<String>, u16, u8>::from_vec(with_vals(keys.iter().map(|k| Box::new(k.clone())).collect()));
    borrow_look!(m, &q, e);
    let s = LengthSet::<Box<String>, u8>::from_vec(keys.into_iter().map(Box::new).collect());
    check!(s.contains::<String>(&q) == e.is_some());
    reach(4);
}
/// vectors hashed by length
fn vecs() {
    let keys: Vec<Vec<u8>> = [0, 2, 2, 3].iter().map(|&x| sstr(x, 2).into_bytes()).collect();
    distinct_bytes(&keys);
    let q = sstr(pick(5), 2).into_bytes();
    let e = to_val(find_bytes(&keys, &q));
    let mut m = LengthMap::<Vec<u8>, u16, u16>::from_vec(with_vals(keys.clone()));
    lookups!(m, &q, e, |_: &Vec<u8>| true);
    reach(5);
}
fn big_ints() {
    let f = |i: i64| (i - 150).wrapping_mul(0x9E37_79B9_7F4A_7C15u64 as i64);
    let keys: Vec<i64> = (0..300).map(f).collect();
    let mut m = IntegerMap::<i64, u16, u16>::from_vec(with_vals(keys.clone()));
    let i = pick(301);
    let q = if i < 300 { keys[i] } else { any(10) as i64 - 500 };
    let e = to_val(find_int(&keys, q));
    lookups!(m, &q, e, |_: &i64| true);
    if e.is_some() { reach(1) } else { reach(2) }
}
/// concrete keys of hundreds of characters
fn longs(keys: Vec<String>, at: &[usize]) {
    let b = bytes_of(&keys);
    let mut m = LengthMap::<String, u16, u8>::from_vec(with_vals(keys.clone()));
    let s = LengthSet::<String, u16>::from_vec(keys.clone());
    let q = long_query(&keys, at);
    let e = to_val(find_bytes(&b, q.as_bytes()));
    lookups!(m, &q, e, |_: &String| true);
    members!(s, &q, e.is_some());
    check!(Len::len(&m) == keys.len() && Len::len(&s) == keys.len());
    if e.is_some() { reach(1) } else { reach(2) }
}
/// every key of a map of some hundreds, and others
fn large<T: Kit<u16>>(n: usize) {
    let (kit, ks) = T::keys(n);
    let mut m = kit.build(entries_of(&ks, val));
    let i = place(n);
    *T::get_mut(&mut m, &ks[i]).unwrap() = 7;
    for (j, k) in ks.iter().enumerate() {
        let v = if i == j { 7 } else { val(j) };
        check!(T::get(&m, k) == Some(&v) && T::contains_key(&m, k));
        match T::get_key_value(&m, k) { Some((x, y)) => check!(x == k && *y == v), None => check!(false) }
    }
    check!(T::len(&m) == n);
    let q = kit.absent(&ks);
    check!(T::get(&m, &q).is_none() && !T::contains_key(&m, &q) && T::get_key_value(&m, &q).is_none() && T::get_mut(&mut m, &q).is_none());
    reach(13);
}
fn large_set<T: SKit>(n: usize) {
    let (kit, ks) = T::keys(n);
    let s = kit.build(ks.clone());
    for k in &ks { check!(T::contains(&s, k)); match T::get(&s, k) { Some(x) => check!(x == k), None => check!(false) } }
    check!(Len::len(&s) == n);
    let q = kit.absent(&ks);
    check!(!T::contains(&s, &q) && T::get(&s, &q).is_none());
    reach(14);
}
harnesses! {
fn c06_large_ck() { large::<Lck>(LARGE) }
fn c06_large_sck() { large_set::<SLck>(LARGE) }
fn c06_large_ii() { large::<Lii>(LARGE) }
fn c06_large_sii() { large_set::<SLii>(LARGE) }
fn c06_large_nl() { large::<Lnl>(LARGE) }
fn c06_large_snl() { large_set::<SLnl>(LARGE) }
fn c06_large_sk() { large::<Lsk>(LARGE) }
fn c06_large_ssk() { large_set::<SLsk>(LARGE) }
fn c06_c0() { common!(u8, 0, 64) }
fn c06_c1() { common!(u8, 1, 64) }
fn c06_c2() { common!(u16, 2, 3) }
fn c06_c3() { common!(u32, 3, 3) }
fn c06_long_a() { longs((0..5).map(|i| lkey([0, 4, 256, 300, 515][i], 0, b'b')).collect(), &[0, 3, 255, 299]) }
fn c06_long_b() { longs((0..6).map(|i| lkey([44, 300, 300, 300, 556, 1][i], i * 7, b'c')).collect(), &[0, 7, 14, 21, 299]) }
fn c06_c3w_t() { common!(usize, 3, 4) }
fn c06_c4() { common!(u64, 4, 2) }
fn c06_c8() { common_some!(u8, 8, 2, 64) }
fn c06_c9() { common_some!(u16, 9, 1, 8) }
fn c06_c40() { common_some!(u8, 40, 0, 64) }
fn c06_c255() { common_some!(u8, 255, 0, 10) }
fn c06_c300() { common_some!(u16, 300, 0, 10) }
fn c06_scan0() { scan!(0) }
fn c06_scan1() { scan!(1) }
fn c06_scan5() { scan!(5) }
fn c06_scan300() { scan!(300) }
fn c06_i8() { ints!(i8, u8, 3, 3, -4, any(8) as i8) }
fn c06_i8min() { ints!(i8, u8, 3, 3, i8::MIN, any(8) as i8) }
fn c06_u8() { ints!(u8, u8, 3, 3, 248, any(8) as u8) }
fn c06_i16() { ints!(i16, u16, 3, 3, -3, any(16) as i16) }
fn c06_u16() { ints!(u16, u8, 3, 3, 0, any(16) as u16) }
fn c06_i32() { ints!(i32, u8, 3, 3, i32::MIN, any(32) as i32) }
fn c06_u32() { ints!(u32, u32, 3, 3, 77, any(32) as u32) }
fn c06_i64() { ints!(i64, u8, 3, 2, -2, any(32) as i32 as i64) }
fn c06_u64() { ints!(u64, u8, 3, 2, u64::MAX - 3, (any(4) | !15) as u64) }
fn c06_i128() { ints!(i128, u8, 3, 2, -2, any(8) as i8 as i128) }
fn c06_i128w() { ints!(i128, u8, 2, 2, 1 << 64, ((any(2) as i128) << 64) | any(3) as i128) }
fn c06_u128() { ints!(u128, u8, 3, 2, 1 << 100, (any(1) as u128) << 100 | any(3) as u128) }
fn c06_isize() { ints!(isize, usize, 3, 2, -1, any(8) as i8 as isize) }
fn c06_usize() { ints!(usize, u8, 3, 3, 5, any(16) as usize) }
fn c06_i1() { ints!(i32, u8, 1, 32, 0, any(32) as i32) }
fn c06_i4_t() { ints!(i16, u8, 4, 3, -4, any(16) as i16) }
fn c06_si8() { int_set!(i8, u8, 4, 3, -4, any(8) as i8) }
fn c06_si32() { int_set!(i32, u16, 3, 3, i32::MAX - 7, any(32) as i32) }
fn c06_su64() { int_set!(u64, u8, 3, 3, 0, any(8)) }
fn c06_i300() { big_ints() }
fn c06_len0() { lens!(u8, &[], 2) }
fn c06_len1() { lens!(u8, &[3], 7) }
fn c06_len4() { lens!(u8, &[0, 1, 2, 5], 3) }
fn c06_len4s() { lens!(u16, &[1, 1, 2, 2], 2) }
fn c06_len6() { lens!(usize, &[1, 1, 1, 1, 2, 4], 2) }
fn c06_borrow2() { borrowed(2) }
fn c06_borrow3() { borrowed(3) }
fn c06_borrow_s() { borrowed_str() }
fn c06_vecs() { vecs() }
fn c06_c4_t() { common!(u8, 4, 3) }
fn c06_c5_t() { common!(u16, 5, 2) }
fn c06_c9_t() { common_some!(u16, 9, 2, 16) }
fn c06_c300_t() { common_some!(u32, 300, 0, 64) }
fn c06_i16_t() { ints!(i16, u16, 4, 4, -8, any(16) as i16) }
fn c06_i32_t() { ints!(i32, u8, 5, 3, i32::MIN, any(32) as i32) }
fn c06_i64_t() { ints!(i64, u8, 3, 3, -4, any(64) as i64) }
fn c06_u64_t() { ints!(u64, u8, 4, 3, u64::MAX - 7, any(64)) }
fn c06_i128_t() { ints!(i128, u8, 4, 3, -4, any(64) as i64 as i128) }
fn c06_u128_t() { ints!(u128, u16, 4, 3, 1 << 64, (any(64) as u128) << 4 | any(4) as u128) }
fn c06_len9_t() { lens!(u8, &[1, 1, 2, 2, 2, 3, 3, 6, 9], 3) }
}
