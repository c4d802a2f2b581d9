//! C07: integer-range maps and sets.
use crate::com::*;

macro_rules! members {
    ($s:expr, $q:expr, $exp:expr) => {{
        let (q, exp) = ($q, $exp);
        check!($s.contains(q) == exp);
        check!(Set::contains(&$s, q) == exp);
        match $s.get(q) { Some(k) => { check!(exp); check!(k == q); } None => check!(!exp) }
    }};
}
/// a run of n that starts anywhere, in any order (n <= 4) or rotated and reflected, any query
macro_rules! run {
    ($t:ty, $n:expr, $any:expr, $perm:expr) => {{
        let n: usize = $n;
        let b: $t = $any;
        assume(b <= <$t>::MAX - (n as $t - 1));
        let o: Vec<usize> = if $perm { (0..n).map(|_| pick(n as u64)).collect() } else { let (r, back) = (pick(n as u64), pick(2) == 1); (0..n).map(|i| { let j = (i + r) % n; if back { n - 1 - j } else { j } }).collect() };
        if $perm { distinct_ints(&o); }
        let keys: Vec<$t> = o.iter().map(|&i| b + i as $t).collect();
        let q: $t = $any;
        let e = to_val(find_int(&keys, q));
        let mut m = IntegerRangeMap::<$t, u16>::from_vec(with_vals(keys.clone()));
        lookups!(m, &q, e, |_: &$t| true);
        check!(Len::len(&m) == n);
        let s = IntegerRangeSet::<$t>::from_vec(keys);
        members!(s, &q, e.is_some());
        check!(Len::len(&s) == n);
        if e.is_some() { reach(1) } else { reach(2) }
    }};
}
macro_rules! empty {
    ($t:ty, $any:expr) => {{
        let q: $t = $any;
        let mut m = IntegerRangeMap::<$t, u16>::from_vec(vec![]);
        lookups!(m, &q, None::<u16>, |_: &$t| true);
        check!(m.iter().next().is_none());
        check!(Len::len(&m) == 0);
        let s = IntegerRangeSet::<$t>::from_vec(vec![]);
        members!(s, &q, false);
        reach(3);
    }};
}
/// n arbitrary keys: building panics unless they are a contiguous run
macro_rules! gaps {
    ($t:ty, $n:expr, $any:expr) => {{
        let n: usize = $n;
        let keys: Vec<$t> = (0..n).map(|_| $any as $t).collect();
        let (mut lo, mut hi) = (keys[0], keys[0]);
        for &k in &keys { if k < lo { lo = k; } if k > hi { hi = k; } }
        let mut ok = hi as i128 - lo as i128 == n as i128 - 1;
        for i in 0..n { for j in 0..i { ok &= keys[i] != keys[j]; } }
        if !ok { expect_panic(11); }
        let m = IntegerRangeMap::<$t, u16>::from_vec(with_vals(keys.clone()));
        check!(ok);
        check!(Len::len(&m) == n);
        for (i, k) in keys.iter().enumerate() { check!(m.get(k) == Some(&val(i))); }
        reach(4);
    }};
}
macro_rules! gaps_set {
    ($t:ty, $n:expr, $any:expr) => {{
        let n: usize = $n;
        let keys: Vec<$t> = (0..n).map(|_| $any as $t).collect();
        let (mut lo, mut hi) = (keys[0], keys[0]);
        for &k in &keys { if k < lo { lo = k; } if k > hi { hi = k; } }
        let mut ok = hi as i128 - lo as i128 == n as i128 - 1;
        for i in 0..n { for j in 0..i { ok &= keys[i] != keys[j]; } }
        if !ok { expect_panic(12); }
        let m = IntegerRangeSet::<$t>::from_vec(keys.clone());
        check!(ok);
        check!(Len::len(&m) == n);
        reach(5);
    }};
}
/// a run over the whole range of an 8-bit type
macro_rules! whole {
    ($t:ty) => {{
        let keys: Vec<$t> = (<$t>::MIN..=<$t>::MAX).collect();
        let mut m = IntegerRangeMap::<$t, u16>::from_vec(with_vals(keys.clone()));
        let i = pick(256);
        lookups!(m, &keys[i], Some(val(i)), |k: &$t| true);
        check!(Len::len(&m) == 256);
        reach(6);
    }};
}
fn any_i128() -> i128 { ((any(64) as u128) << 64 | any(64) as u128) as i128 }
/// a run of 300, with one key lifted out or doubled
fn long() {
    let mut keys: Vec<i32> = (-150..150).collect();
    let at = [0, 149, 299][pick(3)];
    match pick(4) {
        0 => { let q = any(10) as i32 - 512; let e = to_val(find_int(&keys, q)); let mut m = IntegerRangeMap::<i32, u16>::from_vec(with_vals(keys)); lookups!(m, &q, e, |_: &i32| true); reach(7); }
        1 => { keys[at] = 150 + any(3) as i32; if at == 0 { assume(keys[0] != 150); } expect_panic(13); IntegerRangeMap::<i32, u16>::from_vec(with_vals(keys)); }
        2 => { keys[at] = keys[(at + 7) % 300]; expect_panic(14); IntegerRangeMap::<i32, u16>::from_vec(with_vals(keys)); }
        _ => { let k = keys[at]; keys.push(k); expect_panic(15); IntegerRangeMap::<i32, u16>::from_vec(with_vals(keys)); }
    }
}
/// every key of a map of some hundreds, and others
fn large<T: Kit<u16>>(n: usize) {
    let (kit, ks) = T::keys(n);
    let mut m = kit.build(entries_of(&ks, val));
    let i = place(n);
    *T::get_mut(&mut m, &ks[i]).unwrap() = 7;
    for (j, k) in ks.iter().enumerate() {
        let v = if i == j { 7 } else { val(j) };
        check!(T::get(&m, k) == Some(&v) && T::contains_key(&m, k));
        match T::get_key_value(&m, k) { Some((x, y)) => check!(x == k && *y == v), None => check!(false) }
    }
    check!(T::len(&m) == n);
    let q = kit.absent(&ks);
    check!(T::get(&m, &q).is_none() && !T::contains_key(&m, &q) && T::get_key_value(&m, &q).is_none() && T::get_mut(&mut m, &q).is_none());
    reach(8);
}
fn large_set<T: SKit>(n: usize) {
    let (kit, ks) = T::keys(n);
    let s = kit.build(ks.clone());
    for k in &ks { check!(T::contains(&s, k)); match T::get(&s, k) { Some(x) => check!(x == k), None => check!(false) } }
    check!(Len::len(&s) == n);
    let q = kit.absent(&ks);
    check!(!T::contains(&s, &q) && T::get(&s, &q).is_none());
    reach(9);
}
harnesses! {
fn c07_large_ri() { large::<Lri>(LARGE) }
fn c07_large_sri() { large_set::<SLri>(LARGE) }
fn c07_i8() { run!(i8, 3, any(8) as i8, true) }
fn c07_u8() { run!(u8, 3, any(8) as u8, true) }
fn c07_i16() { run!(i16, 4, any(16) as i16, true) }
fn c07_u16() { run!(u16, 4, any(16) as u16, true) }
fn c07_i32() { run!(i32, 4, any(32) as i32, true) }
fn c07_u32() { run!(u32, 4, any(32) as u32, true) }
fn c07_i64() { run!(i64, 4, any(64) as i64, true) }
fn c07_u64() { run!(u64, 4, any(64), true) }
fn c07_i128() { run!(i128, 3, any_i128(), true) }
fn c07_u128() { run!(u128, 3, any_i128() as u128, true) }
fn c07_isize() { run!(isize, 4, any(64) as isize, true) }
fn c07_usize() { run!(usize, 3, any(64) as usize, true) }
fn c07_one() { run!(i64, 1, any(64) as i64, true) }
fn c07_two() { run!(i8, 2, any(8) as i8, true) }
fn c07_7() { run!(i16, 7, any(16) as i16, false) }
fn c07_12() { run!(u32, 12, any(32) as u32, false) }
fn c07_e0() { empty!(i8, any(8) as i8) }
fn c07_e1() { empty!(u32, any(32) as u32) }
fn c07_e2() { empty!(i64, any(64) as i64) }
fn c07_e3() { empty!(u128, any_i128() as u128) }
fn c07_g2i8() { gaps!(i8, 2, any(8)) }
fn c07_g3i8() { gaps!(i8, 3, any(8)) }
fn c07_g3u8() { gaps!(u8, 3, any(8)) }
fn c07_g3i32() { gaps!(i32, 3, any(32)) }
fn c07_g3i64() { gaps!(i64, 3, any(64)) }
fn c07_g3u32() { gaps!(u32, 3, any(32)) }
fn c07_g4u8() { gaps!(u8, 4, any(3)) }
fn c07_g4i8() { gaps!(i8, 4, any(8)) }
fn c07_g2i16s() { gaps_set!(i16, 2, any(16)) }
fn c07_g3u16s() { gaps_set!(u16, 3, any(16)) }
fn c07_all_u8() { whole!(u8) }
fn c07_all_i8() { whole!(i8) }
fn c07_long() { long() }
fn c07_5_t() { run!(i32, 5, any(32) as i32, true) }
fn c07_25_t() { run!(i64, 25, any(64) as i64, false) }
fn c07_g4i32_t() { gaps!(i32, 4, any(32)) }
fn c07_g5u8_t() { gaps!(u8, 5, any(8)) }
fn c07_g4u64_t() { gaps!(u64, 4, any(64)) }
fn c07_g4s_t() { gaps_set!(i64, 4, any(64)) }
}
