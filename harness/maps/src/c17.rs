//! C17: indexing.
use crate::com::*;

fn idx<T: Kit<u16>>(n: usize) {
    let (kit, ks) = T::keys(n);
    let mut m = kit.build(entries_of(&ks, val));
    let q = pick(n as u64 + 1);
    let k = if q < n { ks[q].clone() } else { kit.absent(&ks) };
    let write = any_bool();
    if q == n { expect_panic(11); }
    if write {
        let r = T::index_mut(&mut m, k);
        check!(q < n && *r == val(q));
        let x = any_u16();
        *r = x;
        for i in 0..n { check!(T::get(&m, &ks[i]) == Some(&if i == q { x } else { val(i) })); }
        reach(1);
    } else {
        let r = *T::index(&m, k);
        check!(q < n && r == val(q));
        reach(2);
    }
}
/// any integer
macro_rules! ints {
    ($keys:expr, $build:expr, $t:ty, $bits:expr) => {{
        let keys: Vec<$t> = $keys;
        let mut m = $build(with_vals(keys.clone()));
        let q = any($bits) as $t;
        let e = find_int(&keys, q);
        let write = any_bool();
        if e == 0 { expect_panic(12); }
        let v = if write { m[q] } else { let r = &mut m[q]; *r };
        check!(e != 0 && Some(v) == to_val(e));
        reach(3);
    }};
}
/// any string of up to 3 characters, or one of the keys
macro_rules! strs {
    ($keys:expr, $build:expr) => {{
        let keys: Vec<String> = $keys;
        let b = bytes_of(&keys);
        let mut m = $build(with_vals(keys.clone()));
        let i = pick(keys.len() as u64 + 4);
        let q = if i < keys.len() { keys[i].clone() } else { sstr(i - keys.len(), 7) };
        let e = find_bytes(&b, q.as_bytes());
        let write = any_bool();
        if e == 0 { expect_panic(13); }
        let v = if write { m[q] } else { let r = &mut m[q]; *r };
        check!(e != 0 && Some(v) == to_val(e));
        reach(4);
    }};
}
fn w(v: &[&str]) -> Vec<String> { v.iter().map(|s| s.to_string()).collect() }
/// without keys
fn none<T: Kit<u16>>(q: T::Key) {
    let (kit, ks) = T::keys(0);
    let mut m = kit.build(vec![]);
    expect_panic(14);
    if any_bool() { T::index(&m, q); } else { T::index_mut(&mut m, q); }
    check!(false);
}
const T0: Tab = Tab(&[]);
const L: Lin = Lin { w: [1, 3, 7, 31], mask: u64::MAX };
/// some hundreds of entries
fn large<T: Kit<u16>>(n: usize) {
    let (kit, ks) = T::keys(n);
    let mut m = kit.build(entries_of(&ks, val));
    let i = place(n);
    match pick(3) {
        0 => check!(*T::index(&m, ks[i].clone()) == val(i)),
        1 => { let x = any_u16(); *T::index_mut(&mut m, ks[i].clone()) = x; for j in 0..n { check!(T::get(&m, &ks[j]) == Some(&if i == j { x } else { val(j) })); } }
        _ => { let q = kit.absent(&ks); expect_panic(15); if any_bool() { T::index(&m, q); } else { T::index_mut(&mut m, q); } check!(false); }
    }
    reach(5);
}
harnesses! {
fn c17_large_fk() { large::<Lfk>(LARGE) }
fn c17_large_fr() { large::<Lfr>(LARGE) }
fn c17_large_fi() { large::<Lfi>(LARGE) }
fn c17_large_fn() { large::<Lfn>(LARGE) }
fn c17_large_fl() { large::<Lfl>(LARGE) }
fn c17_large_ft() { large::<Lft>(LARGE) }
fn c17_large_ck() { large::<Lck>(LARGE) }
fn c17_large_ii() { large::<Lii>(LARGE) }
fn c17_large_ri() { large::<Lri>(LARGE) }
fn c17_large_nl() { large::<Lnl>(LARGE) }
fn c17_large_ll() { large::<Lll>(LARGE) }
fn c17_large_rl() { large::<Lrl>(LARGE) }
fn c17_large_sk() { large::<Lsk>(LARGE) }
fn c17_fk1() { idx::<Fk>(1) }
fn c17_fk3() { idx::<Fk>(3) }
fn c17_fk4() { idx::<Fk>(4) }
fn c17_fr() { idx::<Fr>(4) }
fn c17_fi() { idx::<Fi>(4) }
fn c17_fn() { idx::<Fq>(4) }
fn c17_fl() { idx::<Fl>(4) }
fn c17_ft() { idx::<Ft>(5) }
fn c17_ck() { idx::<Ck>(3) }
fn c17_ii() { idx::<Ii>(4) }
fn c17_ri() { idx::<Ri>(3) }
fn c17_nl() { idx::<Nl>(4) }
fn c17_ll() { idx::<Ll>(4) }
fn c17_rl() { idx::<Rl>(5) }
fn c17_sk() { idx::<Sk>(3) }
fn c17_e1() { none::<Fk>(qk(0)) }
fn c17_e2() { none::<Fr>(any_u32()) }
fn c17_e3() { none::<Fq>(sstr(pick(3), 7)) }
fn c17_e4() { none::<Ri>(any_u16() as i16) }
fn c17_e5() { none::<Ii>(any_u32() as i32) }
fn c17_e6() { none::<Nl>(sstr(pick(3), 7)) }
fn c17_q1() { ints!(vec![3, 4, 5, 6, 7], |v| FrozenMap::<u32, u16, Tab>::from_vec_with_hasher(v, T0), u32, 32) }
fn c17_q2() { ints!(vec![3, 9, 5, 60, 7], |v| FrozenMap::<u32, u16, Tab>::from_vec_with_hasher(v, T0), u32, 10) }
fn c17_q3() { ints!(vec![3, 9], |v| FrozenMap::<u32, u16, Tab>::from_vec_with_hasher(v, T0), u32, 32) }
fn c17_q4() { ints!(vec![-3, -1, 0, -2], |v| IntegerRangeMap::<i8, u16>::from_vec(v), i8, 8) }
fn c17_q5() { ints!(vec![-3i64, 9, 0, 70], |v| IntegerMap::<i64, u16, u8>::from_vec(v), i64, 10) }
fn c17_s1() { strs!(w(&["aa", "ab", "b", ""]), |v| FrozenMap::from_vec_with_hasher(v, L)) }
fn c17_s2() { strs!(w(&["kax", "kbx", "kcx", "kdy"]), |v| FrozenMap::from_vec_with_hasher(v, L)) }
fn c17_s3() { strs!(w(&["a", "bb", "ccc"]), |v| LengthMap::<String, u16, u8>::from_vec(v)) }
fn c17_s4() { strs!(w(&["kax", "kbx", "k"]), |v| LeftSliceMap::<String, u16, u8, Lin>::from_vec_with_hasher(v, 1..2, L)) }
fn c17_s5() { strs!(w(&["kax", "kbx", "k"]), |v| RightSliceMap::<String, u16, u8, Lin>::from_vec_with_hasher(v, 1..2, L)) }
fn c17_fk6_t() { idx::<Fk>(5) }
fn c17_fi6_t() { idx::<Fi>(6) }
fn c17_ck5_t() { idx::<Ck>(5) }
fn c17_ll6_t() { idx::<Ll>(6) }
fn c17_q2_t() { ints!(vec![3, 9, 5, 60, 7], |v| FrozenMap::<u32, u16, Tab>::from_vec_with_hasher(v, T0), u32, 32) }
fn c17_q5_t() { ints!(vec![-3i64, 9, 0, 70], |v| IntegerMap::<i64, u16, u8>::from_vec(v), i64, 64) }
}
