//! C10: iterating over maps.
use crate::com::*;

fn it<T: Kit<u16>>(n: usize) {
    let (kit, ks) = T::keys(n);
    let m = kit.build(entries_of(&ks, val));
    let mut order = Vec::with_capacity(n);
    let mut seen = vec![false; n];
    for (k, v) in T::iter_ref(&m) {
        let i = (*v as usize).wrapping_sub(100);
        check!(i < n);
        check!(!seen[i]);
        check!(*k == ks[i]);
        seen[i] = true;
        order.push(i);
    }
    check!(order.len() == n);
    check!(T::len(&m) == n);
    let way = match pick(4) {
        0 => { let w = walk(T::iter(&m), &order, |x, i| *x.0 == ks[i] && *x.1 == val(i)); reach(7); w }
        1 => { let w = walk(T::iter_ref(&m), &order, |x, i| *x.0 == ks[i] && *x.1 == val(i)); reach(8); w }
        2 => { let w = walk(T::keys_of(&m), &order, |x, i| *x == ks[i]); reach(9); w }
        _ => { let w = walk(T::values_of(&m), &order, |x, i| *x == val(i)); reach(10); w }
    };
    match way { 0 => reach(1), 1 => reach(2), 2 => reach(3), 3 => reach(4), 4 => reach(5), _ => reach(6) }
}
/// sizes around the limits of the index types
fn big<T: Kit<u16>>(n: usize, build: impl Fn() -> (T::Map, Vec<T::Key>)) {
    let (m, ks) = build();
    let mut seen = vec![false; n];
    let (mut kk, mut vv) = (T::keys_of(&m), T::values_of(&m));
    for (k, v) in T::iter(&m) {
        let i = (*v as usize).wrapping_sub(100);
        check!(i < n);
        check!(!seen[i]);
        check!(*k == ks[i]);
        seen[i] = true;
        check!(kk.next() == Some(k));
        check!(vv.next() == Some(v));
    }
    for s in &seen { check!(*s); }
    check!(kk.next().is_none() && vv.next().is_none());
    let p = below(n as u64 + 1) as usize;
    let p = conc(p as u64) as usize;
    let mut i = T::iter(&m);
    for _ in 0..p { i.next(); }
    check!(i.len() == n - p);
    check!(i.count() == n - p);
    reach(11);
}
fn big_k(n: usize) { big::<Fk>(n, || { let t = tab((0..n).map(|i| (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 17).collect()); (FrozenMap::from_vec_with_hasher(kv(n), t), ks(n)) }) }
fn big_i(n: usize) { big::<Fi>(n, || { let k: Vec<u32> = (0..n as u32).map(|i| i * 3 + (i & 1)).collect(); (FrozenMap::from_vec_with_hasher(with_vals(k.clone()), Tab(&[])), k) }) }
harnesses! {
fn c10_large_fk() { it::<Lfk>(LARGE) }
fn c10_large_fr() { it::<Lfr>(LARGE) }
fn c10_large_fi() { it::<Lfi>(LARGE) }
fn c10_large_fn() { it::<Lfn>(LARGE) }
fn c10_large_fl() { it::<Lfl>(LARGE) }
fn c10_large_ft() { it::<Lft>(LARGE) }
fn c10_large_ck() { it::<Lck>(LARGE) }
fn c10_large_ii() { it::<Lii>(LARGE) }
fn c10_large_ri() { it::<Lri>(LARGE) }
fn c10_large_nl() { it::<Lnl>(LARGE) }
fn c10_large_ll() { it::<Lll>(LARGE) }
fn c10_large_rl() { it::<Lrl>(LARGE) }
fn c10_large_sk() { it::<Lsk>(LARGE) }
fn c10_fk0() { it::<Fk>(0) }
fn c10_fk1() { it::<Fk>(1) }
fn c10_fk3() { it::<Fk>(3) }
fn c10_fk4() { it::<Fk>(4) }
fn c10_fr() { it::<Fr>(4) }
fn c10_fi() { it::<Fi>(4) }
fn c10_fn() { it::<Fq>(4) }
fn c10_fl() { it::<Fl>(4) }
fn c10_ft() { it::<Ft>(5) }
fn c10_ck() { it::<Ck>(3) }
fn c10_ii() { it::<Ii>(4) }
fn c10_ri() { it::<Ri>(3) }
fn c10_nl() { it::<Nl>(4) }
fn c10_ll() { it::<Ll>(4) }
fn c10_rl() { it::<Rl>(5) }
fn c10_sk() { it::<Sk>(3) }
fn c10_e1() { it::<Fr>(0) }
fn c10_e2() { it::<Fq>(0) }
fn c10_e3() { it::<Ck>(0) }
fn c10_e4() { it::<Ii>(0) }
fn c10_e5() { it::<Nl>(0) }
fn c10_e6() { it::<Sk>(0) }
fn c10_255() { big_k(255) }
fn c10_256() { big_k(256) }
fn c10_i300() { big_i(300) }
fn c10_fk5_t() { it::<Fk>(5) }
fn c10_fr9_t() { it::<Fr>(9) }
fn c10_fi8_t() { it::<Fi>(8) }
fn c10_fl8_t() { it::<Fl>(8) }
fn c10_ck5_t() { it::<Ck>(5) }
fn c10_sk6_t() { it::<Sk>(6) }
fn c10_1000_t() { big_k(1000) }
fn c10_i1000_t() { big_i(1000) }
}
