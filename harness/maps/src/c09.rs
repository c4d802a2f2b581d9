//! C09: get_many_mut.
use crate::com::*;

/// any N queries, each one of the n keys or a missing one
fn many<T: Kit<u16>, const N: usize>(n: usize) {
    let (kit, ks) = T::keys(n);
    let mut m = kit.build(entries_of(&ks, val));
    let mut pool = ks.clone();
    pool.push(kit.absent(&ks));
    let q: [usize; N] = std::array::from_fn(|_| pick(n as u64 + 1));
    let refs: [&T::Key; N] = std::array::from_fn(|i| &pool[q[i]]);
    let mut ok = true;
    for i in 0..N {
        ok &= q[i] < n;
        for j in 0..i { ok &= q[i] != q[j]; }
    }
    match T::many(&mut m, refs) {
        None => { check!(!ok); reach(1); }
        Some(r) => {
            check!(ok);
            for i in 0..N { check!(*r[i] == val(q[i])); }
            for i in 0..N { for j in 0..i { check!(r[i] as *const u16 != r[j] as *const u16); } }
            for (i, x) in r.into_iter().enumerate() { *x = 7 + i as u16; }
            reach(2);
        }
    }
    // nothing but the values written has changed
    check!(T::len(&m) == n);
    for i in 0..n {
        let mut e = val(i);
        if ok { for j in 0..N { if q[j] == i { e = 7 + j as u16; } } }
        observe(e as u64);
        check!(T::get(&m, &ks[i]) == Some(&e));
    }
}
/// values without size
fn zst<T: Kit<()>>(n: usize) {
    let (kit, ks) = T::keys(n);
    let mut m = kit.build(entries_of(&ks, |_| ()));
    let mut pool = ks.clone();
    pool.push(kit.absent(&ks));
    let q: [usize; 2] = std::array::from_fn(|_| pick(n as u64 + 1));
    let r = T::many(&mut m, [&pool[q[0]], &pool[q[1]]]).is_some();
    check!(r == (q[0] < n && q[1] < n && q[0] != q[1]));
    if r { reach(1) } else { reach(2) }
}
/// some hundreds of entries, queries around the limits of the index types
fn large<T: Kit<u16>>(n: usize) {
    let (kit, ks) = T::keys(n);
    let mut m = kit.build(entries_of(&ks, val));
    let mut pool = ks.clone();
    pool.push(kit.absent(&ks));
    let q: [usize; 2] = std::array::from_fn(|_| if any_bool() { place(n) } else { [2, n][pick(2)] });
    let ok = q[0] != q[1] && q[0] < n && q[1] < n;
    match T::many(&mut m, [&pool[q[0]], &pool[q[1]]]) {
        None => check!(!ok),
        Some([a, b]) => { check!(ok && *a == val(q[0]) && *b == val(q[1])); *a = 7; *b = 8; }
    }
    for i in 0..n { check!(T::get(&m, &ks[i]) == Some(&if ok && i == q[0] { 7 } else if ok && i == q[1] { 8 } else { val(i) })); }
    reach(3);
}
harnesses! {
fn c09_large_fk() { large::<Lfk>(LARGE) }
fn c09_large_fr() { large::<Lfr>(LARGE) }
fn c09_large_fi() { large::<Lfi>(LARGE) }
fn c09_large_fn() { large::<Lfn>(LARGE) }
fn c09_large_fl() { large::<Lfl>(LARGE) }
fn c09_large_ft() { large::<Lft>(LARGE) }
fn c09_large_ck() { large::<Lck>(LARGE) }
fn c09_large_ii() { large::<Lii>(LARGE) }
fn c09_large_ri() { large::<Lri>(LARGE) }
fn c09_large_nl() { large::<Lnl>(LARGE) }
fn c09_large_ll() { large::<Lll>(LARGE) }
fn c09_large_rl() { large::<Lrl>(LARGE) }
fn c09_large_sk() { large::<Lsk>(LARGE) }
fn c09_fk3() { many::<Fk, 2>(3) }
fn c09_fk4() { many::<Fk, 2>(4) }
fn c09_fk3x3() { many::<Fk, 3>(3) }
fn c09_fk0() { many::<Fk, 0>(2) }
fn c09_fr() { many::<Fr, 2>(4) }
fn c09_fr3() { many::<Fr, 3>(4) }
fn c09_fi() { many::<Fi, 2>(4) }
fn c09_fn() { many::<Fq, 2>(4) }
fn c09_fl() { many::<Fl, 2>(4) }
fn c09_ft() { many::<Ft, 2>(5) }
fn c09_ck() { many::<Ck, 2>(3) }
fn c09_ii() { many::<Ii, 2>(4) }
fn c09_ri() { many::<Ri, 3>(3) }
fn c09_nl() { many::<Nl, 2>(4) }
fn c09_ll() { many::<Ll, 2>(4) }
fn c09_rl() { many::<Rl, 2>(5) }
fn c09_sk() { many::<Sk, 3>(3) }
fn c09_fn3() { many::<Fq, 3>(4) }
fn c09_fi3() { many::<Fi, 3>(4) }
fn c09_fl3() { many::<Fl, 3>(4) }
fn c09_ft3() { many::<Ft, 3>(5) }
fn c09_ii3() { many::<Ii, 3>(4) }
fn c09_nl3() { many::<Nl, 3>(4) }
fn c09_ll3() { many::<Ll, 3>(4) }
fn c09_rl3() { many::<Rl, 3>(5) }
fn c09_ri4() { many::<Ri, 4>(4) }
fn c09_nl1() { many::<Nl, 1>(4) }
fn c09_ll0() { many::<Ll, 0>(4) }
fn c09_fk_z() { zst::<Fk>(3) }
fn c09_fi_z() { zst::<Fi>(4) }
fn c09_fr_z() { zst::<Fr>(3) }
fn c09_fn_z() { zst::<Fq>(4) }
fn c09_fl_z() { zst::<Fl>(4) }
fn c09_ft_z() { zst::<Ft>(5) }
fn c09_ck_z() { zst::<Ck>(3) }
fn c09_sk_z() { zst::<Sk>(3) }
fn c09_fi3_t() { many::<Fi, 3>(5) }
fn c09_fk4x3_t() { many::<Fk, 3>(4) }
fn c09_fl3_t() { many::<Fl, 3>(5) }
fn c09_ck3_t() { many::<Ck, 3>(4) }
fn c09_sk4_t() { many::<Sk, 4>(4) }
fn c09_nl3_t() { many::<Nl, 3>(5) }
}
