//! C11: iterating over sets.
use crate::com::*;

fn ways(w: usize) { match w { 0 => reach(1), 1 => reach(2), 2 => reach(3), 3 => reach(4), 4 => reach(5), _ => reach(6) } }
/// the order in which the values come, each of which must be one of ks and come once
fn order<T: PartialEq>(it: impl Iterator<Item = T>, ks: &[T]) -> Vec<usize> {
    let mut order = Vec::with_capacity(ks.len());
    for k in it {
        let mut j = 0;
        let mut hit = ks.len();
        while j < ks.len() { if k == ks[j] { hit = j; break; } j += 1; }
        check!(hit < ks.len());
        check!(!order.contains(&hit));
        order.push(hit);
    }
    check!(order.len() == ks.len());
    order
}
fn it<T: SKit>(n: usize) {
    let (kit, ks) = T::keys(n);
    let s = kit.build(ks.clone());
    let o = order(T::iter_ref(&s).cloned(), &ks);
    check!(Len::len(&s) == n);
    check!(s.is_empty() == (n == 0));
    let w = match pick(3) {
        0 => { let w = walk(T::iter(&s), &o, |x, i| *x == ks[i]); reach(7); w }
        1 => { let w = walk(T::iter_ref(&s), &o, |x, i| *x == ks[i]); reach(8); w }
        _ => {
            // through the trait, whose iterator promises less
            let p = if n < 100 { pick(n as u64 + 1) } else { [0, 255, 256, n][pick(4)] };
            let mut i = Set::iter(&s);
            for j in 0..p { match i.next() { Some(x) => check!(*x == ks[o[j]]), None => check!(false) } }
            check!(i.size_hint() == (n - p, Some(n - p)));
            for j in p..n { match i.next() { Some(x) => check!(*x == ks[o[j]]), None => check!(false) } }
            check!(i.next().is_none() && i.next().is_none());
            reach(9);
            0
        }
    };
    ways(w);
}
/// by value
fn own<T: SKit>(n: usize)
where T::Set: IntoIterator<Item = T::Key, IntoIter = ss::IntoIter<T::Key>>
{
    let (kit, ks) = T::keys(n);
    let s = kit.build(ks.clone());
    let o = order(T::iter_ref(&s).cloned(), &ks);
    let mut j = 0;
    let w = match pick(2) {
        0 => { let w = walk(s.into_iter(), &o, |x, i| x == ks[i]); reach(10); w }
        _ => { for x in s { check!(j < n && x == ks[o[j]]); j += 1; } check!(j == n); reach(11); 0 }
    };
    ways(w);
}
/// sizes around the limits of the index types
fn big(n: usize, f: fn(usize) -> u32) {
    let ks: Vec<u32> = (0..n).map(f).collect();
    let s = FrozenSet::<u32, Tab>::from_vec_with_hasher(ks.clone(), Tab(&[]));
    let t = IntegerSet::<u32, u16>::from_vec(ks.clone());
    let mut seen = vec![false; n];
    let mut m = 0;
    for k in s.iter() { let i = (*k as usize) / 3; check!(i < n && ks[i] == *k && !seen[i]); seen[i] = true; m += 1; }
    check!(m == n);
    let p = conc(below(n as u64 + 1)) as usize;
    let (mut i, mut j) = (s.iter(), t.into_iter());
    for _ in 0..p { i.next(); j.next(); }
    check!(i.len() == n - p && j.len() == n - p);
    check!(i.count() == n - p && j.count() == n - p);
    reach(12);
}
harnesses! {
fn c11_large_fk() { it::<SLfk>(LARGE) }
fn c11_large_fr() { it::<SLfr>(LARGE) }
fn c11_large_fi() { it::<SLfi>(LARGE) }
fn c11_large_fn() { it::<SLfn>(LARGE) }
fn c11_large_fl() { it::<SLfl>(LARGE) }
fn c11_large_ft() { it::<SLft>(LARGE) }
fn c11_large_ck() { it::<SLck>(LARGE) }
fn c11_large_ii() { it::<SLii>(LARGE) }
fn c11_large_ri() { it::<SLri>(LARGE) }
fn c11_large_nl() { it::<SLnl>(LARGE) }
fn c11_large_ll() { it::<SLll>(LARGE) }
fn c11_large_rl() { it::<SLrl>(LARGE) }
fn c11_large_sk() { it::<SLsk>(LARGE) }
fn c11_large_ck_o() { own::<SLck>(LARGE) }
fn c11_large_ii_o() { own::<SLii>(LARGE) }
fn c11_large_ri_o() { own::<SLri>(LARGE) }
fn c11_large_nl_o() { own::<SLnl>(LARGE) }
fn c11_large_ll_o() { own::<SLll>(LARGE) }
fn c11_large_rl_o() { own::<SLrl>(LARGE) }
fn c11_large_sk_o() { own::<SLsk>(LARGE) }
fn c11_fk0() { it::<SFk>(0) }
fn c11_fk1() { it::<SFk>(1) }
fn c11_fk3() { it::<SFk>(3) }
fn c11_fk4() { it::<SFk>(4) }
fn c11_fr() { it::<SFr>(4) }
fn c11_fi() { it::<SFi>(4) }
fn c11_fn() { it::<SFn>(4) }
fn c11_fl() { it::<SFl>(4) }
fn c11_ft() { it::<SFt>(5) }
fn c11_ck() { it::<SCk>(3) }
fn c11_ii() { it::<SIi>(4) }
fn c11_ri() { it::<SRi>(3) }
fn c11_nl() { it::<SNl>(4) }
fn c11_ll() { it::<SLl>(4) }
fn c11_rl() { it::<SRl>(5) }
fn c11_sk() { it::<SSk>(3) }
fn c11_ck_o() { own::<SCk>(3) }
fn c11_ii_o() { own::<SIi>(4) }
fn c11_ri_o() { own::<SRi>(3) }
fn c11_nl_o() { own::<SNl>(4) }
fn c11_ll_o() { own::<SLl>(4) }
fn c11_rl_o() { own::<SRl>(5) }
fn c11_sk_o() { own::<SSk>(3) }
fn c11_e1() { it::<SFr>(0) }
fn c11_e2() { it::<SFn>(0) }
fn c11_e3() { own::<SCk>(0) }
fn c11_e4() { own::<SIi>(0) }
fn c11_e5() { own::<SSk>(0) }
fn c11_255() { big(255, |i| i as u32 * 3 + 1) }
fn c11_256() { big(256, |i| i as u32 * 3 + (i & 1) as u32) }
fn c11_300_t() { big(300, |i| i as u32 * 3 + (i & 1) as u32) }
fn c11_fk5_t() { it::<SFk>(5) }
fn c11_fr9_t() { it::<SFr>(9) }
fn c11_fi8_t() { it::<SFi>(8) }
fn c11_fl8_t() { it::<SFl>(8) }
fn c11_ck5_t() { it::<SCk>(4) }
fn c11_sk6_t() { own::<SSk>(6) }
fn c11_ck4o_t() { own::<SCk>(4) }
}
