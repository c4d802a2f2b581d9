//! C14: equality of maps.
use crate::com::*;

/// a value that may differ from itself
#[derive(Clone, Debug)]
pub struct W(pub u8);
impl PartialEq for W {
    fn eq(&self, o: &W) -> bool { self.0 == o.0 && self.0 != 7 }
}
fn order<T: Clone>(v: &[T]) -> Vec<T> {
    let mut v = v.to_vec();
    match pick(3) { 0 => {} 1 => v.reverse(), _ => { let k = 1 % v.len().max(1); v.rotate_left(k) } }
    v
}
/// one map against another with the same keys, one key replaced, one missing or one more; all values arbitrary.
/// `ends`: keys are taken away and added at the ends only, so that they stay a run
fn eqm<T: Kit<u16>>(n: usize, ends: bool) {
    let (kit, ks) = T::keys(n);
    let va: Vec<u16> = (0..n).map(|_| any(2) as u16).collect();
    let mut vb: Vec<u16> = (0..n).map(|_| any(2) as u16).collect();
    let a: Vec<(T::Key, u16)> = ks.iter().cloned().zip(va.iter().copied()).collect();
    let mut same = true;
    let case = pick(if n > 0 { 4 } else { 2 });
    let mut kb = ks.clone();
    match case {
        0 => for i in 0..n { same &= va[i] == vb[i]; },
        1 => { same = false; kb.push(kit.absent(&ks)); vb.push(any(2) as u16); }
        2 => { same = false; let i = if ends { n - 1 } else { pick(n as u64) }; kb.remove(i); vb.remove(i); }
        _ => { same = false; let i = if ends { 0 } else { pick(n as u64) }; kb[i] = kit.absent(&ks); }
    }
    let b: Vec<(T::Key, u16)> = kb.into_iter().zip(vb).collect();
    let ma = kit.build(a);
    let mb = if any_bool() { kit.build(order(&b)) } else { kit.alt().build(b) };
    match pick(4) {
        0 => check!((ma == mb) == same),
        1 => check!((mb == ma) == same),
        2 => check!((ma != mb) == !same),
        _ => check!((mb != ma) == !same),
    }
    if case == 0 { if same { reach(1) } else { reach(2) } } else { reach(3) }
}
/// values decide by their own equality, even against the same map
fn odd<T: Kit<W>>(n: usize) {
    let (kit, ks) = T::keys(n);
    let v: Vec<u8> = (0..n).map(|_| any(3) as u8).collect();
    let m = kit.build(ks.iter().cloned().zip(v.iter().map(|x| W(*x))).collect());
    let mut odd = false;
    for x in &v { odd |= *x == 7; }
    let c = m.clone();
    check!((m == m) == !odd);
    check!((m == c) == !odd);
    check!((c == m) == !odd);
    if odd { reach(4) } else { reach(5) }
}
/// large maps that differ in one entry, or not
fn big(n: usize, f: fn(usize) -> u32) {
    let a: Vec<(u32, u16)> = (0..n).map(|i| (f(i), i as u16)).collect();
    let mut b = a.clone();
    b.reverse();
    let at = [0, n / 2, n - 1][pick(3)];
    let kind = pick(4);
    let mut same = false;
    match kind {
        0 => { let v = any(12) as u16; same = v == b[at].1; b[at].1 = v; }
        1 => { b.remove(at); }
        2 => b[at].0 = [2, 65, 5000][pick(3)],
        _ => same = true,
    }
    let p: FrozenMap<u32, u16, Tab> = FrozenMap::from_vec_with_hasher(a, Tab(&[]));
    let q = FrozenMap::from_vec_with_hasher(b, Tab(&[]));
    check!((p == q) == same);
    check!((q == p) == same);
    reach(6);
}
/// some hundreds of entries in another order, with one value or key different, or one missing, or none
fn large<T: Kit<u16>>(n: usize, ends: bool) {
    let (kit, ks) = T::keys(n);
    let a = entries_of(&ks, val);
    let mut b = a.clone();
    b.reverse();
    let at = if n < 256 { place(n) } else { [0, 255, n - 1][pick(3)] };
    let mut same = false;
    match pick(if ends { 2 } else { 4 }) {
        0 => { let v = val(at) ^ any(2) as u16; b[n - 1 - at].1 = v; same = v == val(at); }
        1 => same = true,
        2 => { b.remove(n - 1 - at); }
        _ => b[n - 1 - at].0 = kit.absent(&ks),
    }
    let (p, q) = (kit.build(a), kit.build(b));
    check!((p == q) == same && (q == p) == same && (p != q) != same);
    reach(7);
}
/// keys that share their hash codes and lengths, in any order
fn shuffled<T: Kit<u16>>(n: usize) {
    let (kit, ks) = T::keys(n);
    let a = entries_of(&ks, val);
    let mut b = a.clone();
    for i in (1..n).rev() { let j = pick(i as u64 + 1); b.swap(i, j); }
    let i = pick(n as u64);
    let v = any(1) as u16;
    b[i].1 ^= v;
    let (p, q) = (kit.build(a), kit.build(b));
    check!((p == q) == (v == 0) && (q == p) == (v == 0));
    reach(8);
}
harnesses! {
fn c14_shuffled_nl() { shuffled::<Nl>(3) }
fn c14_shuffled_sk() { shuffled::<Sk>(3) }
fn c14_shuffled_ll() { shuffled::<Ll>(3) }
fn c14_shuffled_rl() { shuffled::<Rl>(3) }
fn c14_shuffled_fl() { shuffled::<Fl>(4) }
fn c14_shuffled_ii() { shuffled::<Ii>(3) }
fn c14_shuffled_ck() { shuffled::<Ck>(2) }
fn c14_shuffled_nl4() { shuffled::<Nl>(4) }
fn c14_shuffled_fk() { shuffled::<Fk>(3) }
fn c14_shuffled_ft5_t() { shuffled::<Ft>(5) }
fn c14_shuffled_ft() { shuffled::<Ft>(4) }
fn c14_large_fk() { large::<Lfk>(LARGE, false) }
fn c14_large_fr() { large::<Lfr>(LARGE, true) }
fn c14_large_fi() { large::<Lfi>(LARGE, false) }
fn c14_large_fn() { large::<Lfn>(LARGE, false) }
fn c14_large_fl() { large::<Lfl>(LARGE, false) }
fn c14_large_ft() { large::<Lft>(LARGE, false) }
fn c14_large_ck() { large::<Lck>(LARGE, false) }
fn c14_large_ii() { large::<Lii>(LARGE, false) }
fn c14_large_ri() { large::<Lri>(LARGE, true) }
fn c14_large_nl() { large::<Lnl>(LARGE, false) }
fn c14_large_ll() { large::<Lll>(LARGE, false) }
fn c14_large_rl() { large::<Lrl>(LARGE, false) }
fn c14_large_sk() { large::<Lsk>(LARGE, false) }
fn c14_fk0() { eqm::<Fk>(0, false) }
fn c14_fk1() { eqm::<Fk>(1, false) }
fn c14_fk3() { eqm::<Fk>(3, false) }
fn c14_fr() { eqm::<Fr>(4, true) }
fn c14_frx() { eqm::<Fr>(3, true) }
fn c14_fi() { eqm::<Fi>(4, false) }
fn c14_fn() { eqm::<Fq>(4, true) }
fn c14_ck() { eqm::<Ck>(2, false) }
fn c14_ii() { eqm::<Ii>(3, false) }
fn c14_ri() { eqm::<Ri>(3, true) }
fn c14_nl() { eqm::<Nl>(3, true) }
fn c14_ll() { eqm::<Ll>(3, false) }
fn c14_rl() { eqm::<Rl>(3, false) }
fn c14_sk() { eqm::<Sk>(3, false) }
fn c14_odd_fk() { odd::<Fk>(3) }
fn c14_odd_fr() { odd::<Fr>(4) }
fn c14_odd_ck() { odd::<Ck>(2) }
fn c14_odd_ii() { odd::<Ii>(3) }
fn c14_odd_ri() { odd::<Ri>(3) }
fn c14_odd_nl() { odd::<Nl>(3) }
fn c14_odd_ll() { odd::<Ll>(3) }
fn c14_odd_rl() { odd::<Rl>(3) }
fn c14_odd_sk() { odd::<Sk>(3) }
fn c14_big() { big(40, |i| i as u32 * 3 + 1) }
fn c14_big300() { big(300, |i| i as u32 * 3 + 1) }
fn c14_fk4_t() { eqm::<Fk>(4, false) }
fn c14_fl_t() { eqm::<Fl>(4, false) }
fn c14_ft_t() { eqm::<Ft>(5, false) }
fn c14_ck3_t() { eqm::<Ck>(3, false) }
fn c14_nl4_t() { eqm::<Nl>(4, true) }
fn c14_ll4_t() { eqm::<Ll>(4, false) }
fn c14_rl5_t() { eqm::<Rl>(5, false) }
fn c14_sk4_t() { eqm::<Sk>(4, false) }
}
