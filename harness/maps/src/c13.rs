//! C13: relations between sets.
use crate::com::*;

fn rel<T: 'static, A: Set<T>, B: Set<T>>(am: u64, bm: u64, a: &A, b: &B) {
    match pick(3) {
        0 => { check!(a.is_subset(b) == (am & !bm == 0)); if am & !bm == 0 { reach(1) } else { reach(2) } }
        1 => { check!(a.is_superset(b) == (bm & !am == 0)); if bm & !am == 0 { reach(3) } else { reach(4) } }
        _ => { check!(a.is_disjoint(b) == (am & bm == 0)); if am & bm == 0 { reach(5) } else { reach(6) } }
    }
}
/// relations only
macro_rules! pair_rel {
    ($u:expr, $ma:expr, $mb:expr, $fa:expr, $fb:expr) => {{
        let u = $u;
        let (am, bm) = ($ma(u.len()), $mb(u.len()));
        let (a, b) = ($fa(sub(&u, am, 0)), $fb(sub(&u, bm, 1)));
        rel(am, bm, &a, &b);
    }};
}
/// relations and equality
macro_rules! pair {
    ($u:expr, $ma:expr, $mb:expr, $fa:expr, $fb:expr) => {{
        let u = $u;
        let (am, bm) = ($ma(u.len()), $mb(u.len()));
        let (a, b) = ($fa(sub(&u, am, 0)), $fb(sub(&u, bm, 1)));
        match pick(2) {
            0 => rel(am, bm, &a, &b),
            _ => { check!((a == b) == (am == bm)); check!((a != b) == (am != bm)); if am == bm { reach(7) } else { reach(8) } }
        }
    }};
}
/// and symmetric equality
macro_rules! pair2 {
    ($u:expr, $ma:expr, $mb:expr, $fa:expr, $fb:expr) => {{
        let u = $u;
        let (am, bm) = ($ma(u.len()), $mb(u.len()));
        let (a, b) = ($fa(sub(&u, am, 0)), $fb(sub(&u, bm, 1)));
        match pick(3) {
            0 => rel(am, bm, &a, &b),
            1 => { check!((a == b) == (am == bm)); check!((a != b) == (am != bm)); if am == bm { reach(7) } else { reach(8) } }
            _ => { check!((b == a) == (am == bm)); check!((b != a) == (am != bm)); reach(9) }
        }
    }};
}
/// two sets of arbitrary integers, ascending
macro_rules! free {
    ($t:ty, $na:expr, $nb:expr, $bits:expr, $off:expr, $fa:expr, $fb:expr) => {{
        let a: Vec<$t> = (0..$na).map(|_| any($bits) as $t + $off).collect();
        let b: Vec<$t> = (0..$nb).map(|_| any($bits) as $t + $off).collect();
        let mut ok = true;
        for v in [&a, &b] { for i in 1..v.len() { ok &= v[i - 1] < v[i]; } }
        assume(ok);
        let mut u = a.clone();
        let mut bm = 0u64;
        for x in &b { let j = pos(&u, x); if j == u.len() { u.push(*x); } bm |= 1 << j; }
        let am = (1u64 << $na) - 1;
        let (a, b) = ($fa(a), $fb(b));
        match pick(2) { 0 => rel(am, bm, &a, &b), _ => check!((a == b) == (am == bm)) }
        reach(10);
    }};
}
fn t1(n: usize) -> Tab { tab(codes(n, 1)) }
fn t0() -> Tab { tab(vec![3, 0, 6, 3, 5, 1, 2, 3]) }
fn words(n: usize) -> Vec<String> { (0..n).map(|i| format!("k{}c{}", i, if i == n - 1 { "x" } else { "y" })).collect() }
fn words_l(n: usize) -> Vec<String> { (0..n).map(|i| "abcdefg"[..i].to_string()).collect() }
fn run_u32(n: usize) -> Vec<u32> { let b = [0, 5, u32::MAX - 4][pick(3)]; (0..n as u32).map(|i| b + i).collect() }
fn run_i16(n: usize) -> Vec<i16> { let b = [i16::MIN, -2, i16::MAX - 5][pick(3)]; (0..n as i16).map(|i| b + i).collect() }
macro_rules! fs { ($t:expr) => {{ let t = $t; move |v| FrozenSet::from_vec_with_hasher(v, t) }}; }
macro_rules! cs { ($t:expr) => {{ let t = $t; move |v| CommonSet::<K, u8, Tab>::from_vec_with_hasher(v, t) }}; }
macro_rules! ls { () => { |v: Vec<String>| LeftSliceSet::<String, u8, Tab>::from_vec_with_hasher(v, 1..2, t0()) }; }
macro_rules! rs { () => { |v: Vec<String>| RightSliceSet::<String, u8, Tab>::from_vec_with_hasher(v, 1..2, t0()) }; }
/// large sets that differ in one value, or not
fn big(n: usize, f: fn(usize) -> u32, bits: u32) {
    let a: Vec<u32> = (0..n).map(f).collect();
    let mut b = a.clone();
    b.reverse();
    let at = [0, n / 2, n - 1][pick(3)];
    let x = if bits > 0 { any(bits) as u32 } else { [0, 3, 62, 3 * n as u32 + 1, 5000][pick(5)] };
    let i = pos(&a, &x);
    let kind = pick(3);
    let (sub, sup) = match kind {
        0 => { assume(i == n); b[n - 1 - at] = x; (false, false) }
        1 => { b.remove(at); (false, true) }
        _ => (true, true),
    };
    let p = FrozenSet::<u32, Tab>::from_vec_with_hasher(a, Tab(&[]));
    let q = FrozenSet::<u32, Tab>::from_vec_with_hasher(b, Tab(&[]));
    check!((p == q) == (kind == 2) && (q == p) == (kind == 2));
    check!(p.is_subset(&q) == sub && q.is_superset(&p) == sub);
    check!(p.is_superset(&q) == sup && q.is_subset(&p) == sup);
    check!(!p.is_disjoint(&q) && !q.is_disjoint(&p));
    reach(11);
}
/// two subsets of n values, as membership tables
fn two(n: usize) -> (Vec<bool>, Vec<bool>) {
    let mut a = vec![true; n];
    let mut b = vec![true; n];
    match pick(6) {
        0 => a[place(n)] = false,
        1 => b[place(n)] = false,
        2 => { let i = place(n); for j in 0..n { if j == i { a[j] = false } else { b[j] = false } } }
        3 => for j in 0..n { a[j] = j % 2 == 0; b[j] = j % 2 == 1; },
        4 => for j in 0..n { a[j] = j < 200; b[j] = j >= 60; },
        _ => (),
    }
    (a, b)
}
fn those<T: Clone>(k: &[T], m: &[bool]) -> Vec<T> { (0..k.len()).filter(|i| m[*i]).map(|i| k[i].clone()).collect() }
fn large<T: SKit, U: SKit<Key = T::Key>>(n: usize) where T::Key: 'static, T::Set: PartialEq<U::Set> {
    let (kit, ks) = T::keys(n);
    let (kit2, _) = U::keys(n);
    let (am, bm) = two(n);
    let (a, b) = (kit.build(those(&ks, &am)), kit2.build(those(&ks, &bm)));
    let all = |f: fn(bool, bool) -> bool| (0..n).all(|i| f(am[i], bm[i]));
    check!(Set::is_subset(&a, &b) == all(|x, y| !x | y));
    check!(Set::is_superset(&a, &b) == all(|x, y| x | !y));
    check!(Set::is_disjoint(&a, &b) == all(|x, y| !(x & y)));
    check!(Set::is_subset(&b, &a) == all(|x, y| x | !y));
    check!((a == b) == (am == bm));
    reach(12);
}
harnesses! {
fn c13_large_fk_fk() { large::<SLfk, SLfk>(LARGE) }
fn c13_large_fr_fr() { large::<SLfr, SLfr>(LARGE) }
fn c13_large_fi_fi() { large::<SLfi, SLfi>(LARGE) }
fn c13_large_fn_fn() { large::<SLfn, SLfn>(LARGE) }
fn c13_large_fl_fl() { large::<SLfl, SLfl>(LARGE) }
fn c13_large_ft_ft() { large::<SLft, SLft>(LARGE) }
fn c13_large_ck_fk() { large::<SLck, SLfk>(LARGE) }
fn c13_large_ii_ii() { large::<SLii, SLii>(LARGE) }
fn c13_large_nl_nl() { large::<SLnl, SLnl>(LARGE) }
fn c13_large_ll_rl() { large::<SLll, SLrl>(LARGE) }
fn c13_large_rl_ll() { large::<SLrl, SLll>(LARGE) }
fn c13_large_sk_ck() { large::<SLsk, SLck>(LARGE) }
fn c13_ff() { pair2!(ks(3), mask, mask, fs!(t1(3)), fs!(tab(vec![1, 2, 0]))) }
fn c13_ff4() { pair2!(ks(4), mask, mask, fs!(t1(4)), fs!(t0())) }
fn c13_ff5() { pair2!(ks(5), mask, mask, fs!(t0()), fs!(Tab(&[]))) }
fn c13_fh() { pair_rel!(ks(4), mask, mask, fs!(t0()), |v| to_hash(v, t0())) }
fn c13_fb() { pair_rel!(ks(4), mask, mask, fs!(t0()), to_btree) }
fn c13_hf() { pair_rel!(ks(3), mask, mask, |v| to_hash(v, t0()), fs!(t0())) }
fn c13_bf() { pair_rel!(ks(3), mask, mask, to_btree, fs!(t0())) }
fn c13_fs() { pair_rel!(ks(3), mask, mask, fs!(t1(3)), ScanningSet::from_vec) }
fn c13_fr() { pair2!(run_u32(5), run_mask, run_mask, fs!(t0()), fs!(t0())) }
fn c13_fri() { pair2!(run_u32(5), run_mask, mask, fs!(t0()), fs!(t0())) }
fn c13_fi() { pair2!(vec![3u32, 10, 11, 500, 501], mask, mask, fs!(t0()), fs!(t0())) }
fn c13_fn() { pair2!(words_l(5), mask, mask, fs!(t0()), fs!(t0())) }
fn c13_fl() { pair2!(words(5), mask, mask, fs!(t0()), fs!(t0())) }
fn c13_cc() { pair2!(ks(3), mask, mask, cs!(t1(3)), cs!(t0())) }
fn c13_cb() { pair!(ks(3), mask, mask, cs!(t1(3)), to_btree) }
fn c13_cf() { pair!(ks(3), mask, mask, cs!(t0()), fs!(t1(3))) }
fn c13_ih() { pair!(vec![-7i32, 3, 99, 100], mask, mask, IntegerSet::<i32, u16>::from_vec, |v| to_hash(v, Tab(&[]))) }
fn c13_ri() { pair2!(run_i16(4), run_mask, mask, IntegerRangeSet::<i16>::from_vec, IntegerSet::<i16, u8>::from_vec) }
fn c13_rr() { pair2!(i16_run(4).1, run_mask, run_mask, IntegerRangeSet::<i16>::from_vec, IntegerRangeSet::<i16>::from_vec) }
fn c13_nn() { pair2!(words_l(4), mask, mask, LengthSet::<String, u8>::from_vec, LengthSet::<String, u8>::from_vec) }
fn c13_ns() { pair2!(words_l(4), mask, mask, LengthSet::<String, u8>::from_vec, ScanningSet::from_vec) }
fn c13_lr() { pair2!(words(4), mask, mask, ls!(), rs!()) }
fn c13_ll() { pair2!(words(3), mask, mask, ls!(), ls!()) }
fn c13_rr2() { pair2!(words(3), mask, mask, rs!(), rs!()) }
fn c13_rb() { pair!(words(3), mask, mask, rs!(), to_btree) }
fn c13_ss() { pair2!(ks(4), mask, mask, ScanningSet::from_vec, ScanningSet::from_vec) }
fn c13_sc() { pair2!(ks(3), mask, mask, ScanningSet::from_vec, cs!(t1(3))) }
fn c13_free_ss() { free!(u8, 3, 3, 4, 0, ScanningSet::from_vec, ScanningSet::from_vec) }
fn c13_free_ss1() { free!(u8, 3, 1, 8, 0, ScanningSet::from_vec, ScanningSet::from_vec) }
fn c13_free_sb() { free!(u8, 2, 2, 4, 0, ScanningSet::from_vec, to_btree) }
fn c13_free_ff() { free!(u32, 3, 2, 3, 7, fs!(Tab(&[])), fs!(Tab(&[]))) }
fn c13_free_ff2() { free!(u32, 2, 2, 32, 0, fs!(Tab(&[])), fs!(Tab(&[]))) }
fn c13_free_ii() { free!(u32, 2, 2, 3, 2, IntegerSet::<u32, u16>::from_vec, IntegerSet::<u32, u16>::from_vec) }
fn c13_big() { big(40, |i| i as u32 * 3 + 1, 0) }
fn c13_big300() { big(300, |i| i as u32 * 3 + 1, 0) }
fn c13_big12_t() { big(12, |i| i as u32 * 3 + 1, 6) }
fn c13_lrs_t() { pair2!(str_left(3).1, mask, mask, ls!(), rs!()) }
fn c13_rrs_t() { pair2!(str_right(3).1, mask, mask, rs!(), rs!()) }
fn c13_fls_t() { pair2!(str_left(4).1, mask, mask, fs!(t0()), fs!(t0())) }
fn c13_fns_t() { pair2!(str_lens(4).1, mask, mask, fs!(t0()), fs!(t0())) }
fn c13_fis_t() { pair2!(u32_sparse(4).1, mask, mask, fs!(t0()), fs!(t0())) }
fn c13_ris_t() { pair2!(i16_run(4).1, run_mask, mask, IntegerRangeSet::<i16>::from_vec, IntegerSet::<i16, u8>::from_vec) }
fn c13_ff5s_t() { pair2!(ks(5), mask, mask, fs!(t1(5)), fs!(t0())) }
fn c13_cc4_t() { pair2!(ks(4), mask, mask, cs!(t1(4)), cs!(t1(4))) }
fn c13_free_ff3_t() { free!(u32, 3, 3, 3, 7, fs!(Tab(&[])), fs!(Tab(&[]))) }
fn c13_free_iin_t() { free!(i32, 2, 2, 3, -4, IntegerSet::<i32, u16>::from_vec, IntegerSet::<i32, u16>::from_vec) }
}
