//! C12: set algebra.
use crate::com::*;

/// Takes p items of an iterator that must yield the elements of u in `exp`, each once, then finishes in one of several ways.
fn drain<'a, T: PartialEq + 'a, I: Iterator<Item = &'a T> + Clone>(mut it: I, u: &[T], exp: u64) {
    let n = exp.count_ones() as usize;
    let mut left = exp;
    let take = |left: &mut u64, x: &T| { let j = pos(u, x); check!(j < u.len() && *left >> j & 1 == 1); *left &= !(1 << j); };
    let hint = |it: &I, left: u64| { let (lo, hi) = it.size_hint(); let k = left.count_ones() as usize; check!(lo <= k); if let Some(hi) = hi { check!(k <= hi); } };
    let p = pick(n as u64 + 1);
    for _ in 0..p {
        hint(&it, left);
        match it.next() { Some(x) => take(&mut left, x), None => check!(false) }
    }
    hint(&it, left);
    let mut c = it.clone();
    let mut cl = left;
    match pick(5) {
        0 => {
            while let Some(x) = it.next() { take(&mut left, x); hint(&it, left); }
            check!(left == 0);
            for _ in 0..3 { check!(it.next().is_none()); hint(&it, 0); }
            reach(1);
        }
        1 => { it.for_each(|x| take(&mut left, x)); check!(left == 0); reach(2); }
        2 => { check!(it.count() == n - p); reach(3); }
        3 => {
            let k = if p % 2 == 0 { 1.min(n - p) } else { n - p };
            match it.nth(k) { Some(x) => { check!(k < n - p); take(&mut left, x); check!(left.count_ones() as usize >= n - p - k - 1); } None => check!(k == n - p) }
            let before = left.count_ones() as usize;
            let mut more = 0;
            while let Some(x) = it.next() { take(&mut left, x); more += 1; }
            check!(more == n - p - k - (k < n - p) as usize && left.count_ones() as usize == before - more);
            check!(it.last().is_none());
            match c.clone().last() { Some(x) => check!(n > p && cl >> pos(u, x) & 1 == 1), None => check!(n == p) }
            reach(13);
        }
        _ => { let v: Vec<&T> = it.collect(); for x in v { take(&mut left, x); } check!(left == 0); reach(4); }
    }
    while let Some(x) = c.next() { take(&mut cl, x); }
    check!(cl == 0);
}
fn alg<T: PartialEq + 'static, A: Set<T>, B: Set<T>>(u: &[T], am: u64, bm: u64, a: &A, b: &B)
where for<'x> A::Iterator<'x>: Clone, for<'x> B::Iterator<'x>: Clone
{
    match pick(4) {
        0 => { drain(a.union(b), u, am | bm); reach(5) }
        1 => { drain(a.intersection(b), u, am & bm); reach(6) }
        2 => { drain(a.difference(b), u, am & !bm); reach(7) }
        _ => { drain(a.symmetric_difference(b), u, am ^ bm); reach(8) }
    }
}
fn same<T: Hash + Eq, H: BuildHasher>(u: &[T], exp: u64, h: HashSet<T, H>) {
    check!(h.len() == exp.count_ones() as usize);
    for (i, x) in u.iter().enumerate() { check!(h.contains(x) == (exp >> i & 1 == 1)); }
}
macro_rules! ops {
    ($u:expr, $am:expr, $bm:expr, $a:expr, $b:expr) => {{
        let (am, bm) = ($am, $bm);
        match pick(4) {
            0 => { same($u, am | bm, &$a | &$b); reach(9) }
            1 => { same($u, am & bm, &$a & &$b); reach(10) }
            2 => { same($u, am & !bm, &$a - &$b); reach(11) }
            _ => { same($u, am ^ bm, &$a ^ &$b); reach(12) }
        }
    }};
}
/// iterators and, for o, operators
macro_rules! pair {
    ($u:expr, $ma:expr, $mb:expr, $fa:expr, $fb:expr) => {{
        let u = $u;
        let (am, bm) = ($ma(u.len()), $mb(u.len()));
        let (a, b) = ($fa(sub(&u, am, 0)), $fb(sub(&u, bm, 1)));
        if any_bool() { alg(&u, am, bm, &a, &b) } else { ops!(&u, am, bm, a, b) }
    }};
}
macro_rules! pair_it {
    ($u:expr, $ma:expr, $mb:expr, $fa:expr, $fb:expr) => {{
        let u = $u;
        let (am, bm) = ($ma(u.len()), $mb(u.len()));
        let (a, b) = ($fa(sub(&u, am, 0)), $fb(sub(&u, bm, 1)));
        alg(&u, am, bm, &a, &b)
    }};
}
fn t1(n: usize) -> Tab { tab(codes(n, 1)) }
fn t0() -> Tab { tab(vec![3, 0, 6, 3, 5, 1, 2, 3]) }
fn words(n: usize) -> Vec<String> { (0..n).map(|i| format!("k{}c{}", i, if i == n - 1 { "x" } else { "y" })).collect() }
fn words_l(n: usize) -> Vec<String> { (0..n).map(|i| "abcdefg"[..i].to_string()).collect() }
fn run_u32(n: usize) -> Vec<u32> { let b = [0, 5, u32::MAX - 4][pick(3)]; (0..n as u32).map(|i| b + i).collect() }
fn run_i16(n: usize) -> Vec<i16> { let b = [i16::MIN, -2, i16::MAX - 5][pick(3)]; (0..n as i16).map(|i| b + i).collect() }
/// two sets of arbitrary integers, ascending
macro_rules! free {
    ($t:ty, $na:expr, $nb:expr, $bits:expr, $off:expr, $fa:expr, $fb:expr) => {{
        let a: Vec<$t> = (0..$na).map(|_| any($bits) as $t + $off).collect();
        let b: Vec<$t> = (0..$nb).map(|_| any($bits) as $t + $off).collect();
        let mut ok = true;
        for v in [&a, &b] { for i in 1..v.len() { ok &= v[i - 1] < v[i]; } }
        assume(ok);
        let mut u = a.clone();
        let mut bm = 0u64;
        for x in &b { let j = pos(&u, x); if j == u.len() { u.push(*x); } bm |= 1 << j; }
        let am = (1u64 << $na) - 1;
        let (a, b) = ($fa(a), $fb(b));
        if any_bool() { alg(&u, am, bm, &a, &b) } else { ops!(&u, am, bm, a, b) }
    }};
}
fn strs(n: usize) -> Vec<String> { str_left(n).1 }
fn strs_r(n: usize) -> Vec<String> { str_right(n).1 }
fn lens(n: usize) -> Vec<String> { str_lens(n).1 }
macro_rules! fs { ($t:expr) => {{ let t = $t; move |v| FrozenSet::from_vec_with_hasher(v, t) }}; }
macro_rules! cs { ($t:expr) => {{ let t = $t; move |v| CommonSet::<K, u8, Tab>::from_vec_with_hasher(v, t) }}; }
macro_rules! ls { () => { |v: Vec<String>| LeftSliceSet::<String, u8, Tab>::from_vec_with_hasher(v, 1..2, t0()) }; }
macro_rules! rs { () => { |v: Vec<String>| RightSliceSet::<String, u8, Tab>::from_vec_with_hasher(v, 1..2, t0()) }; }
/// two subsets of n values, as membership tables
fn two(n: usize) -> (Vec<bool>, Vec<bool>) {
    let mut a = vec![true; n];
    let mut b = vec![true; n];
    match pick(6) {
        0 => a[place(n)] = false,
        1 => b[place(n)] = false,
        2 => { let i = place(n); for j in 0..n { if j == i { a[j] = false } else { b[j] = false } } }
        3 => for j in 0..n { a[j] = j % 2 == 0; b[j] = j % 2 == 1; },
        4 => for j in 0..n { a[j] = j < 200; b[j] = j >= 60; },
        _ => (),
    }
    (a, b)
}
fn those<T: Clone>(k: &[T], m: &[bool]) -> Vec<T> { (0..k.len()).filter(|i| m[*i]).map(|i| k[i].clone()).collect() }
fn yields<'a, T: PartialEq + 'a>(it: impl Iterator<Item = &'a T> + Clone, u: &[T], exp: impl Fn(usize) -> bool) {
    let n = (0..u.len()).filter(|i| exp(*i)).count();
    let (lo, hi) = it.size_hint();
    check!(lo <= n && hi.map_or(true, |h| h >= n));
    check!(it.clone().count() == n);
    let mut seen = vec![false; u.len()];
    let mut c = 0;
    for x in it { let i = pos(u, x); check!(i < u.len() && exp(i) && !seen[i]); seen[i] = true; c += 1; }
    check!(c == n);
}
fn large<T: SKit, U: SKit<Key = T::Key>>(n: usize) where T::Key: 'static {
    let (kit, ks) = T::keys(n);
    let (kit2, _) = U::keys(n);
    let (am, bm) = two(n);
    let (a, b) = (kit.build(those(&ks, &am)), kit2.build(those(&ks, &bm)));
    match pick(4) {
        0 => yields(Set::union(&a, &b).collect::<Vec<_>>().into_iter(), &ks, |i| am[i] | bm[i]),
        1 => yields(Set::intersection(&a, &b).collect::<Vec<_>>().into_iter(), &ks, |i| am[i] & bm[i]),
        2 => yields(Set::difference(&a, &b).collect::<Vec<_>>().into_iter(), &ks, |i| am[i] & !bm[i]),
        _ => yields(Set::symmetric_difference(&a, &b).collect::<Vec<_>>().into_iter(), &ks, |i| am[i] ^ bm[i]),
    }
    reach(14);
}
harnesses! {
fn c12_large_fr_fr() { large::<SLfr, SLfr>(LARGE) }
fn c12_large_fk_fk() { large::<SLfk, SLfk>(LARGE) }
fn c12_large_ft_ft() { large::<SLft, SLft>(LARGE) }
fn c12_large_sk_ck() { large::<SLsk, SLck>(LARGE) }
fn c12_large_fk_ck() { large::<SLfk, SLck>(LARGE) }
fn c12_large_fi_fi() { large::<SLfi, SLfi>(LARGE) }
fn c12_large_fl_rl() { large::<SLfl, SLrl>(LARGE) }
fn c12_large_fn_nl() { large::<SLfn, SLnl>(LARGE) }
fn c12_large_ck_fk() { large::<SLck, SLfk>(LARGE) }
fn c12_large_ii_ii() { large::<SLii, SLii>(LARGE) }
fn c12_large_ll_ft() { large::<SLll, SLft>(LARGE) }
fn c12_large_rl_rl() { large::<SLrl, SLrl>(LARGE) }
fn c12_ff() { pair!(ks(3), mask, mask, fs!(t1(3)), fs!(Tab(&[]))) }
fn c12_ff4() { pair!(ks(4), mask, |_| 0b1111, fs!(t0()), fs!(t0())) }
fn c12_ff5() { pair!(ks(5), |_| 0b11110 ^ pick(2) as u64 * 2, mask, fs!(t0()), fs!(t0())) }
fn c12_fh() { pair!(ks(3), mask, mask, fs!(t0()), |v| to_hash(v, t0())) }
fn c12_fb() { pair!(ks(3), mask, mask, fs!(t0()), to_btree) }
fn c12_fs() { pair!(ks(3), mask, mask, fs!(t0()), ScanningSet::from_vec) }
fn c12_hf() { pair_it!(ks(3), mask, mask, |v| to_hash(v, t0()), fs!(t0())) }
fn c12_bf() { pair_it!(ks(3), mask, mask, to_btree, fs!(t0())) }
fn c12_fr() { pair!(run_u32(4), run_mask, mask, fs!(t0()), fs!(t0())) }
fn c12_fi() { pair!(vec![3u32, 10, 11, 500], mask, mask, fs!(t0()), fs!(t0())) }
fn c12_fn() { pair!(words_l(4), run_mask, run_mask, fs!(t0()), fs!(t0())) }
fn c12_fl() { pair!(words(4), run_mask, mask, fs!(t0()), fs!(t0())) }
fn c12_cb() { pair!(ks(3), mask, mask, cs!(t1(3)), to_btree) }
fn c12_cf() { pair!(ks(3), mask, mask, cs!(t0()), fs!(t1(3))) }
fn c12_ih() { pair!(vec![-7i32, 3, 99], mask, mask, IntegerSet::<i32, u16>::from_vec, |v| to_hash(v, Tab(&[]))) }
fn c12_ri() { pair!(run_i16(4), run_mask, run_mask, IntegerRangeSet::<i16>::from_vec, IntegerSet::<i16, u8>::from_vec) }
fn c12_rr() { pair!(run_i16(4), run_mask, run_mask, IntegerRangeSet::<i16>::from_vec, IntegerRangeSet::<i16>::from_vec) }
fn c12_ir() { pair!(vec![5i16, 6, 7, 8], mask, run_mask, IntegerSet::<i16, u8>::from_vec, IntegerRangeSet::<i16>::from_vec) }
fn c12_ns() { pair!(words_l(3), mask, mask, LengthSet::<String, u8>::from_vec, ScanningSet::from_vec) }
fn c12_sn() { pair!(words_l(3), mask, mask, ScanningSet::from_vec, LengthSet::<String, u8>::from_vec) }
fn c12_lr() { pair!(words(3), mask, mask, ls!(), rs!()) }
fn c12_rl() { pair!(words(3), mask, mask, rs!(), ls!()) }
fn c12_lb() { pair!(words(3), mask, mask, ls!(), to_btree) }
fn c12_sc() { pair!(ks(3), mask, mask, ScanningSet::from_vec, cs!(t1(3))) }
fn c12_free_ss() { free!(u8, 2, 2, 4, 0, ScanningSet::from_vec, ScanningSet::from_vec) }
fn c12_free_sb() { free!(u8, 2, 1, 4, 0, ScanningSet::from_vec, to_btree) }
fn c12_free_ff() { free!(u32, 2, 2, 2, 7, fs!(Tab(&[])), fs!(Tab(&[]))) }
fn c12_free_ii() { free!(u32, 2, 1, 3, 2, IntegerSet::<u32, u16>::from_vec, IntegerSet::<u32, u16>::from_vec) }
fn c12_free_iin_t() { free!(i32, 2, 2, 3, -4, IntegerSet::<i32, u16>::from_vec, IntegerSet::<i32, u16>::from_vec) }
fn c12_free_ss3_t() { free!(u8, 3, 2, 3, 0, ScanningSet::from_vec, ScanningSet::from_vec) }
fn c12_free_ff3_t() { free!(u32, 3, 2, 3, 7, fs!(Tab(&[])), fs!(Tab(&[]))) }
fn c12_free_ii3_t() { free!(i32, 3, 2, 3, -4, IntegerSet::<i32, u16>::from_vec, IntegerSet::<i32, u16>::from_vec) }
fn c12_lrs_t() { pair!(strs(3), mask, mask, ls!(), rs!()) }
fn c12_rls_t() { pair!(strs_r(3), mask, mask, rs!(), ls!()) }
fn c12_frs_t() { pair!(u32_run(3).1, run_mask, mask, fs!(t0()), fs!(t0())) }
fn c12_fns_t() { pair!(lens(3), run_mask, run_mask, fs!(t0()), fs!(t0())) }
fn c12_ff4_t() { pair!(ks(4), mask, mask, fs!(t0()), fs!(t1(4))) }
fn c12_ff5_t() { pair!(ks(5), mask, mask, fs!(t0()), fs!(t0())) }
fn c12_fh4_t() { pair!(ks(4), mask, mask, fs!(t1(4)), |v| to_hash(v, t0())) }
fn c12_fb4_t() { pair!(ks(4), mask, mask, fs!(t1(4)), to_btree) }
fn c12_ri5_t() { pair!(i16_run(5).1, run_mask, mask, IntegerRangeSet::<i16>::from_vec, IntegerSet::<i16, u8>::from_vec) }
fn c12_lr4_t() { pair!(strs(4), mask, mask, ls!(), rs!()) }
fn c12_sc4_t() { pair!(ks(4), mask, mask, ScanningSet::from_vec, cs!(t1(4))) }
}
