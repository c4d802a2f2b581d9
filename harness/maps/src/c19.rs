//! C19: all the constructors agree.
use crate::com::*;
use std::hash::RandomState;

/// an iterator whose size hint is any that is permitted
pub struct Hint<I> {
    it: I,
    left: usize,
    lo: usize,
    slack: Option<usize>,
}
fn hint<T>(v: Vec<T>) -> Hint<std::vec::IntoIter<T>> {
    let n = v.len();
    let lo = if n < 20 { pick(n as u64 + 1) } else { [0, n / 2, n][pick(3)] };
    let slack = match pick(3) { 0 => None, 1 => Some(0), _ => Some(3) };
    Hint { it: v.into_iter(), left: n, lo, slack }
}
impl<I: Iterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let x = self.it.next();
        if x.is_some() { self.left -= 1; self.lo = self.lo.saturating_sub(1); }
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.lo, self.slack.map(|s| s + self.left)) }
}
/// any order
fn perm<T: Clone>(v: &[T]) -> Vec<T> {
    let mut v = v.to_vec();
    if v.len() >= 100 { if any_bool() { v.reverse(); } else { v.rotate_left(7); } return v; }
    if v.len() > 20 { v.reverse(); return v; }
    for i in (1..v.len()).rev() { let j = pick(i as u64 + 1); v.swap(i, j); }
    v
}
fn arr<T: std::fmt::Debug, const N: usize>(v: Vec<T>) -> [T; N] { match v.try_into() { Ok(a) => a, Err(_) => unreachable!() } }

/// one of the ways against the first
macro_rules! maps {
    ($t:ty, $kt:expr, $absent:expr, $r:literal, [$w0:expr $(, $w:expr)* $(,)?]) => {{
        let (t, ks) = $kt;
        let n = ks.len();
        let es = with_vals(ks.clone());
        let base: $t = { let f = $w0; f(es.clone(), t) };
        let p = perm(&es);
        let mut m: Option<$t> = None;
        let ways: usize = 1 $( + { let _ = stringify!($w); 1 } )*;
        let mut w = pick(ways as u64);
        if w == 0 { let f = $w0; m = Some(f(p.clone(), t)); }
        $( w = w.wrapping_sub(1); if w == 0 { let f = $w; m = Some(f(p.clone(), t)); } )*
        let mut m = m.unwrap();
        check!(m.len() == n && base.len() == n);
        check!(m.is_empty() == (n == 0));
        check!(m == base && base == m);
        for i in 0..n {
            check!(m.get(&ks[i]) == Some(&val(i)) && base.get(&ks[i]) == Some(&val(i)));
            check!(m.contains_key(&ks[i]));
            check!(m.get_mut(&ks[i]).map(|x| *x) == Some(val(i)));
            match m.get_key_value(&ks[i]) { Some((k, v)) => check!(*k == ks[i] && *v == val(i)), None => check!(false) }
        }
        let a = $absent(&ks[..]);
        check!(m.get(&a).is_none() && base.get(&a).is_none() && !m.contains_key(&a) && !base.contains_key(&a));
        let mut seen = vec![false; n];
        for (k, v) in m.iter() { let i = pos(&ks, k); check!(i < n && *v == val(i) && !seen[i]); seen[i] = true; }
        check!(seen.iter().all(|x| *x));
        reach($r);
    }};
}
macro_rules! sets {
    ($t:ty, $kt:expr, $absent:expr, $r:literal, [$w0:expr $(, $w:expr)* $(,)?]) => {{
        let (t, ks) = $kt;
        let n = ks.len();
        let base: $t = { let f = $w0; f(ks.clone(), t) };
        let p = perm(&ks);
        let mut m: Option<$t> = None;
        let ways: usize = 1 $( + { let _ = stringify!($w); 1 } )*;
        let mut w = pick(ways as u64);
        if w == 0 { let f = $w0; m = Some(f(p.clone(), t)); }
        $( w = w.wrapping_sub(1); if w == 0 { let f = $w; m = Some(f(p.clone(), t)); } )*
        let m = m.unwrap();
        check!(m.len() == n && base.len() == n && m.is_empty() == (n == 0));
        check!(m == base && base == m);
        for k in &ks { check!(m.contains(k) && base.contains(k)); check!(m.get(k) == Some(k)); }
        let a = $absent(&ks[..]);
        check!(!m.contains(&a) && !base.contains(&a) && m.get(&a).is_none());
        let mut seen = vec![false; n];
        for k in m.iter() { let i = pos(&ks, k); check!(i < n && !seen[i]); seen[i] = true; }
        check!(seen.iter().all(|x| *x));
        reach($r);
    }};
}
// the families of constructors
macro_rules! hashed {
    ($mac:ident, $t:ident<$($a:ty),*>, $n:literal, $kt:expr, $absent:expr, $r:literal) => { $mac!($t<$($a,)* Tab>, $kt, $absent, $r, [
        |v, t| $t::from_vec_with_hasher(v, t),
        |v, t| $t::from_iter_with_hasher(v, t),
        |v, t| $t::from_iter_with_hasher(hint(v), t),
        |v, t| $t::with_hasher(arr::<_, $n>(v), t),
    ]) };
}
macro_rules! random {
    ($mac:ident, $t:ident<$($a:ty),*>, $n:literal, $kt:expr, $absent:expr, $r:literal) => { $mac!($t<$($a,)* RandomState>, $kt, $absent, $r, [
        |v, _| $t::from_vec(v),
        |v, _| $t::from(arr::<_, $n>(v)),
        |v, _| $t::from_iter(v),
        |v, _| hint(v).collect(),
        |v, _| $t::from_vec_with_hasher(v, RandomState::new()),
        |v, _| $t::from_iter_with_hasher(hint(v), RandomState::new()),
        |v, _| $t::with_hasher(arr::<_, $n>(v), RandomState::new()),
    ]) };
}
macro_rules! plain {
    ($mac:ident, $t:ident<$($a:ty),*>, $n:literal, $kt:expr, $absent:expr, $r:literal) => { $mac!($t<$($a),*>, $kt, $absent, $r, [
        |v, _| $t::from_vec(v),
        |v, _| $t::from(arr::<_, $n>(v)),
        |v, _| $t::from_iter(v),
        |v, _| hint(v).collect(),
    ]) };
}
// (length maps and sets are collected with the default capacity only)
macro_rules! ranged {
    ($mac:ident, $t:ident<$($a:ty),*>, $rg:expr, $n:literal, $kt:expr, $absent:expr, $r:literal) => {
        if any_bool() { $mac!($t<$($a,)* Tab>, $kt, $absent, $r, [
            |v, t| $t::from_vec_with_hasher(v, $rg, t),
            |v, t| $t::from_iter_with_hasher(v, $rg, t),
            |v, t| $t::from_iter_with_hasher(hint(v), $rg, t),
            |v, t| $t::with_hasher(arr::<_, $n>(v), $rg, t),
        ]) } else { $mac!($t<$($a,)* RandomState>, $kt, $absent, $r, [
            |v, _| $t::from_vec(v, $rg),
            |v, _| $t::from_iter(v, $rg),
            |v, _| $t::from_iter(hint(v), $rg),
            |v, _| $t::from(arr::<_, $n>(v), $rg),
            |v, _| $t::from_vec_with_hasher(v, $rg, RandomState::new()),
        ]) }
    };
}
fn ka(k: &[K]) -> K { qk(k.len()) }
fn ra(k: &[u32]) -> u32 { if k.is_empty() { 7 } else { k[0] + k.len() as u32 } }
fn ia(k: &[u32]) -> u32 { 11 }
fn sa(k: &[String]) -> String { "xy".to_string() }
fn i16a(k: &[i16]) -> i16 { k[0] + k.len() as i16 }
fn i32a(k: &[i32]) -> i32 { 11 }
/// every default collection is empty and equal to one built from nothing
macro_rules! dflt {
    ($t:ty, $e:expr, $q:expr) => {{
        let m: $t = Default::default();
        check!(m.len() == 0 && m.is_empty());
        check!(m.iter().next().is_none());
        let q = $q;
        check!(m.get(&q).is_none());
        let e: $t = $e;
        check!(m == e && e == m && e.len() == 0);
        check!(e.get(&q).is_none() && e.iter().next().is_none());
    }};
}
/// four integers that are no run
fn u32_fixed(_: usize) -> (Tab, Vec<u32>) { (Tab(&[]), vec![2, 7, 22, 1003]) }
/// a run at one of three places
fn u32_run_few(n: usize) -> (Tab, Vec<u32>) { let b = [0, u32::MAX - n as u32][pick(2)]; (Tab(&[]), (0..n as u32).map(|i| b + i).collect()) }
/// four keys, some with equal codes
fn k_few(n: usize) -> (Tab, Vec<K>) {
    let p = pick(3);
    (tab((0..n as u64 + 1).map(|i| match p { 0 => 5, 1 => i * 3, _ => i & 1 }).collect()), ks(n))
}
fn i16a_large(k: &[i16]) -> i16 { [-101, k.len() as i16 - 100][pick(2)] }
fn absent_i(k: &[i32]) -> i32 { 1 }
fn absent_s(k: &[String]) -> String { "~".to_string() }
harnesses! {
fn c19_large_fk_h() { hashed!(maps, FrozenMap<K, u16>, 260, k_large(260), ka, 51) }
fn c19_large_fi_h() { hashed!(maps, FrozenMap<u32, u16>, 260, u32_large(260), ia, 51) }
fn c19_large_fi_r() { random!(maps, FrozenMap<u32, u16>, 260, u32_large(260), ia, 51) }
fn c19_large_fr_r() { random!(maps, FrozenMap<u32, u16>, 260, u32_run_large(260), ia, 51) }
fn c19_large_fn_r() { random!(maps, FrozenMap<String, u16>, 60, lens_large(60), absent_s, 51) }
fn c19_large_fl_h() { hashed!(maps, FrozenMap<String, u16>, 260, left_large(260), absent_s, 51) }
fn c19_large_ck_h() { hashed!(maps, CommonMap<K, u16, u16>, 260, k_large(260), ka, 51) }
fn c19_large_ii() { plain!(maps, IntegerMap<i32, u16, u16>, 260, i32_large(260), absent_i, 52) }
fn c19_large_ri() { plain!(maps, IntegerRangeMap<i16, u16>, 260, i16_run_large(260), i16a_large, 52) }
fn c19_large_nl() { plain!(maps, LengthMap<String, u16>, 200, lens_large(200), absent_s, 52) }
fn c19_large_ll() { ranged!(maps, LeftSliceMap<String, u16, u16>, 2..5, 60, left_large(60), absent_s, 52) }
fn c19_large_rl() { ranged!(maps, RightSliceMap<String, u16, u16>, 5..8, 60, right_large(60), absent_s, 52) }
fn c19_large_sk() { plain!(maps, ScanningMap<K, u16>, 260, k_large(260), ka, 52) }
fn c19_large_sfk_h() { hashed!(sets, FrozenSet<K>, 260, k_large(260), ka, 53) }
fn c19_large_sfi_r() { random!(sets, FrozenSet<u32>, 260, u32_large(260), ia, 53) }
fn c19_large_sfl_h() { hashed!(sets, FrozenSet<String>, 60, left_large(60), absent_s, 53) }
fn c19_large_sck_h() { hashed!(sets, CommonSet<K, u16>, 260, k_large(260), ka, 53) }
fn c19_large_sii() { plain!(sets, IntegerSet<i32, u16>, 260, i32_large(260), absent_i, 54) }
fn c19_large_sri() { plain!(sets, IntegerRangeSet<i16>, 260, i16_run_large(260), i16a_large, 54) }
fn c19_large_ssk() { plain!(sets, ScanningSet<K>, 260, k_large(260), ka, 54) }
fn c19_large_snl() { plain!(sets, LengthSet<String, u16>, 200, lens_large(200), absent_s, 54) }
fn c19_large_sll() { ranged!(sets, LeftSliceSet<String, u16>, 2..5, 60, left_large(60), absent_s, 54) }
fn c19_large_srl() { ranged!(sets, RightSliceSet<String, u16>, 5..8, 60, right_large(60), absent_s, 54) }
fn c19_fk_c4() { hashed!(maps, FrozenMap<K, u16>, 4, k_few(4), ka, 1) }
fn c19_sfk_c4() { hashed!(sets, FrozenSet<K>, 4, k_few(4), ka, 21) }
fn c19_fi_c4() { hashed!(maps, FrozenMap<u32, u16>, 4, u32_fixed(4), ia, 3) }
fn c19_sfi_c4() { hashed!(sets, FrozenSet<u32>, 4, u32_fixed(4), ia, 23) }
fn c19_fr_h4_sym_t() { hashed!(maps, FrozenMap<u32, u16>, 4, u32_run(4), ra, 2) }
fn c19_fk_h4_t() { hashed!(maps, FrozenMap<K, u16>, 4, k_keys(4), ka, 1) }
fn c19_fk_r4() { random!(maps, FrozenMap<K, u16>, 4, k_keys(4), ka, 1) }
fn c19_fk_h3() { hashed!(maps, FrozenMap<K, u16>, 3, k_keys(3), ka, 1) }
fn c19_fk_r2() { random!(maps, FrozenMap<K, u16>, 2, k_keys(2), ka, 1) }
fn c19_fk_r0() { random!(maps, FrozenMap<K, u16>, 0, k_keys(0), ka, 1) }
fn c19_fr_h4() { hashed!(maps, FrozenMap<u32, u16>, 4, u32_run_few(4), ra, 2) }
fn c19_fr_r4() { random!(maps, FrozenMap<u32, u16>, 4, u32_run_few(4), ra, 2) }
fn c19_fi_h4_t() { hashed!(maps, FrozenMap<u32, u16>, 4, u32_sparse(4), ia, 3) }
fn c19_fn_h4() { hashed!(maps, FrozenMap<String, u16>, 4, str_lens(4), sa, 4) }
fn c19_fn_r4() { random!(maps, FrozenMap<String, u16>, 4, str_lens(4), sa, 4) }
fn c19_fl_h4() { hashed!(maps, FrozenMap<String, u16>, 4, str_left(4), sa, 5) }
fn c19_ck_h2() { hashed!(maps, CommonMap<K, u16, u8>, 2, k_keys(2), ka, 6) }
fn c19_ck_h3_t() { hashed!(maps, CommonMap<K, u16, u8>, 3, k_keys(3), ka, 6) }
fn c19_ck_r4() { random!(maps, CommonMap<K, u16, u16>, 4, k_keys(4), ka, 6) }
fn c19_ck_r0() { random!(maps, CommonMap<K, u16, u16>, 0, k_keys(0), ka, 6) }
fn c19_ii3() { plain!(maps, IntegerMap<i32, u16, u16>, 3, i32_sparse(3), i32a, 7) }
fn c19_ii4_t() { plain!(maps, IntegerMap<i32, u16, u16>, 4, i32_sparse(4), i32a, 7) }
fn c19_ri4() { plain!(maps, IntegerRangeMap<i16, u16>, 4, i16_run(4), i16a, 8) }
fn c19_nl4() { plain!(maps, LengthMap<String, u16>, 4, str_lens2(4), sa, 9) }
fn c19_nl5_q() { plain!(maps, LengthMap<String, u16>, 5, str_lens2(5), sa, 9) }
fn c19_ll4() { ranged!(maps, LeftSliceMap<String, u16, u8>, 1..2, 4, str_left(4), sa, 10) }
fn c19_rl4() { ranged!(maps, RightSliceMap<String, u16, u8>, 1..2, 4, str_right(4), sa, 11) }
fn c19_sk3() { plain!(maps, ScanningMap<K, u16>, 3, k_keys(3), ka, 12) }
fn c19_sfk_h4_t() { hashed!(sets, FrozenSet<K>, 4, k_keys(4), ka, 21) }
fn c19_sfk_r4() { random!(sets, FrozenSet<K>, 4, k_keys(4), ka, 21) }
fn c19_sfk_r2() { random!(sets, FrozenSet<K>, 2, k_keys(2), ka, 21) }
fn c19_sfr_h4() { hashed!(sets, FrozenSet<u32>, 4, u32_run_few(4), ra, 22) }
fn c19_sfr_r4() { random!(sets, FrozenSet<u32>, 4, u32_run_few(4), ra, 22) }
fn c19_sfi_h4_t() { hashed!(sets, FrozenSet<u32>, 4, u32_sparse(4), ia, 23) }
fn c19_sfn_h4() { hashed!(sets, FrozenSet<String>, 4, str_lens(4), sa, 24) }
fn c19_sfl_h4() { hashed!(sets, FrozenSet<String>, 4, str_left(4), sa, 25) }
fn c19_sck_h2() { hashed!(sets, CommonSet<K, u8>, 2, k_keys(2), ka, 26) }
fn c19_sck_h3_t() { hashed!(sets, CommonSet<K, u8>, 3, k_keys(3), ka, 26) }
fn c19_sck_r4() { random!(sets, CommonSet<K, u16>, 4, k_keys(4), ka, 26) }
fn c19_sii3() { plain!(sets, IntegerSet<i32, u16>, 3, i32_sparse(3), i32a, 27) }
fn c19_sii4_t() { plain!(sets, IntegerSet<i32, u16>, 4, i32_sparse(4), i32a, 27) }
fn c19_sri4() { plain!(sets, IntegerRangeSet<i16>, 4, i16_run(4), i16a, 28) }
fn c19_snl4() { plain!(sets, LengthSet<String, u16>, 4, str_lens2(4), sa, 29) }
fn c19_sll4() { ranged!(sets, LeftSliceSet<String, u8>, 1..2, 4, str_left(4), sa, 30) }
fn c19_srl4() { ranged!(sets, RightSliceSet<String, u8>, 1..2, 4, str_right(4), sa, 31) }
fn c19_ssk3() { plain!(sets, ScanningSet<K>, 3, k_keys(3), ka, 32) }
fn c19_default() {
    let q = sstr(pick(3), 7);
    let i = any_u32();
    dflt!(FrozenMap<K, u16, Tab>, FrozenMap::from_vec_with_hasher(vec![], Tab(&[])), qk((i & 7) as usize));
    dflt!(FrozenMap<u32, u16>, FrozenMap::from([]), i);
    dflt!(FrozenMap<String, u16, Tab>, FrozenMap::from_iter_with_hasher(vec![], Tab(&[])), q.clone());
    dflt!(FrozenSet<K, Tab>, FrozenSet::from_vec_with_hasher(vec![], Tab(&[])), qk((i & 7) as usize));
    dflt!(FrozenSet<u32>, FrozenSet::from([]), i);
    dflt!(FrozenSet<String>, FrozenSet::from_vec(vec![]), q.clone());
    reach(40);
}
fn c19_fk_h5_t() { hashed!(maps, FrozenMap<K, u16>, 5, k_keys(5), ka, 1) }
fn c19_fk_r5_t() { random!(maps, FrozenMap<K, u16>, 5, k_keys(5), ka, 1) }
fn c19_fi_r5_t() { random!(maps, FrozenMap<u32, u16>, 5, u32_sparse(5), ia, 3) }
fn c19_ft_h5_t() { hashed!(maps, FrozenMap<String, u16>, 5, str_right(5), sa, 5) }
fn c19_fl_r4_t() { random!(maps, FrozenMap<String, u16>, 4, str_left(4), sa, 5) }
fn c19_sfn_r4_t() { random!(sets, FrozenSet<String>, 4, str_lens(4), sa, 24) }
fn c19_sft_r5_t() { random!(sets, FrozenSet<String>, 5, str_right(5), sa, 24) }
fn c19_ii5_t() { plain!(maps, IntegerMap<i32, u16, u16>, 5, i32_sparse(5), i32a, 7) }
fn c19_ri5_t() { plain!(maps, IntegerRangeMap<i16, u16>, 5, i16_run(5), i16a, 8) }
fn c19_snl5_t() { plain!(sets, LengthSet<String, u16>, 5, str_lens2(5), sa, 29) }
}
