//! C23: Debug output.
use crate::com::*;
use std::fmt::{Debug, Formatter};

/// the notation of the standard collections
struct L<'a, T>(&'a [T]);
impl<'a, T: Debug> Debug for L<'a, T> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { f.debug_list().entries(self.0).finish() }
}
struct M<'a, A, B>(&'a [(A, B)]);
impl<'a, A: Debug, B: Debug> Debug for M<'a, A, B> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { f.debug_map().entries(self.0.iter().map(|x| (&x.0, &x.1))).finish() }
}
struct S<'a, T>(&'a [T]);
impl<'a, T: Debug> Debug for S<'a, T> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { f.debug_set().entries(self.0).finish() }
}
fn text<T: Debug + ?Sized>(x: &T) -> String { format!("{x:?}") }
fn long<T: Debug + ?Sized>(x: &T) -> String { format!("{x:#?}") }
/// as a list
fn list<T: Debug, U: Debug>(x: &T, e: &[U]) { check!(text(x) == text(&L(e))); }
/// as a set, a list, or a map to nothing
fn set_like<T: Debug, U: Debug>(x: &T, e: &[U]) {
    let t = text(x);
    let m: Vec<(&U, ())> = e.iter().map(|u| (u, ())).collect();
    check!(t == text(&S(e)) || t == text(&L(e)) || t == text(&M(&m)));
}
/// a map and its iterators
macro_rules! map {
    ($m:expr, $n:expr, $ks:expr, $r:literal) => {{
        let m = $m;
        let ks = $ks;
        let e: Vec<(_, _)> = m.iter().collect();
        check!(e.len() == $n);
        check!(text(&m) == text(&M(&e)));
        for (i, k) in ks.iter().enumerate() { check!(e.iter().filter(|x| x.0 == k && *x.1 == val(i)).count() == 1); }
        let p = pick($n as u64 + 1);
        let rest = $n - p;
        let how = any_bool();
        macro_rules! part {
            ($it:expr, $f:expr) => {{
                let mut it = $it;
                // some are taken in one step or one by one
                if how { if p > 0 { it.nth(p - 1); } } else { for _ in 0..p { it.next(); } }
                let f = $f;
                let want: Vec<_> = e[p..].iter().map(f).collect();
                list(&it, &want);
                list(&it.clone(), &want);
                check!(it.len() == rest);
                check!(it.map(|x| text(&x)).eq(want.iter().map(|x| text(x))));
            }};
        }
        match pick(3) {
            0 => part!(m.iter(), |x: &(_, _)| *x),
            1 => part!(m.keys(), |x: &(_, _)| x.0),
            _ => part!(m.values(), |x: &(_, _)| x.1),
        }
        // formatting left the map as it was
        check!(m.iter().eq(e.iter().map(|x| *x)));
        for (i, k) in ks.iter().enumerate() { check!(m.get(k) == Some(&val(i))); }
        reach($r);
    }};
}
macro_rules! set {
    ($m:expr, $n:expr, $ks:expr, $r:literal, $own:expr) => {{
        let m = $m;
        let ks = $ks;
        let e: Vec<_> = m.iter().map(|x| x.clone()).collect();
        check!(e.len() == $n);
        set_like(&m, &e);
        for k in ks.iter() { check!(e.iter().filter(|x| *x == k).count() == 1); }
        let p = pick($n as u64 + 1);
        let mut it = m.iter();
        for _ in 0..p { it.next(); }
        list(&it, &e[p..]);
        check!(it.map(|x| text(x)).eq(e[p..].iter().map(|x| text(x))));
        for k in ks.iter() { check!(m.contains(k)); }
        check!(m.iter().eq(e.iter()));
        if $own {
            let mut it = m.into_iter();
            for _ in 0..p { it.next(); }
            list(&it, &e[p..]);
            check!(it.len() == $n - p);
            check!(it.map(|x| text(&x)).eq(e[p..].iter().map(|x| text(x))));
        }
        reach($r);
    }};
}
/// frozen sets (no Debug of their own)
macro_rules! fset {
    ($m:expr, $n:expr, $ks:expr, $r:literal) => {{
        let m = $m;
        let ks = $ks;
        let e: Vec<_> = m.iter().map(|x| x.clone()).collect();
        check!(e.len() == $n);
        let p = pick($n as u64 + 1);
        let mut it = m.iter();
        for _ in 0..p { it.next(); }
        list(&it, &e[p..]);
        check!(it.map(|x| text(x)).eq(e[p..].iter().map(|x| text(x))));
        for k in ks.iter() { check!(m.contains(k)); }
        reach($r);
    }};
}
/// the four operations, partly consumed
macro_rules! ops {
    ($a:expr, $b:expr, $r:literal) => {{
        let (a, b) = ($a, $b);
        macro_rules! one {
            ($it:expr) => {{
                let mut it = $it;
                let all: Vec<_> = it.clone().collect();
                let p = pick(all.len() as u64 + 1);
                for _ in 0..p { it.next(); }
                list(&it, &all[p..]);
                list(&it, &all[p..]);
                check!(it.eq(all[p..].iter().map(|x| *x)));
            }};
        }
        match pick(4) {
            0 => one!(a.union(&b)),
            1 => one!(a.intersection(&b)),
            2 => one!(a.difference(&b)),
            _ => one!(a.symmetric_difference(&b)),
        }
        reach($r);
    }};
}
/// keys with short names
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct N(u16);
impl Hash for N { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u16(self.0) } }
impl Debug for N {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { f.write_str(["A", "B \"x\"", "C\n", "", "E, F"][self.0 as usize]) }
}
fn ns(n: usize) -> Vec<N> { (0..n).map(|i| N(i as u16)).collect() }
fn nv(n: usize) -> Vec<(N, u16)> { with_vals(ns(n)) }
fn ints(n: usize) -> Vec<i32> { [-5, 1000, 7, i32::MIN, 0][..n].to_vec() }
fn run(n: usize) -> Vec<u32> { let b = [0, 8, u32::MAX - 9][pick(3)]; (0..n as u32).map(|i| b + (i * 3) % n as u32).collect() }
fn sparse(n: usize) -> Vec<u32> { [9, 3, 70, 1 << 31, 5][..n].to_vec() }
fn strs(n: usize) -> Vec<String> { ["", "\"", "ab", "é\n\\", "wxyz."][..n].iter().map(|s| s.to_string()).collect() }
fn left(n: usize) -> Vec<String> { ["ax", "bx", "cx", "dx", "ex"][..n].iter().map(|s| s.to_string()).collect() }
fn right(n: usize) -> Vec<String> { ["prefix1", "prefix2", "prefix3", "prefix4", "prefix5"][..n].iter().map(|s| s.to_string()).collect() }
fn t(n: usize) -> Tab { tab(codes(n, 1)) }
/// many entries: the map and its iterators, partly consumed
fn large<T: Kit<u16>>() {
    let n = 257;
    let (kit, ks) = T::keys(n);
    let m = kit.build(with_vals(ks.clone()));
    let e: Vec<(_, _)> = T::iter(&m).collect();
    check!(e.len() == n);
    let p = [0, 2, 255, 256, n][pick(5)];
    match pick(4) {
        0 => check!(text(&m) == text(&M(&e))),
        1 => { let mut it = T::iter(&m); if p > 0 { it.nth(p - 1); } check!(text(&it) == text(&L(&e[p..]))); }
        2 => { let mut it = T::keys_of(&m); if p > 0 { it.nth(p - 1); } let k: Vec<_> = e[p..].iter().map(|x| x.0).collect(); check!(text(&it) == text(&L(&k))); }
        _ => { let mut it = T::values_of(&m); if p > 0 { it.nth(p - 1); } let k: Vec<_> = e[p..].iter().map(|x| x.1).collect(); check!(text(&it) == text(&L(&k))); }
    }
    reach(52);
}
fn large_set<T: SKit>() {
    let n = 257;
    let (kit, ks) = T::keys(n);
    let m = kit.build(ks.clone());
    let e: Vec<_> = T::iter(&m).collect();
    check!(e.len() == n);
    let p = [0, 2, 255, 256, n][pick(5)];
    let mut it = T::iter(&m);
    if p > 0 { it.nth(p - 1); }
    check!(text(&it) == text(&L(&e[p..])));
    reach(53);
}
macro_rules! large_own {
    ($t:ty) => {{
        large_set::<$t>();
        let (kit, ks) = <$t as SKit>::keys(257);
        let m = kit.build(ks);
        let e: Vec<_> = <$t as SKit>::iter(&m).cloned().collect();
        if any_bool() { set_like(&m, &e); } else { let mut it = m.into_iter(); it.nth(254); check!(text(&it) == text(&L(&e[255..]))); }
        reach(54);
    }};
}
harnesses! {
fn c23_large_fk() { large::<Lfk>() }
fn c23_large_fr() { large::<Lfr>() }
fn c23_large_fi() { large::<Lfi>() }
fn c23_large_fl() { large::<Lfl>() }
fn c23_large_ck() { large::<Lck>() }
fn c23_large_ii() { large::<Lii>() }
fn c23_large_ri() { large::<Lri>() }
fn c23_large_ll() { large::<Lll>() }
fn c23_large_rl() { large::<Lrl>() }
fn c23_large_sk() { large::<Lsk>() }
fn c23_large_sfk() { large_set::<SLfk>() }
fn c23_large_sfr() { large_set::<SLfr>() }
fn c23_large_sfi() { large_set::<SLfi>() }
fn c23_large_sfl() { large_set::<SLfl>() }
fn c23_large_sck() { large_own!(SLck) }
fn c23_large_sii() { large_own!(SLii) }
fn c23_large_sri() { large_own!(SLri) }
fn c23_large_sll() { large_own!(SLll) }
fn c23_large_srl() { large_own!(SLrl) }
fn c23_large_ssk() { large_own!(SLsk) }
fn c23_map_common() { let n = pick(4); map!(CommonMap::<N, u16, u8, Tab>::from_vec_with_hasher(nv(n), t(n)), n, ns(n), 1) }
fn c23_map_scan() { let n = pick(5); map!(ScanningMap::<N, u16>::from_vec(nv(n)), n, ns(n), 2) }
fn c23_map_int() { let n = pick(5); map!(IntegerMap::<i32, u16, u8>::from_vec(with_vals(ints(n))), n, ints(n), 3) }
fn c23_map_range() { let n = [0, 1, 2, 4][pick(4)]; let k = run(n); map!(IntegerRangeMap::<u32, u16>::from_vec(with_vals(k.clone())), n, k, 4) }
fn c23_map_len() { let n = pick(5); map!(LengthMap::<String, u16, u8>::from_vec(with_vals(strs(n))), n, strs(n), 5) }
fn c23_map_left() { let n = pick(4); map!(LeftSliceMap::<String, u16, u8, Tab>::from_vec_with_hasher(with_vals(left(n)), 0..1, t(n)), n, left(n), 6) }
fn c23_map_right() { let n = pick(4); map!(RightSliceMap::<String, u16, u8, Tab>::from_vec_with_hasher(with_vals(right(n)), 0..1, t(n)), n, right(n), 7) }
fn c23_frozen_n() { let n = pick(5); map!(FrozenMap::<N, u16, Tab>::from_vec_with_hasher(nv(n), t(n)), n, ns(n), 8) }
fn c23_frozen_run() { let n = [2, 4, 5][pick(3)]; let k = run(n); map!(FrozenMap::<u32, u16, Tab>::from_vec_with_hasher(with_vals(k.clone()), Tab(&[])), n, k, 9) }
fn c23_frozen_int() { let n = 3 + pick(3); map!(FrozenMap::<u32, u16, Tab>::from_vec_with_hasher(with_vals(sparse(n)), Tab(&[])), n, sparse(n), 10) }
fn c23_frozen_len() { let n = pick(6); map!(FrozenMap::<String, u16, Tab>::from_vec_with_hasher(with_vals(strs(n)), Tab(&[])), n, strs(n), 11) }
fn c23_frozen_left() { map!(FrozenMap::<String, u16, Tab>::from_vec_with_hasher(with_vals(left(5)), Tab(&[])), 5, left(5), 12) }
fn c23_frozen_right() { map!(FrozenMap::<String, u16, Tab>::from_vec_with_hasher(with_vals(right(5)), Tab(&[])), 5, right(5), 13) }
fn c23_set_common() { let n = pick(4); set!(CommonSet::<N, u8, Tab>::from_vec_with_hasher(ns(n), t(n)), n, ns(n), 21, true) }
fn c23_set_scan() { let n = pick(5); set!(ScanningSet::<N>::from_vec(ns(n)), n, ns(n), 22, true) }
fn c23_set_int() { let n = pick(5); set!(IntegerSet::<i32, u8>::from_vec(ints(n)), n, ints(n), 23, true) }
fn c23_set_range() { let n = [0, 1, 2, 4][pick(4)]; let k = run(n); set!(IntegerRangeSet::<u32>::from_vec(k.clone()), n, k, 24, true) }
fn c23_set_len() { let n = pick(5); set!(LengthSet::<String, u8>::from_vec(strs(n)), n, strs(n), 25, true) }
fn c23_set_left() { let n = pick(4); set!(LeftSliceSet::<String, u8, Tab>::from_vec_with_hasher(left(n), 0..1, t(n)), n, left(n), 26, true) }
fn c23_set_right() { let n = pick(4); set!(RightSliceSet::<String, u8, Tab>::from_vec_with_hasher(right(n), 0..1, t(n)), n, right(n), 27, true) }
fn c23_fset_n() { let n = pick(5); fset!(FrozenSet::<N, Tab>::from_vec_with_hasher(ns(n), t(n)), n, ns(n), 28) }
fn c23_fset_run() { let n = [2, 4, 5][pick(3)]; let k = run(n); fset!(FrozenSet::<u32, Tab>::from_vec_with_hasher(k.clone(), Tab(&[])), n, k, 29) }
fn c23_fset_int() { let n = 3 + pick(3); fset!(FrozenSet::<u32, Tab>::from_vec_with_hasher(sparse(n), Tab(&[])), n, sparse(n), 30) }
fn c23_fset_len() { let n = pick(6); fset!(FrozenSet::<String, Tab>::from_vec_with_hasher(strs(n), Tab(&[])), n, strs(n), 31) }
fn c23_fset_left() { fset!(FrozenSet::<String, Tab>::from_vec_with_hasher(left(5), Tab(&[])), 5, left(5), 32) }
fn c23_fset_right() { fset!(FrozenSet::<String, Tab>::from_vec_with_hasher(right(5), Tab(&[])), 5, right(5), 33) }
fn c23_ops_scan() { let k = ns(3); ops!(ScanningSet::<N>::from_vec(sub(&k, mask(3), 0)), ScanningSet::<N>::from_vec(sub(&k, mask(3), 0)), 41) }
fn c23_ops_frozen() { let k = ns(4); let h = tab(vec![1, 2, 3, 1]); ops!(FrozenSet::<N, Tab>::from_vec_with_hasher(sub(&k, mask(4), 0), h), FrozenSet::<N, Tab>::from_vec_with_hasher(sub(&k, mask(4), 0), h), 42) }
fn c23_ops_mixed() { let k = run(4); ops!(FrozenSet::<u32, Tab>::from_vec_with_hasher(sub(&k, mask(4), 0), Tab(&[])), to_btree(sub(&k, mask(4), 0)), 43) }
// the alternate form
fn c23_long() {
    let n = pick(3);
    let m = FrozenMap::<N, u16, Tab>::from_vec_with_hasher(nv(n), t(n));
    let e: Vec<(_, _)> = m.iter().collect();
    check!(long(&m) == long(&M(&e)));
    let k: Vec<_> = m.keys().collect();
    check!(long(&m.keys()) == long(&L(&k)));
    check!(long(&m.iter()) == long(&L(&e)));
    reach(50);
}
// many entries
fn c23_many() {
    let n = [255, 256, 300][pick(3)];
    let k: Vec<u32> = (0..n as u32).map(|i| i * 2).collect();
    let m = FrozenMap::<u32, u16, Tab>::from_vec_with_hasher(with_vals(k.clone()), Tab(&[]));
    let e: Vec<(_, _)> = m.iter().collect();
    check!(e.len() == n);
    check!(text(&m) == text(&M(&e)));
    let mut it = m.keys();
    it.nth(n - 3);
    check!(text(&it) == text(&L(&[e[n - 2].0, e[n - 1].0])));
    reach(51);
}
}
