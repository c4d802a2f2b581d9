//! C18: every key and value is dropped exactly once; clones are independent.
use crate::com::*;

const CAP: usize = 4096;
/// 0: not made yet, 1: alive, 2: dropped
static mut LIVE: [u8; CAP] = [0; CAP];
static mut MADE: usize = 0;
/// A value that knows whether it is alive and owns memory of its own.
pub struct D {
    pub v: u16,
    serial: usize,
    own: Box<u16>,
}
fn made(v: u16) -> D {
    unsafe {
        let s = MADE;
        check!(s < CAP);
        MADE += 1;
        LIVE[s] = 1;
        D { v, serial: s, own: Box::new(v) }
    }
}
impl Drop for D {
    fn drop(&mut self) {
        unsafe {
            check!(LIVE[self.serial] == 1);
            LIVE[self.serial] = 2;
        }
        check!(*self.own == self.v);
    }
}
impl Clone for D {
    fn clone(&self) -> D { self.alive(); made(self.v) }
}
impl D {
    fn alive(&self) { unsafe { check!(LIVE[self.serial] == 1) } check!(*self.own == self.v); }
}
impl PartialEq for D {
    fn eq(&self, o: &D) -> bool { self.alive(); o.alive(); self.v == o.v }
}
impl Eq for D {}
impl PartialOrd for D { fn partial_cmp(&self, o: &D) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for D { fn cmp(&self, o: &D) -> std::cmp::Ordering { self.v.cmp(&o.v) } }
impl Hash for D {
    fn hash<H: Hasher>(&self, h: &mut H) { self.alive(); h.write_u16(self.v) }
}
impl std::fmt::Debug for D {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("D") }
}
fn count() -> usize {
    let mut n = 0;
    unsafe { for i in 0..MADE { if LIVE[i] == 1 { n += 1; } } }
    n
}
fn d_keys(n: usize) -> (Tab, Vec<D>) { (tab(codes(n + 1, 2)), (0..n).map(|i| made(i as u16)).collect()) }
fn d_absent(k: &[D]) -> D { made(k.len() as u16) }
kit!(Fd, D, FrozenMap<D, V, Tab>, d_keys, d_absent, |v, t| FrozenMap::from_vec_with_hasher(v, t));
kit!(Cd, D, CommonMap<D, V, u8, Tab>, d_keys, d_absent, |v, t| CommonMap::from_vec_with_hasher(v, t));
kit!(Sd, D, ScanningMap<D, V>, d_keys, d_absent, |v, _| ScanningMap::from_vec(v));

/// the map answers for every key
fn answers<T: Kit<D>>(m: &T::Map, ks: &[T::Key], f: impl Fn(usize) -> u16) {
    check!(T::len(m) == ks.len());
    for i in 0..ks.len() {
        match T::get(m, &ks[i]) { Some(d) => { d.alive(); check!(d.v == f(i)); } None => check!(false) }
    }
    let mut n = 0;
    for (_, d) in T::iter(m) { d.alive(); n += 1; }
    check!(n == ks.len());
}
/// n entries; `kd` of the D alive per entry are in the key
fn life<T: Kit<D>>(n: usize, kd: usize) {
    let (kit, ks) = T::keys(n);
    let base = count();
    let h0 = heap();
    let per = kd + 1;
    {
        let mut e = Vec::with_capacity(n);
        for i in 0..n { e.push((ks[i].clone(), made(val(i)))); }
        let mut m = kit.build(e);
        check!(count() == base + n * per);
        let way = pick(7);
        match way {
            0 => drop(m),
            1 => {
                // a clone, one of the two changed, either dropped first
                let mut c = m.clone();
                check!(count() == base + 2 * n * per);
                check!(m == c);
                let w = pick(n as u64);
                let orig = any_bool();
                let x = any_u8() as u16;
                *T::get_mut(if orig { &mut m } else { &mut c }, &ks[w]).unwrap() = made(x);
                check!(count() == base + 2 * n * per);
                answers::<T>(if orig { &c } else { &m }, &ks, val);
                answers::<T>(if orig { &m } else { &c }, &ks, |i| if i == w { x } else { val(i) });
                if any_bool() { drop(m); check!(count() == base + n * per); answers::<T>(&c, &ks, |i| if i == w && !orig { x } else { val(i) }); drop(c); }
                else { drop(c); check!(count() == base + n * per); answers::<T>(&m, &ks, |i| if i == w && orig { x } else { val(i) }); drop(m); }
                reach(1);
            }
            2 => {
                // values replaced one after the other
                for i in 0..n { *T::index_mut(&mut m, ks[i].clone()) = made(200 + i as u16); check!(count() == base + n * per); }
                answers::<T>(&m, &ks, |i| 200 + i as u16);
                drop(m);
                reach(2);
            }
            3 => {
                // an iterator abandoned somewhere
                let p = pick(n as u64 + 1);
                let mut it = T::iter(&m);
                for _ in 0..p { match it.next() { Some((_, d)) => d.alive(), None => check!(false) } }
                let c = it.clone();
                drop(it);
                check!(c.count() == n - p);
                answers::<T>(&m, &ks, val);
                drop(m);
                reach(3);
            }
            4 => {
                // assignment drops what was there
                let c = m.clone();
                m = c.clone();
                check!(count() == base + 2 * n * per);
                m = c;
                check!(count() == base + n * per);
                answers::<T>(&m, &ks, val);
                drop(m);
                reach(4);
            }
            5 => {
                // the values move out through mutable references
                if n >= 2 {
                    if let Some([a, b]) = T::many(&mut m, [&ks[0], &ks[n - 1]]) { std::mem::swap(a, b); }
                    answers::<T>(&m, &ks, |i| if i == 0 { val(n - 1) } else if i == n - 1 { val(0) } else { val(i) });
                }
                check!(count() == base + n * per);
                drop(m);
                reach(5);
            }
            _ => {
                // an empty map of the kind, then this one
                let z = kit.build(vec![]);
                let y = z.clone();
                check!(T::len(&y) == 0 && T::iter(&z).next().is_none());
                drop(z);
                check!(T::get(&m, &ks[0]).is_some());
                let b = Box::new(m);
                answers::<T>(&b, &ks, val);
                drop(b);
                reach(6);
            }
        }
        check!(count() == base);
    }
    check!(heap() == h0);
}
/// equal keys: every instance is kept and dropped once
fn dups<T: Kit<D, Key = D>>(n: usize) {
    let (kit, ks) = T::keys(n);
    let base = count();
    let h0 = heap();
    {
        let mut e = Vec::with_capacity(n);
        for i in 0..n { let d = pick(i as u64 + 1); e.push((made(ks[d].v), made(val(i)))); }
        let m = kit.build(e);
        check!(count() == base + 2 * T::len(&m));
        let c = m.clone();
        check!(count() == base + 4 * T::len(&m));
        if any_bool() { drop(m); check!(T::iter(&c).all(|(k, v)| { k.alive(); v.alive(); true })); } else { drop(c); }
    }
    check!(count() == base);
    check!(heap() == h0);
    reach(7);
}
/// sets: $n items of which each is $per D
macro_rules! owned {
    ($n:expr, $per:expr, $kit:ty) => {{
        let n: usize = $n;
        let (kit, ks) = <$kit as SKit>::keys(n);
        let base = count();
        let h0 = heap();
        {
            let s = kit.build(ks.clone());
            check!(count() == base + n * $per);
            let order: Vec<usize> = s.iter().map(|x| pos(&ks, x)).collect();
            let two = any_bool();
            let spare = if two { Some(s.clone()) } else { None };
            let extra = if two { n * $per } else { 0 };
            let mut it = s.into_iter();
            let p = pick(n as u64 + 1);
            for j in 0..p {
                check!(it.len() == n - j);
                let x = it.next();
                check!(x.is_some() && x == Some(ks[order[j]].clone()));
                drop(x);
                check!(count() == base + extra + (n - j - 1) * $per);
            }
            let rest = n - p;
            check!(it.size_hint() == (rest, Some(rest)));
            match pick(7) {
                0 => drop(it),
                1 => check!(it.count() == rest),
                2 => { let v: Vec<_> = it.collect(); check!(v.len() == rest && count() == base + extra + rest * $per); for j in 0..rest { check!(v[j] == ks[order[p + j]]); } }
                3 => { let k = pick(rest as u64 + 1); let x = it.nth(k); check!(x.is_some() == (k < rest)); drop(x); let left = if k < rest { rest - k - 1 } else { 0 }; check!(it.len() == left && count() == base + extra + left * $per); drop(it); }
                4 => {
                    let c = it.clone();
                    check!(count() == base + extra + 2 * rest * $per);
                    if any_bool() { drop(it); check!(c.count() == rest); } else { drop(c); check!(it.count() == rest); }
                }
                5 => { let x = it.last(); check!(x.is_some() == (rest > 0)); }
                _ => { let mut k = 0; for x in it { check!(x == ks[order[p + k]]); k += 1; } check!(k == rest); }
            }
            check!(count() == base + extra);
            if let Some(s) = spare {
                for x in &ks { check!(<$kit as SKit>::contains(&s, x)); }
                check!(Len::len(&s) == n);
                drop(s);
            }
            check!(count() == base);
        }
        check!(heap() == h0);
        reach(8);
    }};
}
/// frozen sets, which cannot be consumed
fn fset<T: SKit>(n: usize, per: usize) {
    let (kit, ks) = T::keys(n);
    let base = count();
    let h0 = heap();
    {
        let mut s = kit.build(ks.clone());
        check!(count() == base + n * per);
        let c = s.clone();
        check!(count() == base + 2 * n * per);
        if any_bool() { s = c; check!(count() == base + n * per); } else { drop(c); }
        for x in &ks { check!(T::contains(&s, x)); }
        let p = pick(n as u64 + 1);
        let mut it = T::iter(&s);
        for _ in 0..p { check!(it.next().is_some()); }
        check!(it.count() == n - p);
        check!(count() == base + n * per);
    }
    check!(count() == base);
    check!(heap() == h0);
    reach(9);
}
/// what set operators return owns its own copies
fn ops(n: usize) {
    let (kit, ks) = <SFd as SKit>::keys(n);
    let base = count();
    {
        let a = kit.build(sub(&ks, mask(n), 0));
        let b = kit.build(sub(&ks, mask(n), 0));
        let na = Len::len(&a) + Len::len(&b);
        check!(count() == base + na);
        let r: HashSet<D, Tab> = match pick(4) { 0 => &a | &b, 1 => &a & &b, 2 => &a - &b, _ => &a ^ &b };
        check!(count() == base + na + r.len());
        drop(a);
        for x in &r { x.alive(); }
        drop(b);
        for x in &r { x.alive(); }
        check!(count() == base + r.len());
    }
    check!(count() == base);
    reach(10);
}
skit!(SFd, D, FrozenSet<D, Tab>, d_keys, d_absent, |v, t| FrozenSet::from_vec_with_hasher(v, t));
skit!(SCd, D, CommonSet<D, u8, Tab>, d_keys, d_absent, |v, t| CommonSet::from_vec_with_hasher(v, t));
skit!(SSd, D, ScanningSet<D>, d_keys, d_absent, |v, _| ScanningSet::from_vec(v));

/// large collections: built, cloned, changed, either dropped first
fn large<T: Kit<D>>(n: usize, kd: usize) {
    let (kit, ks) = T::keys(n);
    let base = count();
    let h0 = heap();
    {
        let mut e = Vec::with_capacity(n);
        for i in 0..n { e.push((ks[i].clone(), made(val(i)))); }
        let mut m = kit.build(e);
        check!(count() == base + n * (kd + 1));
        let mut c = m.clone();
        check!(count() == base + 2 * n * (kd + 1));
        let w = place(n);
        let orig = any_bool();
        *T::get_mut(if orig { &mut m } else { &mut c }, &ks[w]).unwrap() = made(9);
        check!(count() == base + 2 * n * (kd + 1));
        if any_bool() { drop(m); answers::<T>(&c, &ks, |i| if i == w && !orig { 9 } else { val(i) }); drop(c); }
        else { m = c; answers::<T>(&m, &ks, |i| if i == w && !orig { 9 } else { val(i) }); drop(m); }
        check!(count() == base);
        reach(11);
    }
    check!(count() == base);
    check!(heap() == h0);
}
/// the same for sets that can be consumed
macro_rules! owned_large {
    ($n:expr, $per:expr, $kit:ty) => {{
        let n: usize = $n;
        let (kit, ks) = <$kit as SKit>::keys(n);
        let base = count();
        let h0 = heap();
        {
            let s = kit.build(ks.clone());
            let c = s.clone();
            check!(count() == base + 2 * n * $per);
            let order: Vec<usize> = s.iter().map(|x| pos(&ks, x)).collect();
            if any_bool() { drop(c); } else { for x in &ks { check!(<$kit as SKit>::contains(&c, x)); } drop(c); }
            check!(count() == base + n * $per);
            let mut it = s.into_iter();
            let p = place(n);
            if any_bool() { for _ in 0..p { check!(it.next().is_some()); } } else if p > 0 { check!(it.nth(p - 1).is_some()); }
            check!(it.len() == n - p && count() == base + (n - p) * $per);
            match pick(4) {
                0 => drop(it),
                1 => check!(it.count() == n - p),
                2 => { let c = it.clone(); drop(it); let v: Vec<_> = c.collect(); check!(v.len() == n - p); for (j, x) in v.iter().enumerate() { check!(*x == ks[order[p + j]]); } }
                _ => { let x = it.last(); check!(x == Some(ks[order[n - 1]].clone())); }
            }
            check!(count() == base);
        }
        check!(heap() == h0);
        reach(12);
    }};
}
fn fset_large() {
    let (kit, ks) = SLfd::keys(LARGE);
    let base = count();
    let h0 = heap();
    {
        let s = kit.build(ks.clone());
        let c = s.clone();
        check!(count() == base + 2 * LARGE);
        let (a, b) = if any_bool() { (s, c) } else { (c, s) };
        drop(b);
        let mut n = 0;
        for x in a.iter() { x.alive(); n += 1; }
        check!(n == LARGE && count() == base + LARGE);
        for x in &ks { check!(a.contains(x)); }
    }
    check!(count() == base);
    check!(heap() == h0);
}
fn d_large(n: usize) -> (Tab, Vec<D>) { (tab((0..n + 1).map(|i| (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 17).collect()), (0..n).map(|i| made(i as u16)).collect()) }
kit!(Lfd, D, FrozenMap<D, V, Tab>, d_large, d_absent, |v, t| FrozenMap::from_vec_with_hasher(v, t));
kit!(Lcd, D, CommonMap<D, V, u16, Tab>, d_large, d_absent, |v, t| CommonMap::from_vec_with_hasher(v, t));
skit!(SLfd, D, FrozenSet<D, Tab>, d_large, d_absent, |v, t| FrozenSet::from_vec_with_hasher(v, t));
skit!(SLcd, D, CommonSet<D, u16, Tab>, d_large, d_absent, |v, t| CommonSet::from_vec_with_hasher(v, t));
skit!(SLsd, D, ScanningSet<D>, d_large, d_absent, |v, _| ScanningSet::from_vec(v));

harnesses! {
fn c18_large_fd() { large::<Lfd>(LARGE, 1) }
fn c18_large_fr() { large::<Lfr>(LARGE, 0) }
fn c18_large_fi() { large::<Lfi>(LARGE, 0) }
fn c18_large_fn() { large::<Lfn>(LARGE, 0) }
fn c18_large_fl() { large::<Lfl>(LARGE, 0) }
fn c18_large_ft() { large::<Lft>(LARGE, 0) }
fn c18_large_cd() { large::<Lcd>(LARGE, 1) }
fn c18_large_ri() { large::<Lri>(LARGE, 0) }
fn c18_large_own_c() { owned_large!(LARGE, 1, SLcd) }
fn c18_large_own_s() { owned_large!(LARGE, 1, SLsd) }
fn c18_large_own_i() { owned_large!(LARGE, 0, SLii) }
fn c18_large_own_ri() { owned_large!(LARGE, 0, SLri) }
fn c18_large_own_n() { owned_large!(LARGE, 0, SLnl) }
fn c18_large_own_l() { owned_large!(LARGE, 0, SLll) }
fn c18_large_own_r() { owned_large!(LARGE, 0, SLrl) }
fn c18_large_set() { fset_large() }
fn c18_fd1() { life::<Fd>(1, 1) }
fn c18_fd3() { life::<Fd>(3, 1) }
fn c18_fd4() { life::<Fd>(4, 1) }
fn c18_fr4() { life::<Fr>(4, 0) }
fn c18_fi4() { life::<Fi>(4, 0) }
fn c18_fn4() { life::<Fq>(4, 0) }
fn c18_fl4() { life::<Fl>(4, 0) }
fn c18_ft5() { life::<Ft>(5, 0) }
fn c18_cd2() { life::<Cd>(2, 1) }
fn c18_cd3() { life::<Cd>(3, 1) }
fn c18_ii3() { life::<Ii>(3, 0) }
fn c18_ri3() { life::<Ri>(3, 0) }
fn c18_nl3() { life::<Nl>(3, 0) }
fn c18_ll3() { life::<Ll>(3, 0) }
fn c18_rl5() { life::<Rl>(5, 0) }
fn c18_sd3() { life::<Sd>(3, 1) }
fn c18_dup_f() { dups::<Fd>(4) }
fn c18_dup_s() { dups::<Sd>(3) }
fn c18_own_c() { owned!(3, 1, SCd) }
fn c18_own_s() { owned!(3, 1, SSd) }
fn c18_own_s0() { owned!(0, 1, SSd) }
fn c18_own_c0() { owned!(0, 1, SCd) }
fn c18_own_n() { owned!(3, 0, SNl) }
fn c18_own_l() { owned!(3, 0, SLl) }
fn c18_own_r() { owned!(3, 0, SRl) }
fn c18_own_i() { owned!(3, 0, SIi) }
fn c18_own_ri() { owned!(3, 0, SRi) }
fn c18_set_fd3() { fset::<SFd>(3, 1) }
fn c18_set_fd4() { fset::<SFd>(4, 1) }
fn c18_set_fn() { fset::<SFn>(4, 0) }
fn c18_set_fl() { fset::<SFl>(4, 0) }
fn c18_set_ft() { fset::<SFt>(5, 0) }
fn c18_set_fr() { fset::<SFr>(4, 0) }
fn c18_set_fi() { fset::<SFi>(4, 0) }
fn c18_ops2() { ops(2) }
fn c18_ops3_t() { ops(3) }
fn c18_fd5_t() { life::<Fd>(5, 1) }
fn c18_cd5_t() { life::<Cd>(5, 1) }
fn c18_own_c5_t() { owned!(5, 1, SCd) }
fn c18_own_s5_t() { owned!(5, 1, SSd) }
fn c18_dup_f5_t() { dups::<Fd>(5) }
}
