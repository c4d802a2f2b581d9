//! C16: changing values.
use crate::com::*;

fn same<T: Kit<u16>>(m: &mut T::Map, ks: &[T::Key], v: &[u16], order: &[usize]) {
    let n = ks.len();
    check!(T::len(m) == n);
    for i in 0..n {
        observe(v[i] as u64);
        check!(T::get(m, &ks[i]) == Some(&v[i]));
        check!(T::contains_key(m, &ks[i]));
        match T::get_key_value(m, &ks[i]) { Some((k, x)) => { check!(*k == ks[i]); check!(*x == v[i]) } None => check!(false) }
        check!(*T::index(m, ks[i].clone()) == v[i]);
        check!(T::get_mut(m, &ks[i]).map(|x| *x) == Some(v[i]));
    }
    let (mut a, mut b, mut c) = (T::iter(m), T::keys_of(m), T::values_of(m));
    for &i in order {
        match a.next() { Some((k, x)) => { check!(*k == ks[i]); check!(*x == v[i]) } None => check!(false) }
        match b.next() { Some(k) => check!(*k == ks[i]), None => check!(false) }
        match c.next() { Some(x) => check!(*x == v[i]), None => check!(false) }
    }
    check!(a.next().is_none() && b.next().is_none() && c.next().is_none());
}
/// any sequence of writes of arbitrary values through the three ways of writing
fn seq<T: Kit<u16>>(n: usize, steps: usize) {
    let (kit, ks) = T::keys(n);
    let mut m = kit.build(entries_of(&ks, val));
    let mut v: Vec<u16> = (0..n).map(val).collect();
    let order: Vec<usize> = T::values_of(&m).map(|x| *x as usize - 100).collect();
    let no = kit.absent(&ks);
    for _ in 0..steps {
        let x = any_u16();
        match pick(4) {
            0 => { let i = pick(n as u64); match T::get_mut(&mut m, &ks[i]) { Some(r) => { check!(*r == v[i]); *r = x } None => check!(false) } v[i] = x; reach(1); }
            1 => { let i = pick(n as u64); *T::index_mut(&mut m, ks[i].clone()) = x; v[i] = x; reach(2); }
            2 => {
                let (i, j) = (pick(n as u64), pick(n as u64));
                let y = any_u16();
                match T::many(&mut m, [&ks[i], &ks[j]]) {
                    Some([p, q]) => { check!(i != j); *p = x; *q = y; v[i] = x; v[j] = y; }
                    None => check!(i == j),
                }
                reach(3);
            }
            _ => { check!(T::get_mut(&mut m, &no).is_none()); check!(T::many(&mut m, [&no, &ks[0]]).is_none()); reach(4); }
        }
    }
    same::<T>(&mut m, &ks, &v, &order);
    check!(T::get(&m, &no).is_none());
}
/// one write in a large map
fn big(n: usize) {
    let t = tab((0..n).map(|i| (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 17).collect());
    let mut m = FrozenMap::from_vec_with_hasher(kv(n), t);
    let i = pick(n as u64);
    let x = any_u16();
    match pick(2) { 0 => *m.get_mut(&qk(i)).unwrap() = x, _ => m[qk(i)] = x }
    for j in 0..n { check!(m.get(&qk(j)) == Some(&if i == j { x } else { val(j) })); }
    reach(5);
}
/// one or two writes among some hundreds of entries
fn large<T: Kit<u16>>(n: usize) {
    let (kit, ks) = T::keys(n);
    let mut m = kit.build(entries_of(&ks, val));
    let order: Vec<usize> = T::values_of(&m).map(|x| *x as usize - 100).collect();
    let mut v: Vec<u16> = (0..n).map(val).collect();
    let i = place(n);
    let x = any_u16();
    match pick(3) {
        0 => *T::get_mut(&mut m, &ks[i]).unwrap() = x,
        1 => *T::index_mut(&mut m, ks[i].clone()) = x,
        _ => match T::many(&mut m, [&ks[2], &ks[i]]) { Some([a, b]) => { *a = 5; *b = x; v[2] = 5; } None => check!(false) },
    }
    v[i] = x;
    same::<T>(&mut m, &ks, &v, &order);
    reach(6);
}
harnesses! {
fn c16_large_fk() { large::<Lfk>(LARGE) }
fn c16_large_fr() { large::<Lfr>(LARGE) }
fn c16_large_fi() { large::<Lfi>(LARGE) }
fn c16_large_fn() { large::<Lfn>(LARGE) }
fn c16_large_fl() { large::<Lfl>(LARGE) }
fn c16_large_ft() { large::<Lft>(LARGE) }
fn c16_large_ck() { large::<Lck>(LARGE) }
fn c16_large_ii() { large::<Lii>(LARGE) }
fn c16_large_ri() { large::<Lri>(LARGE) }
fn c16_large_nl() { large::<Lnl>(LARGE) }
fn c16_large_ll() { large::<Lll>(LARGE) }
fn c16_large_rl() { large::<Lrl>(LARGE) }
fn c16_large_sk() { large::<Lsk>(LARGE) }
fn c16_fk3() { seq::<Fk>(3, 2) }
fn c16_fk4() { seq::<Fk>(4, 1) }
fn c16_fr() { seq::<Fr>(4, 2) }
fn c16_fi() { seq::<Fi>(4, 1) }
fn c16_fn() { seq::<Fq>(4, 1) }
fn c16_fl() { seq::<Fl>(4, 1) }
fn c16_ft() { seq::<Ft>(5, 1) }
fn c16_ck() { seq::<Ck>(3, 1) }
fn c16_ii() { seq::<Ii>(4, 1) }
fn c16_ri() { seq::<Ri>(3, 2) }
fn c16_nl() { seq::<Nl>(4, 1) }
fn c16_ll() { seq::<Ll>(4, 1) }
fn c16_rl() { seq::<Rl>(5, 1) }
fn c16_sk() { seq::<Sk>(3, 2) }
fn c16_255() { big(255) }
fn c16_256() { big(256) }
fn c16_fk4_t() { seq::<Fk>(4, 2) }
fn c16_fr_t() { seq::<Fr>(5, 3) }
fn c16_fi_t() { seq::<Fi>(5, 2) }
fn c16_fn_t() { seq::<Fq>(4, 2) }
fn c16_fl_t() { seq::<Fl>(4, 2) }
fn c16_ck_t() { seq::<Ck>(3, 2) }
fn c16_ii_t() { seq::<Ii>(5, 2) }
fn c16_ri_t() { seq::<Ri>(4, 3) }
fn c16_nl_t() { seq::<Nl>(4, 2) }
fn c16_ll_t() { seq::<Ll>(4, 2) }
fn c16_rl_t() { seq::<Rl>(5, 2) }
fn c16_sk_t() { seq::<Sk>(4, 3) }
}
