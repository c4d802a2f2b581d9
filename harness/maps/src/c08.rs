//! C08: maps and sets that hash a left- or right-justified range of their keys.
use crate::com::*;

/// a key type of the user's, whose bytes may be any, with a hash that can only be given a proper range
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct By(pub Vec<u8>);
impl Len for By {
    fn len(&self) -> usize { self.0.len() }
}
impl SliceHash for By {
    fn hash<BH: BuildHasher>(&self, bh: &BH, r: std::ops::Range<usize>) -> u64 { let mut h = bh.build_hasher(); h.write(&self.0[r]); h.finish() }
}
pub trait Bytes: Clone + PartialEq + Eq + SliceHash + Len {
    fn mk(v: Vec<u8>) -> Self;
}
impl Bytes for By { fn mk(v: Vec<u8>) -> By { By(v) } }
impl Bytes for String { fn mk(v: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(v) } } }

fn raw(n: usize, bits: u32) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n { v.push(if bits >= 7 { any(bits) as u8 } else { b'a' + any(bits) as u8 }); }
    v
}
macro_rules! side {
    ($f:ident, $g:ident, $map:ident, $set:ident) => {
        /// distinct arbitrary keys of these lengths; a query of any length; any range within 0..=end
        fn $f<T: Bytes>(lens: &[usize], bits: u32, end: usize, h: Lin) {
            let e = pick(end as u64 + 1);
            let s = pick(e as u64 + 1);
            $g::<T>(lens, bits, s..e, h)
        }
        fn $g<T: Bytes>(lens: &[usize], bits: u32, r: std::ops::Range<usize>, h: Lin) {
            let keys: Vec<Vec<u8>> = lens.iter().map(|&l| raw(l, bits)).collect();
            distinct_bytes(&keys);
            let ks: Vec<T> = keys.iter().map(|k| T::mk(k.clone())).collect();
            let mut m = $map::<T, u16, u8, Lin>::from_vec_with_hasher(with_vals(ks.clone()), r.clone(), h);
            let s = $set::<T, u8, Lin>::from_vec_with_hasher(ks, r, h);
            let q = raw(pick(*lens.iter().max().unwrap_or(&0) as u64 + 2), bits);
            let e = to_val(find_bytes(&keys, &q));
            let q = T::mk(q);
            lookups!(m, &q, e, |_: &T| true);
            check!(Len::len(&m) == lens.len());
            check!(s.contains(&q) == e.is_some());
            check!(Set::contains(&s, &q) == e.is_some());
            match s.get(&q) { Some(k) => { check!(e.is_some()); check!(*k == q); } None => check!(e.is_none()) }
            check!(Len::len(&s) == lens.len());
            if e.is_some() { reach(1) } else { reach(2) }
        }
    };
}
side!(left, left_at, LeftSliceMap, LeftSliceSet);
side!(right, right_at, RightSliceMap, RightSliceSet);

/// many keys; a query is one of them, one with a character changed, cut or added, or a very short one
macro_rules! big {
    ($map:ident, $set:ident, $n:expr, $r:expr, $f:expr) => {{
        let n: usize = $n;
        let f: fn(usize) -> String = $f;
        let keys: Vec<String> = (0..n).map(f).collect();
        let b = bytes_of(&keys);
        let h = Lin { w: [1, 3, 7, 31], mask: u64::MAX };
        let mut m = $map::<String, u16, u16, Lin>::from_vec_with_hasher(with_vals(keys.clone()), $r, h);
        let s = $set::<String, u16, Lin>::from_vec_with_hasher(keys.clone(), $r, h);
        let (q, e) = if any_bool() {
            let i = pick(n as u64);
            (keys[i].clone(), Some(val(i)))
        } else {
            let mut q = keys[pick(3) * (n / 3)].clone().into_bytes();
            match pick(4) {
                0 => { q.pop(); }
                1 => q.push(b'0' | any(3) as u8),
                2 => { let l = q.len(); q.truncate(pick(3).min(l)); }
                _ => { let i = pick(q.len() as u64); q[i] = q[i] & 0xF0 | any(4) as u8; }
            }
            let e = to_val(find_bytes(&b, &q));
            (unsafe { String::from_utf8_unchecked(q) }, e)
        };
        lookups!(m, &q, e, |_: &String| true);
        check!(Len::len(&m) == n);
        check!(s.contains(&q) == e.is_some());
        check!(s.get(&q).is_some() == e.is_some());
        if e.is_some() { reach(1) } else { reach(2) }
    }};
}
fn dec(i: usize) -> String { format!("key{:02}x{}", i, "yz".repeat(i % 3)) }
/// the range reaches past every length there is
macro_rules! far {
    ($map:ident, $set:ident) => {{
        let e = [5usize, 1 << 32, usize::MAX - 1, usize::MAX][pick(4)];
        let s = [0, 4, e][pick(3)].min(e);
        let keys: Vec<String> = (0..4).map(|i| sstr(i, 1)).collect();
        let b = bytes_of(&keys);
        let mut m = $map::<String, u16, u8, Lin>::from_vec_with_hasher(with_vals(keys.clone()), s..e, Lin::default());
        let t = $set::<String, u8, Lin>::from_vec_with_hasher(keys, s..e, Lin::default());
        let q = sstr(pick(5), 1);
        let x = to_val(find_bytes(&b, q.as_bytes()));
        lookups!(m, &q, x, |_: &String| true);
        check!(t.contains(&q) == x.is_some());
        reach(3);
    }};
}
const L1: Lin = Lin { w: [1; 4], mask: u64::MAX };
fn lw(mask: u64) -> Lin { Lin { w: [any_u8(), any_u8(), 1, 1], mask } }
/// concrete keys of hundreds of characters
macro_rules! longs {
    ($map:ident, $set:ident, $keys:expr, $r:expr, $at:expr) => {{
        let keys: Vec<String> = $keys;
        let b = bytes_of(&keys);
        let h = Lin { w: [1, 3, 7, 31], mask: u64::MAX };
        let mut m = $map::<String, u16, u16, Lin>::from_vec_with_hasher(with_vals(keys.clone()), $r, h);
        let s = $set::<String, u8, Lin>::from_vec_with_hasher(keys.clone(), $r, h);
        let q = long_query(&keys, $at);
        let e = to_val(find_bytes(&b, q.as_bytes()));
        lookups!(m, &q, e, |_: &String| true);
        check!(s.contains(&q) == e.is_some() && s.get(&q).is_some() == e.is_some());
        if e.is_some() { reach(1) } else { reach(2) }
    }};
}
/// every key of a map of some hundreds, and others
fn large<T: Kit<u16>>(n: usize) {
    let (kit, ks) = T::keys(n);
    let mut m = kit.build(entries_of(&ks, val));
    let i = place(n);
    *T::get_mut(&mut m, &ks[i]).unwrap() = 7;
    for (j, k) in ks.iter().enumerate() {
        let v = if i == j { 7 } else { val(j) };
        check!(T::get(&m, k) == Some(&v) && T::contains_key(&m, k));
        match T::get_key_value(&m, k) { Some((x, y)) => check!(x == k && *y == v), None => check!(false) }
    }
    check!(T::len(&m) == n);
    let q = kit.absent(&ks);
    check!(T::get(&m, &q).is_none() && !T::contains_key(&m, &q) && T::get_key_value(&m, &q).is_none() && T::get_mut(&mut m, &q).is_none());
    reach(8);
}
fn large_set<T: SKit>(n: usize) {
    let (kit, ks) = T::keys(n);
    let s = kit.build(ks.clone());
    for k in &ks { check!(T::contains(&s, k)); match T::get(&s, k) { Some(x) => check!(x == k), None => check!(false) } }
    check!(Len::len(&s) == n);
    let q = kit.absent(&ks);
    check!(!T::contains(&s, &q) && T::get(&s, &q).is_none());
    reach(9);
}
harnesses! {
fn c08_large_ll() { large::<Lll>(LARGE) }
fn c08_large_sll() { large_set::<SLll>(LARGE) }
fn c08_large_rl() { large::<Lrl>(LARGE) }
fn c08_large_srl() { large_set::<SLrl>(LARGE) }
fn c08_l0() { left::<String>(&[], 2, 2, L1) }
fn c08_r0() { right::<String>(&[], 2, 2, L1) }
fn c08_l1() { left::<String>(&[2], 7, 3, L1) }
fn c08_r1() { right::<String>(&[2], 7, 3, L1) }
fn c08_l2() { left::<String>(&[1, 2], 7, 3, L1) }
fn c08_r2() { right::<String>(&[1, 2], 7, 3, L1) }
fn c08_l222() { left::<String>(&[2, 2, 2], 1, 3, L1) }
fn c08_r222() { right::<String>(&[2, 2, 2], 1, 3, L1) }
fn c08_l0123() { left::<String>(&[0, 1, 2, 3], 1, 4, L1) }
fn c08_r0123() { right::<String>(&[0, 1, 2, 3], 1, 4, L1) }
fn c08_l312() { left::<String>(&[3, 1, 2], 1, 3, L1) }
fn c08_r312() { right::<String>(&[3, 1, 2], 1, 3, L1) }
fn c08_lw() { left::<String>(&[2, 2], 1, 2, lw(7)) }
fn c08_rw() { right::<String>(&[2, 2], 1, 2, lw(7)) }
fn c08_lby() { left::<By>(&[1, 2], 8, 3, L1) }
fn c08_rby() { right::<By>(&[1, 2], 8, 3, L1) }
fn c08_lby3() { left::<By>(&[1, 3, 2], 1, 4, L1) }
fn c08_rby3() { right::<By>(&[1, 3, 2], 1, 4, L1) }
fn c08_lfar() { far!(LeftSliceMap, LeftSliceSet) }
fn c08_rfar() { far!(RightSliceMap, RightSliceSet) }
fn c08_l40() { big!(LeftSliceMap, LeftSliceSet, 40, 3..5, dec) }
fn c08_l40b() { big!(LeftSliceMap, LeftSliceSet, 40, 4..7, dec) }
fn c08_r40() { big!(RightSliceMap, RightSliceSet, 40, 1..3, dec) }
fn c08_r40b() { big!(RightSliceMap, RightSliceSet, 40, 0..7, dec) }
fn c08_long_l() { longs!(LeftSliceMap, LeftSliceSet, (0..5).map(|i| lkey(300, 280, b'b' + i as u8)).collect(), 279..282, &[0, 24, 280, 299]) }
fn c08_long_l2() { longs!(LeftSliceMap, LeftSliceSet, (0..5).map(|i| lkey([0, 4, 256, 300, 515][i], 0, b'b')).collect(), 254..258, &[0, 3, 255, 299]) }
fn c08_long_r() { longs!(RightSliceMap, RightSliceSet, (0..5).map(|i| lkey(290 + i, 285 + i, b'b' + i as u8)).collect(), 3..6, &[0, 29, 30, 285, 288]) }
fn c08_long_r2() { longs!(RightSliceMap, RightSliceSet, (0..5).map(|i| lkey([0, 4, 256, 300, 515][i], 0, b'b')).collect(), 284..288, &[0, 3, 255, 299]) }
fn c08_l3333_t() { left::<String>(&[3, 3, 3, 3], 1, 4, L1) }
fn c08_l222_t() { left::<String>(&[2, 2, 2], 2, 3, L1) }
fn c08_r222_t() { right::<String>(&[2, 2, 2], 2, 3, L1) }
fn c08_l312_t() { left::<String>(&[3, 1, 2], 2, 3, L1) }
fn c08_r312_t() { right::<String>(&[3, 1, 2], 2, 3, L1) }
fn c08_r3333_t() { right::<String>(&[3, 3, 3, 3], 1, 4, L1) }
fn c08_l4_t() { left::<String>(&[4, 3, 2], 3, 5, L1) }
fn c08_r4_t() { right::<String>(&[4, 3, 2], 3, 5, L1) }
fn c08_lw3_t() { left::<String>(&[2, 2, 2], 2, 2, lw(15)) }
fn c08_rw3_t() { right::<String>(&[2, 2, 2], 2, 2, lw(15)) }
fn c08_lby4_t() { left::<By>(&[1, 2, 2, 3], 2, 3, L1) }
fn c08_rby4_t() { right::<By>(&[1, 2, 2, 3], 2, 3, L1) }
fn c08_l300_t() { big!(LeftSliceMap, LeftSliceSet, 300, 3..6, dec) }
fn c08_r300_t() { big!(RightSliceMap, RightSliceSet, 300, 1..4, dec) }
}
