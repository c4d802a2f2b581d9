//! C15: sizes and capacities.
use crate::com::*;

pub fn spread(i: usize) -> u64 { (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 17 }
fn sparse(i: usize) -> u32 { i as u32 * 7 + (i as u32 & 3) }
fn word(i: usize) -> String { format!("w{:03}", i) }
fn longer(i: usize) -> String { "x".repeat(i) }

macro_rules! probe {
    ($m:expr, $q:expr, $e:expr, $n:expr) => {{
        let (q, e) = ($q, $e);
        check!($m.len() == $n);
        check!($m.get(&q).copied() == e);
        check!($m.contains_key(&q) == e.is_some());
        match $m.get_key_value(&q) { Some((k, v)) => { check!(*k == q); check!(Some(*v) == e) } None => check!(e.is_none()) }
        if e.is_some() { reach(1) } else { reach(2) }
    }};
}
/// every key of a frozen map and set of n, and any other query
fn fk(n: usize, bits: u32) {
    let t = tab((0..n).map(spread).chain([any(bits)]).collect());
    let m = FrozenMap::from_vec_with_hasher(kv(n), t);
    let s = FrozenSet::from_vec_with_hasher(ks(n), t);
    let i = if any_bool() { pick(n as u64) } else { n };
    let e = if i < n { Some(val(i)) } else { None };
    probe!(m, qk(i), e, n);
    check!(s.len() == n && s.contains(&qk(i)) == (i < n));
}
fn fint(n: usize, f: fn(usize) -> u32, bits: u32) {
    let ks: Vec<u32> = (0..n).map(f).collect();
    let m: FrozenMap<u32, u16, Tab> = FrozenMap::from_vec_with_hasher(with_vals(ks.clone()), Tab(&[]));
    let s = FrozenSet::<u32, Tab>::from_vec_with_hasher(ks.clone(), Tab(&[]));
    let (q, e) = if any_bool() { let i = pick(n as u64); (ks[i], Some(val(i))) } else { let q = any(bits) as u32; (q, to_val(find_int(&ks, q))) };
    probe!(m, q, e, n);
    check!(s.len() == n && s.contains(&q) == e.is_some());
}
fn fstr(n: usize, f: fn(usize) -> String) {
    let ks: Vec<String> = (0..n).map(f).collect();
    let h = Lin { w: [1, 3, 7, 31], mask: u64::MAX };
    let m = FrozenMap::from_vec_with_hasher(with_vals(ks.clone()), h);
    let s = FrozenSet::from_vec_with_hasher(ks.clone(), h);
    let (q, e) = if any_bool() { let i = pick(n as u64); (ks[i].clone(), Some(val(i))) } else { let mut q = ks[n / 2].clone(); q.push('y'); (q, None) };
    probe!(m, q.clone(), e, n);
    check!(s.len() == n && s.contains(&q) == e.is_some());
}
/// a specialised collection of n when c fit: all keys are found, or building panics
macro_rules! cap {
    ($n:expr, $max:expr, $ks:expr, $map:expr, $set:expr) => {{
        let n: usize = $n;
        let ks = $ks;
        let set = any_bool();
        if n > $max { expect_panic(11); }
        if set {
            let s = $set(ks.clone());
            check!(n <= $max);
            check!(Len::len(&s) == n);
            let i = pick(n as u64);
            check!(s.contains(&ks[i]));
            reach(3);
        } else {
            let m = $map(with_vals(ks.clone()));
            check!(n <= $max);
            let i = pick(n as u64);
            probe!(m, ks[i].clone(), Some(val(i)), n);
            reach(4);
        }
    }};
}
/// hash codes for n keys: spread out, all equal, or in two groups
fn codes_of(n: usize) -> Tab { let how = pick(3); tab((0..n).map(|i| match how { 0 => spread(i), 1 => 5, _ => (i & 1) as u64 }).collect()) }
macro_rules! common { ($n:expr, $s:ty, $max:expr) => {{ let t = codes_of($n); cap!($n, $max, ks($n), |v| CommonMap::<K, u16, $s, Tab>::from_vec_with_hasher(v, t), |v| CommonSet::<K, $s, Tab>::from_vec_with_hasher(v, t)) }}; }
macro_rules! int { ($n:expr, $s:ty, $max:expr) => { cap!($n, $max, (0..$n).map(sparse).collect::<Vec<u32>>(), |v| IntegerMap::<u32, u16, $s>::from_vec(v), |v| IntegerSet::<u32, $s>::from_vec(v)) }; }
macro_rules! length { ($n:expr, $s:ty, $max:expr) => { cap!($n, $max, (0..$n).map(longer).collect::<Vec<String>>(), |v| LengthMap::<String, u16, $s>::from_vec(v), |v| LengthSet::<String, $s>::from_vec(v)) }; }
macro_rules! left { ($n:expr, $s:ty, $max:expr) => {{ let h = Lin { w: [1, 3, 7, 31], mask: u64::MAX }; cap!($n, $max, (0..$n).map(word).collect::<Vec<String>>(), |v| LeftSliceMap::<String, u16, $s, Lin>::from_vec_with_hasher(v, 1..4, h), |v| LeftSliceSet::<String, $s, Lin>::from_vec_with_hasher(v, 1..4, h)) }}; }
macro_rules! right { ($n:expr, $s:ty, $max:expr) => {{ let h = Lin { w: [1, 3, 7, 31], mask: u64::MAX }; cap!($n, $max, (0..$n).map(word).collect::<Vec<String>>(), |v| RightSliceMap::<String, u16, $s, Lin>::from_vec_with_hasher(v, 0..3, h), |v| RightSliceSet::<String, $s, Lin>::from_vec_with_hasher(v, 0..3, h)) }}; }
fn run(n: usize) { cap!(n, usize::MAX, (0..n).map(|i| i as i32 - 7).collect::<Vec<i32>>(), |v| IntegerRangeMap::<i32, u16>::from_vec(v), |v| IntegerRangeSet::<i32>::from_vec(v)) }
fn scan(n: usize) { cap!(n, usize::MAX, ks(n), |v| ScanningMap::<K, u16>::from_vec(v), |v| ScanningSet::<K>::from_vec(v)) }
/// around the limit of 16-bit indices, u32 keys: some keys and others are looked up
fn huge_u32(n: usize, step: u32) {
    let at = |i: usize| i as u32 * step + 3;
    let m: FrozenMap<u32, u32, Tab> = FrozenMap::from_vec_with_hasher((0..n).map(|i| (at(i), !(i as u32))).collect(), Tab(&[]));
    check!(m.len() == n);
    let i = [0, n / 2, 32768, 65532][pick(4)] + pick(6);
    let d = pick(2) as u32;
    let q = at(i) + d;
    let e = if i < n && d == 0 { Some(!(i as u32)) } else if step == 1 && i + 1 < n { Some(!(i as u32 + 1)) } else { None };
    check!(m.get(&q).copied() == e && m.contains_key(&q) == e.is_some());
    reach(5);
}
/// the same for keys with hash codes
fn huge_k(n: usize) {
    let t = tab((0..n).map(spread).collect());
    let m = FrozenMap::from_vec_with_hasher((0..n).map(|i| (sk(i), i as u32)).collect(), t);
    check!(m.len() == n);
    let i = [0, n / 2, 32768, n - 5][pick(4)] + pick(5);
    check!(m.get(&qk(i)) == Some(&(i as u32)) && m.contains_key(&qk(i)));
}
/// 65536 strings of two characters
fn words() -> Vec<String> { (0..65536u32).map(|i| { let mut s = String::with_capacity(4); s.push((1 + (i & 127) as u8) as char); s.push(char::from_u32(256 + (i >> 7)).unwrap()); s }).collect() }
/// one more than a 16-bit index holds
macro_rules! over {
    ($ks:expr, $map:expr, $set:expr) => {{
        let ks = $ks;
        check!(ks.len() == 65536);
        expect_panic(12);
        if any_bool() { let s = $set(ks); check!(false); drop(s); }
        else { let m = $map(ks.into_iter().map(|k| (k, 0u8)).collect::<Vec<_>>()); check!(false); drop(m); }
    }};
}
harnesses! {
fn c15_huge_i65536() { huge_u32(65536, 2) }
fn c15_huge_r65536() { huge_u32(65536, 1) }
fn c15_huge_i65535_t() { huge_u32(65535, 2) }
fn c15_huge_i70000_t() { huge_u32(70000, 3) }
fn c15_huge_k65535_t() { huge_k(65535) }
fn c15_huge_k65536_t() { huge_k(65536) }
fn c15_huge_over_c() { over!(ks(65536), |v| CommonMap::<K, u8, u16, Tab>::from_vec_with_hasher(v, Tab(&[])), |v| CommonSet::<K, u16, Tab>::from_vec_with_hasher(v, Tab(&[]))) }
fn c15_huge_over_i_t() { over!((0..65536).map(|i| sparse(i)).collect::<Vec<u32>>(), |v| IntegerMap::<u32, u8, u16>::from_vec(v), |v| IntegerSet::<u32, u16>::from_vec(v)) }
fn c15_huge_over_n_t() { over!(words(), |v| LengthMap::<String, u8, u16>::from_vec(v), |v| LengthSet::<String, u16>::from_vec(v)) }
fn c15_huge_over_l_t() { over!(words(), |v| LeftSliceMap::<String, u8, u16, Tab>::from_vec_with_hasher(v, 0..2, Tab(&[])), |v| LeftSliceSet::<String, u16, Tab>::from_vec_with_hasher(v, 0..2, Tab(&[]))) }
fn c15_huge_over_r_t() { over!(words(), |v| RightSliceMap::<String, u8, u16, Tab>::from_vec_with_hasher(v, 0..2, Tab(&[])), |v| RightSliceSet::<String, u16, Tab>::from_vec_with_hasher(v, 0..2, Tab(&[]))) }
fn c15_fk254() { fk(254, 10) }
fn c15_fk255() { fk(255, 10) }
fn c15_fk256() { fk(256, 10) }
fn c15_fk300() { fk(300, 10) }
fn c15_fi254() { fint(254, sparse, 10) }
fn c15_fi255() { fint(255, sparse, 10) }
fn c15_fi256() { fint(256, sparse, 10) }
fn c15_fi300() { fint(300, sparse, 10) }
fn c15_fr255() { fint(255, |i| i as u32 + 9, 32) }
fn c15_fr256() { fint(256, |i| i as u32 + 9, 32) }
fn c15_fr300() { fint(300, |i| i as u32 + 9, 32) }
fn c15_fs255() { fstr(255, word) }
fn c15_fs256() { fstr(256, word) }
fn c15_fn256() { fstr(256, longer) }
fn c15_c255() { common!(255, u8, 255) }
fn c15_c256() { common!(256, u8, 255) }
fn c15_c256w() { common!(256, u16, 65535) }
fn c15_i255() { int!(255, u8, 255) }
fn c15_i256() { int!(256, u8, 255) }
fn c15_i300w() { int!(300, u16, 65535) }
fn c15_n255() { length!(255, u8, 255) }
fn c15_n256() { length!(256, u8, 255) }
fn c15_l255() { left!(255, u8, 255) }
fn c15_l256() { left!(256, u8, 255) }
fn c15_l300() { left!(300, u8, 255) }
fn c15_r255() { right!(255, u8, 255) }
fn c15_r256() { right!(256, u8, 255) }
fn c15_run() { run(300) }
fn c15_scan() { scan(260) }
fn c15_fk257_t() { fk(257, 12) }
fn c15_fk512_t() { fk(512, 12) }
fn c15_fk1000_t() { fk(1000, 12) }
fn c15_fi512_t() { fint(512, sparse, 12) }
fn c15_fi1000_t() { fint(1000, sparse, 13) }
fn c15_fs300_t() { fstr(300, word) }
fn c15_fs1000_t() { fstr(1000, word) }
fn c15_fn300_t() { fstr(300, longer) }
fn c15_c300_t() { common!(300, u8, 255) }
fn c15_c1000w_t() { common!(1000, u16, 65535) }
fn c15_i512_t() { int!(512, u8, 255) }
fn c15_n300_t() { length!(300, u16, 65535) }
fn c15_l300w_t() { left!(300, u16, 65535) }
fn c15_r300w_t() { right!(300, usize, usize::MAX) }
}
