//! Keys, hashers and oracles shared by the harnesses.
pub use frozen_collections_core::facades::*;
pub use frozen_collections_core::specialized_maps::*;
pub use frozen_collections_core::specialized_sets::*;
// (the sets have an Iter too)
pub use frozen_collections_core::specialized_maps::{Iter, Keys, Values};
pub use frozen_collections_core::traits::len::Len;
pub use frozen_collections_core::traits::slice_hash::SliceHash;
pub use std::hash::{BuildHasher, Hash, Hasher};
pub use vs::*;

/// A key: equality and hash depend on `id` only; `tag` tells the stored instance from a query.
#[derive(Clone, Copy, Debug)]
pub struct K {
    pub id: u16,
    pub tag: u8,
}
pub const STORED: u8 = 1;
pub const QUERY: u8 = 2;
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool { self.id == o.id }
}
impl Eq for K {}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) }
}
impl Ord for K {
    fn cmp(&self, o: &K) -> std::cmp::Ordering { self.id.cmp(&o.id) }
}
impl Hash for K {
    fn hash<H: Hasher>(&self, h: &mut H) { h.write_u16(self.id) }
}
pub fn sk(i: usize) -> K { K { id: i as u16, tag: STORED } }
pub fn qk(i: usize) -> K { K { id: i as u16, tag: QUERY } }

/// A hasher given by a table from key id to hash code.
#[derive(Clone, Copy)]
pub struct Tab(pub &'static [u64]);
pub struct TabH(&'static [u64], u64);
impl Default for Tab {
    fn default() -> Tab { Tab(&[]) }
}
impl BuildHasher for Tab {
    type Hasher = TabH;
    fn build_hasher(&self) -> TabH { TabH(self.0, 0) }
}
impl Hasher for TabH {
    fn write(&mut self, b: &[u8]) { for &x in b { self.1 = self.1.wrapping_mul(31).wrapping_add(x as u64) } }
    fn write_u16(&mut self, i: u16) { self.1 = if (i as usize) < self.0.len() { self.0[i as usize] } else { 0 } }
    fn finish(&self) -> u64 { self.1 }
}
pub fn tab(codes: Vec<u64>) -> Tab { Tab(Box::leak(codes.into_boxed_slice())) }
/// n arbitrary codes of the given width
pub fn codes(n: usize, bits: u32) -> Vec<u64> { let mut v = Vec::with_capacity(n + 1); for _ in 0..n { v.push(any(bits)); } v }

pub fn val(i: usize) -> u16 { 100 + i as u16 }
/// the entries (K 0, 100), (K 1, 101), ..
pub fn kv(n: usize) -> Vec<(K, u16)> { let mut v = Vec::with_capacity(n); for i in 0..n { v.push((sk(i), val(i))); } v }
pub fn ks(n: usize) -> Vec<K> { let mut v = Vec::with_capacity(n); for i in 0..n { v.push(sk(i)); } v }

/// all the ways to look up `q` agree with the expected entry (`exp`: Option<(key, value)>); the stored key satisfies `own`
#[macro_export]
macro_rules! lookups {
    ($m:expr, $q:expr, $exp:expr, $own:expr) => {{
        let q = $q;
        let exp = $exp;
        let own = $own;
        let g = $m.get(q).copied();
        observe(match g { Some(v) => v as u64, None => u64::MAX });
        check!(g == exp);
        check!($m.contains_key(q) == exp.is_some());
        match $m.get_key_value(q) {
            Some((k, v)) => { check!(Some(*v) == exp); check!(k == q); check!(own(k)); }
            None => check!(exp.is_none()),
        }
        check!($m.get_mut(q).map(|v| *v) == exp);
    }};
}

/// A hasher that mixes the bytes it is given linearly: code = (sum of w[i] * byte[i]) & mask, and adds the
/// number of bytes; `w` may be symbolic, so that every such hash function is covered at once.
#[derive(Clone, Copy)]
pub struct Lin {
    pub w: [u8; 4],
    pub mask: u64,
}
impl Default for Lin {
    fn default() -> Lin { Lin { w: [1; 4], mask: u64::MAX } }
}
pub struct LinH(Lin, u64, usize);
impl BuildHasher for Lin {
    type Hasher = LinH;
    fn build_hasher(&self) -> LinH { LinH(*self, 0, 0) }
}
impl Hasher for LinH {
    fn write(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            let w = self.0.w[self.2 & 3] as u64;
            self.1 = self.1.wrapping_add(if w == 1 { b[i] as u64 } else { (b[i] as u64).wrapping_mul(w) });
            self.2 += 1;
            i += 1;
        }
    }
    fn write_u8(&mut self, _: u8) {}
    fn write_usize(&mut self, _: usize) {}
    fn finish(&self) -> u64 { self.1 & self.0.mask }
}

// ---------------------------------------------------------------- strings

/// a string of n arbitrary characters, each one of 2^bits ('\0'.. for 7 bits, 'a'.. for fewer)
pub fn sstr(n: usize, bits: u32) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n { v.push(if bits >= 7 { any(7) as u8 } else { b'a' + any(bits) as u8 }); }
    unsafe { String::from_utf8_unchecked(v) }
}
/// equality without branches on the contents
pub fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d == 0
}
/// the index of the string equal to q, plus 1; 0 if there is none (the keys are distinct)
pub fn find_bytes(keys: &[Vec<u8>], q: &[u8]) -> u64 {
    let mut e = 0u64;
    for (i, k) in keys.iter().enumerate() { e |= (same_bytes(k, q) as u64).wrapping_neg() & (i as u64 + 1); }
    e
}
/// the same for integers
pub fn find_int<T: Copy + PartialEq>(keys: &[T], q: T) -> u64 {
    let mut e = 0u64;
    for (i, k) in keys.iter().enumerate() { e |= ((*k == q) as u64).wrapping_neg() & (i as u64 + 1); }
    e
}
pub fn distinct_ints<T: Copy + PartialEq>(keys: &[T]) {
    let mut ok = true;
    for i in 0..keys.len() { for j in 0..i { ok &= keys[i] != keys[j]; } }
    assume(ok);
}
pub fn distinct_bytes(keys: &[Vec<u8>]) {
    let mut ok = true;
    for i in 0..keys.len() { for j in 0..i { ok &= !same_bytes(&keys[i], &keys[j]); } }
    assume(ok);
}
pub fn to_val(e: u64) -> Option<u16> { if e == 0 { None } else { Some(100 + (e as u16 - 1)) } }
pub fn bytes_of(v: &[String]) -> Vec<Vec<u8>> { v.iter().map(|s| s.as_bytes().to_vec()).collect() }
pub fn with_vals<T>(v: Vec<T>) -> Vec<(T, u16)> { v.into_iter().enumerate().map(|(i, k)| (k, val(i))).collect() }

// ---------------------------------------------------------------- kinds of maps

/// One kind of map: how to make its keys, how to build it, and its methods under common names.
pub trait Kit<V>: Sized {
    type Key: Clone + PartialEq + std::fmt::Debug;
    type Map: Clone + PartialEq + std::fmt::Debug;
    /// n distinct keys (partly arbitrary)
    fn keys(n: usize) -> (Self, Vec<Self::Key>);
    /// a key that is none of those
    fn absent(&self, ks: &[Self::Key]) -> Self::Key;
    fn build(&self, v: Vec<(Self::Key, V)>) -> Self::Map;
    /// the same with another hash function, where there is one
    fn alt(&self) -> Self;
    fn len(m: &Self::Map) -> usize;
    fn get<'a>(m: &'a Self::Map, k: &Self::Key) -> Option<&'a V>;
    fn get_mut<'a>(m: &'a mut Self::Map, k: &Self::Key) -> Option<&'a mut V>;
    fn get_key_value<'a>(m: &'a Self::Map, k: &Self::Key) -> Option<(&'a Self::Key, &'a V)>;
    fn contains_key(m: &Self::Map, k: &Self::Key) -> bool;
    fn many<'a, const N: usize>(m: &'a mut Self::Map, k: [&Self::Key; N]) -> Option<[&'a mut V; N]>;
    fn index(m: &Self::Map, k: Self::Key) -> &V;
    fn index_mut(m: &mut Self::Map, k: Self::Key) -> &mut V;
    fn iter(m: &Self::Map) -> Iter<'_, Self::Key, V>;
    fn iter_ref(m: &Self::Map) -> Iter<'_, Self::Key, V>;
    fn keys_of(m: &Self::Map) -> Keys<'_, Self::Key, V>;
    fn values_of(m: &Self::Map) -> Values<'_, Self::Key, V>;
}

macro_rules! kit {
    ($name:ident, $key:ty, $map:ty, $keys:expr, $absent:expr, $build:expr) => {
        pub struct $name(pub Tab);
        impl<V: Clone + PartialEq + std::fmt::Debug> Kit<V> for $name {
            type Key = $key;
            type Map = $map;
            fn keys(n: usize) -> (Self, Vec<$key>) { let f: fn(usize) -> (Tab, Vec<$key>) = $keys; let (t, k) = f(n); ($name(t), k) }
            fn absent(&self, ks: &[$key]) -> $key { let f: fn(&[$key]) -> $key = $absent; f(ks) }
            fn build(&self, v: Vec<($key, V)>) -> $map { let f: fn(Vec<($key, V)>, Tab) -> $map = $build; f(v, self.0) }
            fn alt(&self) -> Self { $name(if self.0.0.is_empty() { self.0 } else { tab((0..self.0.0.len() as u64).map(|i| i * 3 + 1 & 3).collect()) }) }
            fn len(m: &$map) -> usize { m.len() }
            fn get<'a>(m: &'a $map, k: &$key) -> Option<&'a V> { m.get(k) }
            fn get_mut<'a>(m: &'a mut $map, k: &$key) -> Option<&'a mut V> { m.get_mut(k) }
            fn get_key_value<'a>(m: &'a $map, k: &$key) -> Option<(&'a $key, &'a V)> { m.get_key_value(k) }
            fn contains_key(m: &$map, k: &$key) -> bool { m.contains_key(k) }
            fn many<'a, const N: usize>(m: &'a mut $map, k: [&$key; N]) -> Option<[&'a mut V; N]> { m.get_many_mut(k) }
            fn index(m: &$map, k: $key) -> &V { &m[k] }
            fn index_mut(m: &mut $map, k: $key) -> &mut V { &mut m[k] }
            fn iter(m: &$map) -> Iter<'_, $key, V> { m.iter() }
            fn iter_ref(m: &$map) -> Iter<'_, $key, V> { m.into_iter() }
            fn keys_of(m: &$map) -> Keys<'_, $key, V> { m.keys() }
            fn values_of(m: &$map) -> Values<'_, $key, V> { m.values() }
        }
    };
}

/// keys of type K with arbitrary 2-bit hash codes (there is one more code, for an absent key)
pub fn k_keys(n: usize) -> (Tab, Vec<K>) { (tab(codes(n + 1, 2)), ks(n)) }
fn k_absent(k: &[K]) -> K { qk(k.len()) }
/// a run of integers that starts anywhere
pub fn u32_run(n: usize) -> (Tab, Vec<u32>) {
    let b = any_u32();
    assume(b <= u32::MAX - n as u32);
    (Tab(&[]), (0..n).map(|i| b + i as u32).collect())
}
fn u32_run_absent(k: &[u32]) -> u32 { k[0] + k.len() as u32 }
pub fn i16_run(n: usize) -> (Tab, Vec<i16>) {
    let b = any_u16() as i16;
    assume(b <= i16::MAX - n as i16);
    (Tab(&[]), (0..n).map(|i| b + i as i16).collect())
}
fn i16_run_absent(k: &[i16]) -> i16 { k[0] + k.len() as i16 }
/// sparse integers, the last one arbitrary
pub fn u32_sparse(n: usize) -> (Tab, Vec<u32>) {
    let mut v: Vec<u32> = (0..n).map(|i| (i * i * 5 + 2) as u32).collect();
    if n > 0 { v[n - 1] = 1000 + any(5) as u32 * 3; }
    (Tab(&[]), v)
}
fn u32_sparse_absent(k: &[u32]) -> u32 { 11 }
pub fn i32_sparse(n: usize) -> (Tab, Vec<i32>) {
    let mut v: Vec<i32> = (0..n).map(|i| (i * i * 5) as i32 - 40).collect();
    if n > 0 { v[n - 1] = i32::MIN + any(5) as i32; }
    (Tab(&[]), v)
}
fn i32_sparse_absent(k: &[i32]) -> i32 { 11 }
/// strings of different lengths, the first character arbitrary
pub fn str_lens(n: usize) -> (Tab, Vec<String>) {
    (Tab(&[]), (0..n).map(|i| { let mut s = sstr(1, 2); for _ in 0..i { s.push('x'); } s }).collect())
}
/// the same, but the last two of the same length
pub fn str_lens2(n: usize) -> (Tab, Vec<String>) {
    let (t, mut v) = str_lens(n);
    if n > 2 { let mut s = v[n - 2].clone(); s.pop(); s.push('y'); v[n - 1] = s; }
    (t, v)
}
pub fn str_absent(k: &[String]) -> String { "xy".to_string() }
/// strings of the same length, told apart by the character in the middle; the last one has an arbitrary end
pub fn str_left(n: usize) -> (Tab, Vec<String>) {
    (Tab(&[]), (0..n).map(|i| { let mut s = String::from("k"); s.push((b'0' + i as u8) as char); s.push(if i == n - 1 { (b'a' + any(3) as u8) as char } else { 'c' }); s }).collect())
}
/// strings of two lengths told apart by the last but one character, four of each length or more
pub fn str_right(n: usize) -> (Tab, Vec<String>) {
    (Tab(&[]), (0..n).map(|i| { let mut s = String::from(if i % 5 == 4 { "kkk" } else { "kk" }); s.push((b'0' + i as u8) as char); s.push(if i == 0 { (b'a' + any(3) as u8) as char } else { 'c' }); s }).collect())
}
pub fn str_other(k: &[String]) -> String { if any_bool() { "k~c".to_string() } else { "k".to_string() } }

kit!(Fk, K, FrozenMap<K, V, Tab>, k_keys, k_absent, |v, t| FrozenMap::from_vec_with_hasher(v, t));
kit!(Fr, u32, FrozenMap<u32, V, Tab>, u32_run, u32_run_absent, |v, t| FrozenMap::from_vec_with_hasher(v, t));
kit!(Fi, u32, FrozenMap<u32, V, Tab>, u32_sparse, u32_sparse_absent, |v, t| FrozenMap::from_vec_with_hasher(v, t));
kit!(Fq, String, FrozenMap<String, V, Tab>, str_lens, str_absent, |v, t| FrozenMap::from_vec_with_hasher(v, t));
kit!(Fl, String, FrozenMap<String, V, Tab>, str_left, str_other, |v, t| FrozenMap::from_vec_with_hasher(v, t));
kit!(Ft, String, FrozenMap<String, V, Tab>, str_right, str_other, |v, t| FrozenMap::from_vec_with_hasher(v, t));
kit!(Ck, K, CommonMap<K, V, u8, Tab>, k_keys, k_absent, |v, t| CommonMap::from_vec_with_hasher(v, t));
kit!(Ii, i32, IntegerMap<i32, V, u16>, i32_sparse, i32_sparse_absent, |v, _| IntegerMap::from_vec(v));
kit!(Ri, i16, IntegerRangeMap<i16, V>, i16_run, i16_run_absent, |v, _| IntegerRangeMap::from_vec(v));
kit!(Nl, String, LengthMap<String, V, u8>, str_lens2, str_absent, |v, _| LengthMap::from_vec(v));
kit!(Ll, String, LeftSliceMap<String, V, u8, Tab>, str_left, str_other, |v, t| LeftSliceMap::from_vec_with_hasher(v, 1..2, t));
kit!(Rl, String, RightSliceMap<String, V, u8, Tab>, str_right, str_other, |v, t| RightSliceMap::from_vec_with_hasher(v, 1..2, t));
kit!(Sk, K, ScanningMap<K, V>, k_keys, k_absent, |v, _| ScanningMap::from_vec(v));

/// one harness per kind of map: `per_kind!{ c09_ f(n) ... }` is written out by hand in each module as
/// fn c09_fk() { f::<Fk>(n) }
pub fn entries_of<T: Clone, V>(k: &[T], f: fn(usize) -> V) -> Vec<(T, V)> { k.iter().enumerate().map(|(i, x)| (x.clone(), f(i))).collect() }

// ---------------------------------------------------------------- kinds of sets

pub use frozen_collections_core::specialized_sets as ss;

pub trait SKit: Sized {
    type Key: Clone + PartialEq + std::fmt::Debug;
    type Set: Clone + Len + Set<Self::Key>;
    fn keys(n: usize) -> (Self, Vec<Self::Key>);
    fn absent(&self, ks: &[Self::Key]) -> Self::Key;
    fn build(&self, v: Vec<Self::Key>) -> Self::Set;
    fn get<'a>(m: &'a Self::Set, k: &Self::Key) -> Option<&'a Self::Key>;
    fn contains(m: &Self::Set, k: &Self::Key) -> bool;
    fn iter(m: &Self::Set) -> ss::Iter<'_, Self::Key>;
    fn iter_ref(m: &Self::Set) -> ss::Iter<'_, Self::Key>;
}
macro_rules! skit {
    ($name:ident, $key:ty, $set:ty, $keys:expr, $absent:expr, $build:expr) => {
        pub struct $name(pub Tab);
        impl SKit for $name {
            type Key = $key;
            type Set = $set;
            fn keys(n: usize) -> (Self, Vec<$key>) { let f: fn(usize) -> (Tab, Vec<$key>) = $keys; let (t, k) = f(n); ($name(t), k) }
            fn absent(&self, ks: &[$key]) -> $key { let f: fn(&[$key]) -> $key = $absent; f(ks) }
            fn build(&self, v: Vec<$key>) -> $set { let f: fn(Vec<$key>, Tab) -> $set = $build; f(v, self.0) }
            fn get<'a>(m: &'a $set, k: &$key) -> Option<&'a $key> { m.get(k) }
            fn contains(m: &$set, k: &$key) -> bool { m.contains(k) }
            fn iter(m: &$set) -> ss::Iter<'_, $key> { m.iter() }
            fn iter_ref(m: &$set) -> ss::Iter<'_, $key> { m.into_iter() }
        }
    };
}
skit!(SFk, K, FrozenSet<K, Tab>, k_keys, k_absent, |v, t| FrozenSet::from_vec_with_hasher(v, t));
skit!(SFr, u32, FrozenSet<u32, Tab>, u32_run, u32_run_absent, |v, t| FrozenSet::from_vec_with_hasher(v, t));
skit!(SFi, u32, FrozenSet<u32, Tab>, u32_sparse, u32_sparse_absent, |v, t| FrozenSet::from_vec_with_hasher(v, t));
skit!(SFn, String, FrozenSet<String, Tab>, str_lens, str_absent, |v, t| FrozenSet::from_vec_with_hasher(v, t));
skit!(SFl, String, FrozenSet<String, Tab>, str_left, str_other, |v, t| FrozenSet::from_vec_with_hasher(v, t));
skit!(SFt, String, FrozenSet<String, Tab>, str_right, str_other, |v, t| FrozenSet::from_vec_with_hasher(v, t));
skit!(SCk, K, CommonSet<K, u8, Tab>, k_keys, k_absent, |v, t| CommonSet::from_vec_with_hasher(v, t));
skit!(SIi, i32, IntegerSet<i32, u16>, i32_sparse, i32_sparse_absent, |v, _| IntegerSet::from_vec(v));
skit!(SRi, i16, IntegerRangeSet<i16>, i16_run, i16_run_absent, |v, _| IntegerRangeSet::from_vec(v));
skit!(SNl, String, LengthSet<String, u8>, str_lens2, str_absent, |v, _| LengthSet::from_vec(v));
skit!(SLl, String, LeftSliceSet<String, u8, Tab>, str_left, str_other, |v, t| LeftSliceSet::from_vec_with_hasher(v, 1..2, t));
skit!(SRl, String, RightSliceSet<String, u8, Tab>, str_right, str_other, |v, t| RightSliceSet::from_vec_with_hasher(v, 1..2, t));
skit!(SSk, K, ScanningSet<K>, k_keys, k_absent, |v, _| ScanningSet::from_vec(v));


// ---------------------------------------------------------------- large collections

/// the number of entries of the large collections
pub const LARGE: usize = 260;
/// some place among n, around the limits of the index types
pub fn place(n: usize) -> usize { [0, 1, 130, 254, 255, 256, n - 1][pick(7)].min(n - 1) }
pub fn k_large(n: usize) -> (Tab, Vec<K>) { (tab((0..n + 1).map(|i| (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 17).collect()), ks(n)) }
pub fn u32_run_large(n: usize) -> (Tab, Vec<u32>) { (Tab(&[]), (0..n).map(|i| 1000 + (i * 7 % n) as u32).collect()) }
pub fn u32_large(n: usize) -> (Tab, Vec<u32>) { (Tab(&[]), (0..n).map(|i| 70000 + i as u32 * 3 + (i & 1) as u32).collect()) }
pub fn i32_large(n: usize) -> (Tab, Vec<i32>) { (Tab(&[]), (0..n).map(|i| i as i32 * 5 - 400).collect()) }
pub fn i16_run_large(n: usize) -> (Tab, Vec<i16>) { (Tab(&[]), (0..n).map(|i| (i * 7 % n) as i16 - 100).collect()) }
/// two of each length
pub fn lens_large(n: usize) -> (Tab, Vec<String>) { (Tab(&[]), (0..n).map(|i| { let mut s = "x".repeat(i / 2); s.push(if i % 2 == 0 { 'a' } else { 'b' }); s }).collect()) }
fn num3(i: usize) -> String { let mut s = String::new(); s.push((b'0' + (i / 100) as u8) as char); s.push((b'0' + (i / 10 % 10) as u8) as char); s.push((b'0' + (i % 10) as u8) as char); s }
pub fn left_large(n: usize) -> (Tab, Vec<String>) { (Tab(&[]), (0..n).map(|i| { let mut s = String::from("kk"); s.push_str(&num3(i)); s.push_str("cccc"); s }).collect()) }
pub fn right_large(n: usize) -> (Tab, Vec<String>) { (Tab(&[]), (0..n).map(|i| { let mut s = String::from(["", "x", "yy"][i % 3]); s.push_str(&num3(i)); s.push_str("zzzzz"); s }).collect()) }
fn int_absent(k: &[u32]) -> u32 { [0, 999, 60000, 70001, u32::MAX][pick(5)] }
fn run_absent_large(k: &[u32]) -> u32 { [0, 999, 1000 + k.len() as u32, u32::MAX][pick(4)] }
fn i32_absent(k: &[i32]) -> i32 { [-405, -401, 1, i32::MIN, i32::MAX][pick(5)] }
fn i16_absent(k: &[i16]) -> i16 { [-101, k.len() as i16 - 100, i16::MIN, i16::MAX][pick(4)] }
fn str_absent_large(k: &[String]) -> String { let n = k.len(); let at = pick(3); let mut s = k[[255.min(n - 1), n - 1, 0][at]].clone(); match at { 0 => { s.pop(); s.push('~') } 1 => s.push_str("zz"), _ => s.clear() } s }

kit!(Lfk, K, FrozenMap<K, V, Tab>, k_large, k_absent, |v, t| FrozenMap::from_vec_with_hasher(v, t));
kit!(Lfr, u32, FrozenMap<u32, V, Tab>, u32_run_large, run_absent_large, |v, t| FrozenMap::from_vec_with_hasher(v, t));
kit!(Lfi, u32, FrozenMap<u32, V, Tab>, u32_large, int_absent, |v, t| FrozenMap::from_vec_with_hasher(v, t));
kit!(Lfn, String, FrozenMap<String, V, Tab>, lens_large, str_absent_large, |v, t| FrozenMap::from_vec_with_hasher(v, t));
kit!(Lfl, String, FrozenMap<String, V, Tab>, left_large, str_absent_large, |v, t| FrozenMap::from_vec_with_hasher(v, t));
kit!(Lft, String, FrozenMap<String, V, Tab>, right_large, str_absent_large, |v, t| FrozenMap::from_vec_with_hasher(v, t));
kit!(Lck, K, CommonMap<K, V, u16, Tab>, k_large, k_absent, |v, t| CommonMap::from_vec_with_hasher(v, t));
kit!(Lii, i32, IntegerMap<i32, V, u16>, i32_large, i32_absent, |v, _| IntegerMap::from_vec(v));
kit!(Lri, i16, IntegerRangeMap<i16, V>, i16_run_large, i16_absent, |v, _| IntegerRangeMap::from_vec(v));
kit!(Lnl, String, LengthMap<String, V, u16>, lens_large, str_absent_large, |v, _| LengthMap::from_vec(v));
kit!(Lll, String, LeftSliceMap<String, V, u16, Tab>, left_large, str_absent_large, |v, t| LeftSliceMap::from_vec_with_hasher(v, 2..5, t));
kit!(Lrl, String, RightSliceMap<String, V, u16, Tab>, right_large, str_absent_large, |v, t| RightSliceMap::from_vec_with_hasher(v, 5..8, t));
kit!(Lsk, K, ScanningMap<K, V>, k_large, k_absent, |v, _| ScanningMap::from_vec(v));
skit!(SLfk, K, FrozenSet<K, Tab>, k_large, k_absent, |v, t| FrozenSet::from_vec_with_hasher(v, t));
skit!(SLfr, u32, FrozenSet<u32, Tab>, u32_run_large, run_absent_large, |v, t| FrozenSet::from_vec_with_hasher(v, t));
skit!(SLfi, u32, FrozenSet<u32, Tab>, u32_large, int_absent, |v, t| FrozenSet::from_vec_with_hasher(v, t));
skit!(SLfn, String, FrozenSet<String, Tab>, lens_large, str_absent_large, |v, t| FrozenSet::from_vec_with_hasher(v, t));
skit!(SLfl, String, FrozenSet<String, Tab>, left_large, str_absent_large, |v, t| FrozenSet::from_vec_with_hasher(v, t));
skit!(SLft, String, FrozenSet<String, Tab>, right_large, str_absent_large, |v, t| FrozenSet::from_vec_with_hasher(v, t));
skit!(SLck, K, CommonSet<K, u16, Tab>, k_large, k_absent, |v, t| CommonSet::from_vec_with_hasher(v, t));
skit!(SLii, i32, IntegerSet<i32, u16>, i32_large, i32_absent, |v, _| IntegerSet::from_vec(v));
skit!(SLri, i16, IntegerRangeSet<i16>, i16_run_large, i16_absent, |v, _| IntegerRangeSet::from_vec(v));
skit!(SLnl, String, LengthSet<String, u16>, lens_large, str_absent_large, |v, _| LengthSet::from_vec(v));
skit!(SLll, String, LeftSliceSet<String, u16, Tab>, left_large, str_absent_large, |v, t| LeftSliceSet::from_vec_with_hasher(v, 2..5, t));
skit!(SLrl, String, RightSliceSet<String, u16, Tab>, right_large, str_absent_large, |v, t| RightSliceSet::from_vec_with_hasher(v, 5..8, t));
skit!(SLsk, K, ScanningSet<K>, k_large, k_absent, |v, _| ScanningSet::from_vec(v));

// ---------------------------------------------------------------- iterators

/// Takes some items, looks at what is left, then takes the rest in one of several ways;
/// `ok(x, i)` says whether x is item i of the map, `order` is the order the items must come in.
pub fn walk<I: ExactSizeIterator + Clone>(mut it: I, order: &[usize], ok: impl Fn(I::Item, usize) -> bool) -> usize {
    let n = order.len();
    let p = if n < 100 { pick(n as u64 + 1) } else { [0, 255, n - 1][pick(3)] };
    for j in 0..p {
        check!(it.len() == n - j);
        check!(it.size_hint() == (n - j, Some(n - j)));
        match it.next() { Some(x) => check!(ok(x, order[j])), None => check!(false) }
    }
    let rest = n - p;
    observe(rest as u64);
    check!(it.len() == rest);
    check!(it.size_hint() == (rest, Some(rest)));
    check!(it.clone().count() == rest);
    let mut c = it.clone();
    let way = pick(6);
    match way {
        0 => {
            for j in p..n { match it.next() { Some(x) => check!(ok(x, order[j])), None => check!(false) } }
            for _ in 0..3 { check!(it.next().is_none()); check!(it.len() == 0); check!(it.size_hint() == (0, Some(0))); }
            check!(it.count() == 0);

        }
        1 => { let m = it.fold(p, |j, x| { check!(j < n && ok(x, order[j])); j + 1 }); check!(m == n); }
        2 => { match it.last() { Some(x) => check!(rest > 0 && ok(x, order[n - 1])), None => check!(rest == 0) } }
        3 => {
            let k = if rest < 100 { pick(rest as u64 + 2) } else { [0, 254, rest - 1, rest, rest + 1][pick(5)] };
            match it.nth(k) { Some(x) => check!(k < rest && ok(x, order[p + k])), None => check!(k >= rest) }
            let left = if k < rest { rest - k - 1 } else { 0 };
            check!(it.len() == left && it.size_hint() == (left, Some(left)));
            check!(it.clone().count() == left);
            for j in n - left..n { match it.next() { Some(x) => check!(ok(x, order[j])), None => check!(false) } }
            check!(it.next().is_none() && it.nth(0).is_none());
        }
        4 => { let v: Vec<I::Item> = it.collect(); check!(v.len() == rest); for (j, x) in v.into_iter().enumerate() { check!(ok(x, order[p + j])); } }
        _ => { for (j, x) in it.enumerate() { check!(j < rest && ok(x, order[p + j])); } }
    }
    // the clone is where it was
    check!(c.len() == rest);
    for j in p..n { match c.next() { Some(x) => check!(ok(x, order[j])), None => check!(false) } }
    check!(c.next().is_none());
    way
}

// ---------------------------------------------------------------- pairs of sets

pub use std::collections::{BTreeSet, HashSet};
/// the elements of u whose bit is set, rotated by r
pub fn sub<T: Clone>(u: &[T], m: u64, r: usize) -> Vec<T> {
    let v: Vec<T> = (0..u.len()).filter(|i| m >> i & 1 == 1).map(|i| u[i].clone()).collect();
    let n = v.len();
    (0..n).map(|i| v[(i + r) % n].clone()).collect()
}
/// any subset of m elements
pub fn mask(m: usize) -> u64 { pick(1 << m) as u64 }
/// any run of consecutive ones among m elements
pub fn run_mask(m: usize) -> u64 {
    let s = pick(m as u64 + 1);
    let l = pick((m - s) as u64 + 1);
    ((1u64 << l) - 1) << s
}
pub fn pos<T: PartialEq>(u: &[T], x: &T) -> usize {
    for (i, y) in u.iter().enumerate() { if x == y { return i; } }
    u.len()
}
pub fn to_hash<T: Hash + Eq>(v: Vec<T>, h: Tab) -> HashSet<T, Tab> { let mut s = HashSet::with_hasher(h); for x in v { s.insert(x); } s }
pub fn to_btree<T: Ord>(v: Vec<T>) -> BTreeSet<T> { v.into_iter().collect() }
/// n times 'a' but for the character at p
pub fn lkey(n: usize, p: usize, c: u8) -> String {
    let mut v = vec![b'a'; n];
    if p < n { v[p] = c; }
    unsafe { String::from_utf8_unchecked(v) }
}
/// one of the long keys, or one that is longer, shorter or has another character somewhere
pub fn long_query(keys: &[String], at: &[usize]) -> String {
    let mut q = keys[pick(keys.len() as u64)].clone().into_bytes();
    let l = q.len();
    match pick(6) {
        0 => (),
        1 => q.truncate(l.saturating_sub(256)),
        2 => q.resize(l + 256, b'a'),
        3 => { q.pop(); }
        4 => q.push(b'a' + any(1) as u8),
        _ => { let i = at[pick(at.len() as u64)]; if i < l { q[i] = b'a' + any(3) as u8; } }
    }
    unsafe { String::from_utf8_unchecked(q) }
}
