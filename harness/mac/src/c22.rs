//! C22: frozen_map!.
use frozen_collections::frozen_map;
use frozen_collections::traits::len::Len;
use std::cell::RefCell;
use vs::*;

fn val(i: usize) -> u16 { 100 + i as u16 }
/// an integer map, any query
macro_rules! int {
    ($t:ty, $bits:literal, [$($k:expr),*], $m:expr, $r:literal) => {{
        let keys: Vec<$t> = vec![$($k),*];
        let n = keys.len();
        let mut m = $m;
        check!(m.len() == n && !m.is_empty());
        for i in 0..n {
            check!(m.get(&keys[i]) == Some(&val(i)) && m.contains_key(&keys[i]) && m[keys[i]] == val(i));
            match m.get_key_value(&keys[i]) { Some((k, v)) => check!(*k == keys[i] && *v == val(i)), None => check!(false) }
        }
        let mut seen = vec![false; n];
        for (k, v) in m.iter() { let i = keys.iter().position(|x| x == k).unwrap(); check!(*v == val(i) && !seen[i]); seen[i] = true; }
        check!(seen.iter().all(|s| *s));
        let q: $t = if $bits > 64 { ((any_u64() as u128) << 64 | any_u64() as u128) as $t } else { any(if $bits > 64 { 64 } else { $bits }) as $t };
        let mut e = 0u64;
        for i in 0..n { e |= (0u64.wrapping_sub((keys[i] == q) as u64)) & (i as u64 + 1); }
        match pick(3) {
            0 => match m.get(&q) { Some(v) => check!(e != 0 && *v as u64 == 99 + e), None => check!(e == 0) },
            1 => check!(m.contains_key(&q) == (e != 0)),
            _ => match m.get_mut(&q) { Some(v) => { check!(e != 0 && *v as u64 == 99 + e); *v = 7; check!(m.get(&q) == Some(&7)); } None => check!(e == 0) },
        }
        reach($r);
    }};
}
/// a map with string keys; queries: every key, changed keys and any string of up to 3 characters
macro_rules! str {
    ([$($k:expr),*], $m:expr, $r:literal) => {{
        let keys: Vec<&'static str> = vec![$($k),*];
        let n = keys.len();
        let mut m = $m;
        check!(m.len() == n && !m.is_empty());
        for i in 0..n { check!(lookup!(m, keys[i], n) == Some(val(i))); }
        let mut seen = vec![false; n];
        for (k, v) in m.iter() { let k: &str = k.as_ref(); let i = keys.iter().position(|x| *x == k).unwrap(); check!(*v == val(i) && !seen[i]); seen[i] = true; }
        check!(seen.iter().all(|s| *s));
        let way = pick(5);
        let q: String = if way == 0 {
            let l = pick(4);
            let mut v = Vec::new();
            for _ in 0..l { v.push(any(7) as u8); }
            unsafe { String::from_utf8_unchecked(v) }
        } else {
            let k = keys[pick(if n > 20 { 20 } else { n as u64 })];
            match way {
                1 => { let mut s = k.to_string(); s.push((b'a' + any(2) as u8) as char); s }
                2 => { let mut s = k.to_string(); s.pop(); s }
                3 => { let mut s = k.to_string(); if !s.is_empty() && s.is_ascii() { let p = pick(s.len() as u64); unsafe { s.as_bytes_mut()[p] = any(7) as u8; } } s }
                _ => { let mut s = (b'a' + any(2) as u8) as char; let mut t = s.to_string(); t.push_str(k); t }
            }
        };
        let mut e = 0u64;
        for i in 0..n { if keys[i].len() == q.len() { let mut d = 0u8; for j in 0..q.len() { d |= keys[i].as_bytes()[j] ^ q.as_bytes()[j]; } e |= (0u64.wrapping_sub((d == 0) as u64)) & (i as u64 + 1); } }
        match lookup!(m, q.as_str(), n) { Some(v) => check!(e != 0 && v as u64 == 99 + e), None => check!(e == 0) }
        reach($r);
    }};
}
/// keys are &str in a map of one or two entries, String otherwise
macro_rules! lookup {
    ($m:expr, $q:expr, $n:expr) => {{ let q: &str = $q; Look::look(&$m, q) }};
}
trait Look {
    fn look(&self, q: &str) -> Option<u16>;
}
use frozen_collections::specialized_maps::*;
impl Look for ScanningMap<&'static str, u16> {
    fn look(&self, q: &str) -> Option<u16> {
        // (the borrow is only for the comparison)
        let q: &'static str = unsafe { std::mem::transmute(q) };
        self.get(&q).copied()
    }
}
macro_rules! look {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> Look for $t {
            fn look(&self, q: &str) -> Option<u16> {
                let q = q.to_string();
                let r = self.get(&q).copied();
                check!(self.contains_key(&q) == r.is_some());
                r
            }
        }
    };
}
look!([] LengthMap<String, u16, u8>);
look!([] LengthMap<String, u16, u16>);
look!([] CommonMap<String, u16, u8>);
look!([] CommonMap<String, u16, u16>);
look!([] LeftSliceMap<String, u16, u8, std::hash::RandomState>);
look!([] LeftSliceMap<String, u16, u16, std::hash::RandomState>);
look!([] RightSliceMap<String, u16, u8, std::hash::RandomState>);
look!([] RightSliceMap<String, u16, u16, std::hash::RandomState>);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct P(u16, i8);
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum E { A, B(u8), C { x: u16 }, D }
const LIMIT: u16 = 500;
fn f(x: u16) -> u16 { x + 1 }

harnesses! {
fn c22_u8_run() { int!(u8, 8, [5, 3, 4, 7, 6], frozen_map!(u8, 5: 100u16, 3: 101u16, 4: 102u16, 7: 103u16, 6: 104u16), 1) }
fn c22_u8_ends() { int!(u8, 8, [0, 255, 3, 254, 1], frozen_map!(u8, 0: 100u16, 255: 101u16, 3: 102u16, 254: 103u16, 1: 104u16), 2) }
fn c22_u8_sparse() { int!(u8, 8, [1, 3, 5, 9, 100, 64], frozen_map!(u8, 1: 100u16, 3: 101u16, 5: 102u16, 9: 103u16, 100: 104u16, 64: 105u16), 3) }
fn c22_u8_three() { int!(u8, 8, [253, 255, 254], frozen_map!(u8, 253: 100u16, 255: 101u16, 254: 102u16), 4) }
fn c22_u8_two() { int!(u8, 8, [255, 0], frozen_map!(u8, 255: 100u16, 0: 101u16), 5) }
fn c22_i8_run() { int!(i8, 8, [0, -2, 1, -1, 2], frozen_map!(i8, 0: 100u16, -2: 101u16, 1: 102u16, -1: 103u16, 2: 104u16), 6) }
fn c22_i8_ends() { int!(i8, 8, [-128, 127, 3, 126, -127], frozen_map!(i8, -128: 100u16, 127: 101u16, 3: 102u16, 126: 103u16, -127: 104u16), 7) }
fn c22_i8_sparse() { int!(i8, 8, [-7, 3, 5, 9, 100, -128], frozen_map!(i8, -7: 100u16, 3: 101u16, 5: 102u16, 9: 103u16, 100: 104u16, -128: 105u16), 8) }
fn c22_i8_three() { int!(i8, 8, [125, 127, 126], frozen_map!(i8, 125: 100u16, 127: 101u16, 126: 102u16), 9) }
fn c22_i8_two() { int!(i8, 8, [127, -128], frozen_map!(i8, 127: 100u16, -128: 101u16), 10) }
fn c22_u16_run() { int!(u16, 16, [5, 3, 4, 7, 6], frozen_map!(u16, 5: 100u16, 3: 101u16, 4: 102u16, 7: 103u16, 6: 104u16), 11) }
fn c22_u16_ends() { int!(u16, 16, [0, 65535, 3, 65534, 1], frozen_map!(u16, 0: 100u16, 65535: 101u16, 3: 102u16, 65534: 103u16, 1: 104u16), 12) }
fn c22_u16_sparse() { int!(u16, 16, [1, 3, 5, 9, 100, 64], frozen_map!(u16, 1: 100u16, 3: 101u16, 5: 102u16, 9: 103u16, 100: 104u16, 64: 105u16), 13) }
fn c22_u16_three() { int!(u16, 16, [65533, 65535, 65534], frozen_map!(u16, 65533: 100u16, 65535: 101u16, 65534: 102u16), 14) }
fn c22_u16_two() { int!(u16, 16, [65535, 0], frozen_map!(u16, 65535: 100u16, 0: 101u16), 15) }
fn c22_i16_run() { int!(i16, 16, [0, -2, 1, -1, 2], frozen_map!(i16, 0: 100u16, -2: 101u16, 1: 102u16, -1: 103u16, 2: 104u16), 16) }
fn c22_i16_ends() { int!(i16, 16, [-32768, 32767, 3, 32766, -32767], frozen_map!(i16, -32768: 100u16, 32767: 101u16, 3: 102u16, 32766: 103u16, -32767: 104u16), 17) }
fn c22_i16_sparse() { int!(i16, 16, [-7, 3, 5, 9, 100, -128], frozen_map!(i16, -7: 100u16, 3: 101u16, 5: 102u16, 9: 103u16, 100: 104u16, -128: 105u16), 18) }
fn c22_i16_three() { int!(i16, 16, [32765, 32767, 32766], frozen_map!(i16, 32765: 100u16, 32767: 101u16, 32766: 102u16), 19) }
fn c22_i16_two() { int!(i16, 16, [32767, -32768], frozen_map!(i16, 32767: 100u16, -32768: 101u16), 20) }
fn c22_u32_run() { int!(u32, 32, [5, 3, 4, 7, 6], frozen_map!(u32, 5: 100u16, 3: 101u16, 4: 102u16, 7: 103u16, 6: 104u16), 21) }
fn c22_u32_ends() { int!(u32, 32, [0, 4294967295, 3, 4294967294, 1], frozen_map!(u32, 0: 100u16, 4294967295: 101u16, 3: 102u16, 4294967294: 103u16, 1: 104u16), 22) }
fn c22_u32_sparse() { int!(u32, 32, [1, 3, 5, 9, 100, 64], frozen_map!(u32, 1: 100u16, 3: 101u16, 5: 102u16, 9: 103u16, 100: 104u16, 64: 105u16), 23) }
fn c22_u32_three() { int!(u32, 32, [4294967293, 4294967295, 4294967294], frozen_map!(u32, 4294967293: 100u16, 4294967295: 101u16, 4294967294: 102u16), 24) }
fn c22_u32_two() { int!(u32, 32, [4294967295, 0], frozen_map!(u32, 4294967295: 100u16, 0: 101u16), 25) }
fn c22_i32_run() { int!(i32, 32, [0, -2, 1, -1, 2], frozen_map!(i32, 0: 100u16, -2: 101u16, 1: 102u16, -1: 103u16, 2: 104u16), 26) }
fn c22_i32_ends() { int!(i32, 32, [-2147483648, 2147483647, 3, 2147483646, -2147483647], frozen_map!(i32, -2147483648: 100u16, 2147483647: 101u16, 3: 102u16, 2147483646: 103u16, -2147483647: 104u16), 27) }
fn c22_i32_sparse() { int!(i32, 32, [-7, 3, 5, 9, 100, -128], frozen_map!(i32, -7: 100u16, 3: 101u16, 5: 102u16, 9: 103u16, 100: 104u16, -128: 105u16), 28) }
fn c22_i32_three() { int!(i32, 32, [2147483645, 2147483647, 2147483646], frozen_map!(i32, 2147483645: 100u16, 2147483647: 101u16, 2147483646: 102u16), 29) }
fn c22_i32_two() { int!(i32, 32, [2147483647, -2147483648], frozen_map!(i32, 2147483647: 100u16, -2147483648: 101u16), 30) }
fn c22_u64_run() { int!(u64, 64, [5, 3, 4, 7, 6], frozen_map!(u64, 5: 100u16, 3: 101u16, 4: 102u16, 7: 103u16, 6: 104u16), 31) }
fn c22_u64_ends() { int!(u64, 64, [0, 18446744073709551615, 3, 18446744073709551614, 1], frozen_map!(u64, 0: 100u16, 18446744073709551615: 101u16, 3: 102u16, 18446744073709551614: 103u16, 1: 104u16), 32) }
fn c22_u64_sparse() { int!(u64, 64, [1, 3, 5, 9, 100, 64], frozen_map!(u64, 1: 100u16, 3: 101u16, 5: 102u16, 9: 103u16, 100: 104u16, 64: 105u16), 33) }
fn c22_u64_three() { int!(u64, 64, [18446744073709551613, 18446744073709551615, 18446744073709551614], frozen_map!(u64, 18446744073709551613: 100u16, 18446744073709551615: 101u16, 18446744073709551614: 102u16), 34) }
fn c22_u64_two() { int!(u64, 64, [18446744073709551615, 0], frozen_map!(u64, 18446744073709551615: 100u16, 0: 101u16), 35) }
fn c22_i64_run() { int!(i64, 64, [0, -2, 1, -1, 2], frozen_map!(i64, 0: 100u16, -2: 101u16, 1: 102u16, -1: 103u16, 2: 104u16), 36) }
fn c22_i64_ends() { int!(i64, 64, [-9223372036854775808, 9223372036854775807, 3, 9223372036854775806, -9223372036854775807], frozen_map!(i64, -9223372036854775808: 100u16, 9223372036854775807: 101u16, 3: 102u16, 9223372036854775806: 103u16, -9223372036854775807: 104u16), 37) }
fn c22_i64_sparse() { int!(i64, 64, [-7, 3, 5, 9, 100, -128], frozen_map!(i64, -7: 100u16, 3: 101u16, 5: 102u16, 9: 103u16, 100: 104u16, -128: 105u16), 38) }
fn c22_i64_three() { int!(i64, 64, [9223372036854775805, 9223372036854775807, 9223372036854775806], frozen_map!(i64, 9223372036854775805: 100u16, 9223372036854775807: 101u16, 9223372036854775806: 102u16), 39) }
fn c22_i64_two() { int!(i64, 64, [9223372036854775807, -9223372036854775808], frozen_map!(i64, 9223372036854775807: 100u16, -9223372036854775808: 101u16), 40) }
fn c22_u128_run() { int!(u128, 128, [5, 3, 4, 7, 6], frozen_map!(u128, 5: 100u16, 3: 101u16, 4: 102u16, 7: 103u16, 6: 104u16), 41) }
fn c22_u128_ends() { int!(u128, 128, [0, 340282366920938463463374607431768211455, 3, 340282366920938463463374607431768211454, 1], frozen_map!(u128, 0: 100u16, 340282366920938463463374607431768211455: 101u16, 3: 102u16, 340282366920938463463374607431768211454: 103u16, 1: 104u16), 42) }
fn c22_u128_sparse() { int!(u128, 128, [1, 3, 5, 9, 100, 64], frozen_map!(u128, 1: 100u16, 3: 101u16, 5: 102u16, 9: 103u16, 100: 104u16, 64: 105u16), 43) }
fn c22_u128_three() { int!(u128, 128, [340282366920938463463374607431768211453, 340282366920938463463374607431768211455, 340282366920938463463374607431768211454], frozen_map!(u128, 340282366920938463463374607431768211453: 100u16, 340282366920938463463374607431768211455: 101u16, 340282366920938463463374607431768211454: 102u16), 44) }
fn c22_u128_two() { int!(u128, 128, [340282366920938463463374607431768211455, 0], frozen_map!(u128, 340282366920938463463374607431768211455: 100u16, 0: 101u16), 45) }
fn c22_i128_run() { int!(i128, 128, [0, -2, 1, -1, 2], frozen_map!(i128, 0: 100u16, -2: 101u16, 1: 102u16, -1: 103u16, 2: 104u16), 46) }
fn c22_i128_ends() { int!(i128, 128, [-170141183460469231731687303715884105728, 170141183460469231731687303715884105727, 3, 170141183460469231731687303715884105726, -170141183460469231731687303715884105727], frozen_map!(i128, -170141183460469231731687303715884105728: 100u16, 170141183460469231731687303715884105727: 101u16, 3: 102u16, 170141183460469231731687303715884105726: 103u16, -170141183460469231731687303715884105727: 104u16), 47) }
fn c22_i128_sparse() { int!(i128, 128, [-7, 3, 5, 9, 100, -128], frozen_map!(i128, -7: 100u16, 3: 101u16, 5: 102u16, 9: 103u16, 100: 104u16, -128: 105u16), 48) }
fn c22_i128_three() { int!(i128, 128, [170141183460469231731687303715884105725, 170141183460469231731687303715884105727, 170141183460469231731687303715884105726], frozen_map!(i128, 170141183460469231731687303715884105725: 100u16, 170141183460469231731687303715884105727: 101u16, 170141183460469231731687303715884105726: 102u16), 49) }
fn c22_i128_two() { int!(i128, 128, [170141183460469231731687303715884105727, -170141183460469231731687303715884105728], frozen_map!(i128, 170141183460469231731687303715884105727: 100u16, -170141183460469231731687303715884105728: 101u16), 50) }
fn c22_u32_top() { int!(u32, 32, [4294967295, 4294967294, 4294967293, 4294967292], frozen_map!(u32, 4294967295: 100u16, 4294967294: 101u16, 4294967293: 102u16, 4294967292: 103u16), 51) }
fn c22_i8_low() { int!(i8, 8, [-128, -127, -126, -125], frozen_map!(i8, -128: 100u16, -127: 101u16, -126: 102u16, -125: 103u16), 52) }
fn c22_u16_12() { int!(u16, 16, [1, 8, 29, 64, 113, 176, 253, 344, 449, 568, 701, 848], frozen_map!(u16, 1: 100u16, 8: 101u16, 29: 102u16, 64: 103u16, 113: 104u16, 176: 105u16, 253: 106u16, 344: 107u16, 449: 108u16, 568: 109u16, 701: 110u16, 848: 111u16), 53) }
fn c22_u64_high() { int!(u64, 64, [1099511627776, 1108101562368, 1116691496960, 1125281431552, 1133871366144, 1142461300736], frozen_map!(u64, 1099511627776: 100u16, 1108101562368: 101u16, 1116691496960: 102u16, 1125281431552: 103u16, 1133871366144: 104u16, 1142461300736: 105u16), 54) }
fn c22_i64_mod() { int!(i64, 64, [-3072, -2048, -1024, 0, 1024, 2048, 3072, 4096], frozen_map!(i64, -3072: 100u16, -2048: 101u16, -1024: 102u16, 0: 103u16, 1024: 104u16, 2048: 105u16, 3072: 106u16, 4096: 107u16), 55) }
fn c22_u16_hole() { int!(u16, 16, [0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12], frozen_map!(u16, 0: 100u16, 1: 101u16, 2: 102u16, 3: 103u16, 4: 104u16, 5: 105u16, 7: 106u16, 8: 107u16, 9: 108u16, 10: 109u16, 11: 110u16, 12: 111u16), 56) }
fn c22_u8_255() { int!(u8, 8, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255], frozen_map!(u8, 0: 100u16, 1: 101u16, 2: 102u16, 3: 103u16, 4: 104u16, 5: 105u16, 6: 106u16, 7: 107u16, 8: 108u16, 9: 109u16, 10: 110u16, 11: 111u16, 12: 112u16, 13: 113u16, 14: 114u16, 15: 115u16, 16: 116u16, 17: 117u16, 18: 118u16, 19: 119u16, 20: 120u16, 21: 121u16, 22: 122u16, 23: 123u16, 24: 124u16, 25: 125u16, 26: 126u16, 27: 127u16, 28: 128u16, 29: 129u16, 30: 130u16, 31: 131u16, 32: 132u16, 33: 133u16, 34: 134u16, 35: 135u16, 36: 136u16, 37: 137u16, 38: 138u16, 39: 139u16, 40: 140u16, 41: 141u16, 42: 142u16, 43: 143u16, 44: 144u16, 45: 145u16, 46: 146u16, 47: 147u16, 48: 148u16, 49: 149u16, 50: 150u16, 51: 151u16, 52: 152u16, 53: 153u16, 54: 154u16, 55: 155u16, 56: 156u16, 57: 157u16, 58: 158u16, 59: 159u16, 60: 160u16, 61: 161u16, 62: 162u16, 63: 163u16, 64: 164u16, 65: 165u16, 66: 166u16, 67: 167u16, 68: 168u16, 69: 169u16, 70: 170u16, 71: 171u16, 72: 172u16, 73: 173u16, 74: 174u16, 75: 175u16, 76: 176u16, 78: 177u16, 79: 178u16, 80: 179u16, 81: 180u16, 82: 181u16, 83: 182u16, 84: 183u16, 85: 184u16, 86: 185u16, 87: 186u16, 88: 187u16, 89: 188u16, 90: 189u16, 91: 190u16, 92: 191u16, 93: 192u16, 94: 193u16, 95: 194u16, 96: 195u16, 97: 196u16, 98: 197u16, 99: 198u16, 100: 199u16, 101: 200u16, 102: 201u16, 103: 202u16, 104: 203u16, 105: 204u16, 106: 205u16, 107: 206u16, 108: 207u16, 109: 208u16, 110: 209u16, 111: 210u16, 112: 211u16, 113: 212u16, 114: 213u16, 115: 214u16, 116: 215u16, 117: 216u16, 118: 217u16, 119: 218u16, 120: 219u16, 121: 220u16, 122: 221u16, 123: 222u16, 124: 223u16, 125: 224u16, 126: 225u16, 127: 226u16, 128: 227u16, 129: 228u16, 130: 229u16, 131: 230u16, 132: 231u16, 133: 232u16, 134: 233u16, 135: 234u16, 136: 235u16, 137: 236u16, 138: 237u16, 139: 238u16, 140: 239u16, 141: 240u16, 142: 241u16, 143: 242u16, 144: 243u16, 145: 244u16, 146: 245u16, 147: 246u16, 148: 247u16, 149: 248u16, 150: 249u16, 151: 250u16, 152: 251u16, 153: 252u16, 154: 253u16, 155: 254u16, 156: 255u16, 157: 256u16, 158: 257u16, 159: 258u16, 160: 259u16, 161: 260u16, 162: 261u16, 163: 262u16, 164: 263u16, 165: 264u16, 166: 265u16, 167: 266u16, 168: 267u16, 169: 268u16, 170: 269u16, 171: 270u16, 172: 271u16, 173: 272u16, 174: 273u16, 175: 274u16, 176: 275u16, 177: 276u16, 178: 277u16, 179: 278u16, 180: 279u16, 181: 280u16, 182: 281u16, 183: 282u16, 184: 283u16, 185: 284u16, 186: 285u16, 187: 286u16, 188: 287u16, 189: 288u16, 190: 289u16, 191: 290u16, 192: 291u16, 193: 292u16, 194: 293u16, 195: 294u16, 196: 295u16, 197: 296u16, 198: 297u16, 199: 298u16, 200: 299u16, 201: 300u16, 202: 301u16, 203: 302u16, 204: 303u16, 205: 304u16, 206: 305u16, 207: 306u16, 208: 307u16, 209: 308u16, 210: 309u16, 211: 310u16, 212: 311u16, 213: 312u16, 214: 313u16, 215: 314u16, 216: 315u16, 217: 316u16, 218: 317u16, 219: 318u16, 220: 319u16, 221: 320u16, 222: 321u16, 223: 322u16, 224: 323u16, 225: 324u16, 226: 325u16, 227: 326u16, 228: 327u16, 229: 328u16, 230: 329u16, 231: 330u16, 232: 331u16, 233: 332u16, 234: 333u16, 235: 334u16, 236: 335u16, 237: 336u16, 238: 337u16, 239: 338u16, 240: 339u16, 241: 340u16, 242: 341u16, 243: 342u16, 244: 343u16, 245: 344u16, 246: 345u16, 247: 346u16, 248: 347u16, 249: 348u16, 250: 349u16, 251: 350u16, 252: 351u16, 253: 352u16, 254: 353u16, 255: 354u16), 57) }
fn c22_u8_256() { int!(u8, 8, [255, 254, 253, 252, 251, 250, 249, 248, 247, 246, 245, 244, 243, 242, 241, 240, 239, 238, 237, 236, 235, 234, 233, 232, 231, 230, 229, 228, 227, 226, 225, 224, 223, 222, 221, 220, 219, 218, 217, 216, 215, 214, 213, 212, 211, 210, 209, 208, 207, 206, 205, 204, 203, 202, 201, 200, 199, 198, 197, 196, 195, 194, 193, 192, 191, 190, 189, 188, 187, 186, 185, 184, 183, 182, 181, 180, 179, 178, 177, 176, 175, 174, 173, 172, 171, 170, 169, 168, 167, 166, 165, 164, 163, 162, 161, 160, 159, 158, 157, 156, 155, 154, 153, 152, 151, 150, 149, 148, 147, 146, 145, 144, 143, 142, 141, 140, 139, 138, 137, 136, 135, 134, 133, 132, 131, 130, 129, 128, 127, 126, 125, 124, 123, 122, 121, 120, 119, 118, 117, 116, 115, 114, 113, 112, 111, 110, 109, 108, 107, 106, 105, 104, 103, 102, 101, 100, 99, 98, 97, 96, 95, 94, 93, 92, 91, 90, 89, 88, 87, 86, 85, 84, 83, 82, 81, 80, 79, 78, 77, 76, 75, 74, 73, 72, 71, 70, 69, 68, 67, 66, 65, 64, 63, 62, 61, 60, 59, 58, 57, 56, 55, 54, 53, 52, 51, 50, 49, 48, 47, 46, 45, 44, 43, 42, 41, 40, 39, 38, 37, 36, 35, 34, 33, 32, 31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0], frozen_map!(u8, 255: 100u16, 254: 101u16, 253: 102u16, 252: 103u16, 251: 104u16, 250: 105u16, 249: 106u16, 248: 107u16, 247: 108u16, 246: 109u16, 245: 110u16, 244: 111u16, 243: 112u16, 242: 113u16, 241: 114u16, 240: 115u16, 239: 116u16, 238: 117u16, 237: 118u16, 236: 119u16, 235: 120u16, 234: 121u16, 233: 122u16, 232: 123u16, 231: 124u16, 230: 125u16, 229: 126u16, 228: 127u16, 227: 128u16, 226: 129u16, 225: 130u16, 224: 131u16, 223: 132u16, 222: 133u16, 221: 134u16, 220: 135u16, 219: 136u16, 218: 137u16, 217: 138u16, 216: 139u16, 215: 140u16, 214: 141u16, 213: 142u16, 212: 143u16, 211: 144u16, 210: 145u16, 209: 146u16, 208: 147u16, 207: 148u16, 206: 149u16, 205: 150u16, 204: 151u16, 203: 152u16, 202: 153u16, 201: 154u16, 200: 155u16, 199: 156u16, 198: 157u16, 197: 158u16, 196: 159u16, 195: 160u16, 194: 161u16, 193: 162u16, 192: 163u16, 191: 164u16, 190: 165u16, 189: 166u16, 188: 167u16, 187: 168u16, 186: 169u16, 185: 170u16, 184: 171u16, 183: 172u16, 182: 173u16, 181: 174u16, 180: 175u16, 179: 176u16, 178: 177u16, 177: 178u16, 176: 179u16, 175: 180u16, 174: 181u16, 173: 182u16, 172: 183u16, 171: 184u16, 170: 185u16, 169: 186u16, 168: 187u16, 167: 188u16, 166: 189u16, 165: 190u16, 164: 191u16, 163: 192u16, 162: 193u16, 161: 194u16, 160: 195u16, 159: 196u16, 158: 197u16, 157: 198u16, 156: 199u16, 155: 200u16, 154: 201u16, 153: 202u16, 152: 203u16, 151: 204u16, 150: 205u16, 149: 206u16, 148: 207u16, 147: 208u16, 146: 209u16, 145: 210u16, 144: 211u16, 143: 212u16, 142: 213u16, 141: 214u16, 140: 215u16, 139: 216u16, 138: 217u16, 137: 218u16, 136: 219u16, 135: 220u16, 134: 221u16, 133: 222u16, 132: 223u16, 131: 224u16, 130: 225u16, 129: 226u16, 128: 227u16, 127: 228u16, 126: 229u16, 125: 230u16, 124: 231u16, 123: 232u16, 122: 233u16, 121: 234u16, 120: 235u16, 119: 236u16, 118: 237u16, 117: 238u16, 116: 239u16, 115: 240u16, 114: 241u16, 113: 242u16, 112: 243u16, 111: 244u16, 110: 245u16, 109: 246u16, 108: 247u16, 107: 248u16, 106: 249u16, 105: 250u16, 104: 251u16, 103: 252u16, 102: 253u16, 101: 254u16, 100: 255u16, 99: 256u16, 98: 257u16, 97: 258u16, 96: 259u16, 95: 260u16, 94: 261u16, 93: 262u16, 92: 263u16, 91: 264u16, 90: 265u16, 89: 266u16, 88: 267u16, 87: 268u16, 86: 269u16, 85: 270u16, 84: 271u16, 83: 272u16, 82: 273u16, 81: 274u16, 80: 275u16, 79: 276u16, 78: 277u16, 77: 278u16, 76: 279u16, 75: 280u16, 74: 281u16, 73: 282u16, 72: 283u16, 71: 284u16, 70: 285u16, 69: 286u16, 68: 287u16, 67: 288u16, 66: 289u16, 65: 290u16, 64: 291u16, 63: 292u16, 62: 293u16, 61: 294u16, 60: 295u16, 59: 296u16, 58: 297u16, 57: 298u16, 56: 299u16, 55: 300u16, 54: 301u16, 53: 302u16, 52: 303u16, 51: 304u16, 50: 305u16, 49: 306u16, 48: 307u16, 47: 308u16, 46: 309u16, 45: 310u16, 44: 311u16, 43: 312u16, 42: 313u16, 41: 314u16, 40: 315u16, 39: 316u16, 38: 317u16, 37: 318u16, 36: 319u16, 35: 320u16, 34: 321u16, 33: 322u16, 32: 323u16, 31: 324u16, 30: 325u16, 29: 326u16, 28: 327u16, 27: 328u16, 26: 329u16, 25: 330u16, 24: 331u16, 23: 332u16, 22: 333u16, 21: 334u16, 20: 335u16, 19: 336u16, 18: 337u16, 17: 338u16, 16: 339u16, 15: 340u16, 14: 341u16, 13: 342u16, 12: 343u16, 11: 344u16, 10: 345u16, 9: 346u16, 8: 347u16, 7: 348u16, 6: 349u16, 5: 350u16, 4: 351u16, 3: 352u16, 2: 353u16, 1: 354u16, 0: 355u16), 58) }
fn c22_u16_300() { int!(u16, 16, [0, 3, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36, 39, 42, 45, 48, 51, 54, 57, 60, 63, 66, 69, 72, 75, 78, 81, 84, 87, 90, 93, 96, 99, 102, 105, 108, 111, 114, 117, 120, 123, 126, 129, 132, 135, 138, 141, 144, 147, 150, 153, 156, 159, 162, 165, 168, 171, 174, 177, 180, 183, 186, 189, 192, 195, 198, 201, 204, 207, 210, 213, 216, 219, 222, 225, 228, 231, 234, 237, 240, 243, 246, 249, 252, 255, 258, 261, 264, 267, 270, 273, 276, 279, 282, 285, 288, 291, 294, 297, 300, 303, 306, 309, 312, 315, 318, 321, 324, 327, 330, 333, 336, 339, 342, 345, 348, 351, 354, 357, 360, 363, 366, 369, 372, 375, 378, 381, 384, 387, 390, 393, 396, 399, 402, 405, 408, 411, 414, 417, 420, 423, 426, 429, 432, 435, 438, 441, 444, 447, 450, 453, 456, 459, 462, 465, 468, 471, 474, 477, 480, 483, 486, 489, 492, 495, 498, 501, 504, 507, 510, 513, 516, 519, 522, 525, 528, 531, 534, 537, 540, 543, 546, 549, 552, 555, 558, 561, 564, 567, 570, 573, 576, 579, 582, 585, 588, 591, 594, 597, 600, 603, 606, 609, 612, 615, 618, 621, 624, 627, 630, 633, 636, 639, 642, 645, 648, 651, 654, 657, 660, 663, 666, 669, 672, 675, 678, 681, 684, 687, 690, 693, 696, 699, 702, 705, 708, 711, 714, 717, 720, 723, 726, 729, 732, 735, 738, 741, 744, 747, 750, 753, 756, 759, 762, 765, 768, 771, 774, 777, 780, 783, 786, 789, 792, 795, 798, 801, 804, 807, 810, 813, 816, 819, 822, 825, 828, 831, 834, 837, 840, 843, 846, 849, 852, 855, 858, 861, 864, 867, 870, 873, 876, 879, 882, 885, 888, 891, 894, 897], frozen_map!(u16, 0: 100u16, 3: 101u16, 6: 102u16, 9: 103u16, 12: 104u16, 15: 105u16, 18: 106u16, 21: 107u16, 24: 108u16, 27: 109u16, 30: 110u16, 33: 111u16, 36: 112u16, 39: 113u16, 42: 114u16, 45: 115u16, 48: 116u16, 51: 117u16, 54: 118u16, 57: 119u16, 60: 120u16, 63: 121u16, 66: 122u16, 69: 123u16, 72: 124u16, 75: 125u16, 78: 126u16, 81: 127u16, 84: 128u16, 87: 129u16, 90: 130u16, 93: 131u16, 96: 132u16, 99: 133u16, 102: 134u16, 105: 135u16, 108: 136u16, 111: 137u16, 114: 138u16, 117: 139u16, 120: 140u16, 123: 141u16, 126: 142u16, 129: 143u16, 132: 144u16, 135: 145u16, 138: 146u16, 141: 147u16, 144: 148u16, 147: 149u16, 150: 150u16, 153: 151u16, 156: 152u16, 159: 153u16, 162: 154u16, 165: 155u16, 168: 156u16, 171: 157u16, 174: 158u16, 177: 159u16, 180: 160u16, 183: 161u16, 186: 162u16, 189: 163u16, 192: 164u16, 195: 165u16, 198: 166u16, 201: 167u16, 204: 168u16, 207: 169u16, 210: 170u16, 213: 171u16, 216: 172u16, 219: 173u16, 222: 174u16, 225: 175u16, 228: 176u16, 231: 177u16, 234: 178u16, 237: 179u16, 240: 180u16, 243: 181u16, 246: 182u16, 249: 183u16, 252: 184u16, 255: 185u16, 258: 186u16, 261: 187u16, 264: 188u16, 267: 189u16, 270: 190u16, 273: 191u16, 276: 192u16, 279: 193u16, 282: 194u16, 285: 195u16, 288: 196u16, 291: 197u16, 294: 198u16, 297: 199u16, 300: 200u16, 303: 201u16, 306: 202u16, 309: 203u16, 312: 204u16, 315: 205u16, 318: 206u16, 321: 207u16, 324: 208u16, 327: 209u16, 330: 210u16, 333: 211u16, 336: 212u16, 339: 213u16, 342: 214u16, 345: 215u16, 348: 216u16, 351: 217u16, 354: 218u16, 357: 219u16, 360: 220u16, 363: 221u16, 366: 222u16, 369: 223u16, 372: 224u16, 375: 225u16, 378: 226u16, 381: 227u16, 384: 228u16, 387: 229u16, 390: 230u16, 393: 231u16, 396: 232u16, 399: 233u16, 402: 234u16, 405: 235u16, 408: 236u16, 411: 237u16, 414: 238u16, 417: 239u16, 420: 240u16, 423: 241u16, 426: 242u16, 429: 243u16, 432: 244u16, 435: 245u16, 438: 246u16, 441: 247u16, 444: 248u16, 447: 249u16, 450: 250u16, 453: 251u16, 456: 252u16, 459: 253u16, 462: 254u16, 465: 255u16, 468: 256u16, 471: 257u16, 474: 258u16, 477: 259u16, 480: 260u16, 483: 261u16, 486: 262u16, 489: 263u16, 492: 264u16, 495: 265u16, 498: 266u16, 501: 267u16, 504: 268u16, 507: 269u16, 510: 270u16, 513: 271u16, 516: 272u16, 519: 273u16, 522: 274u16, 525: 275u16, 528: 276u16, 531: 277u16, 534: 278u16, 537: 279u16, 540: 280u16, 543: 281u16, 546: 282u16, 549: 283u16, 552: 284u16, 555: 285u16, 558: 286u16, 561: 287u16, 564: 288u16, 567: 289u16, 570: 290u16, 573: 291u16, 576: 292u16, 579: 293u16, 582: 294u16, 585: 295u16, 588: 296u16, 591: 297u16, 594: 298u16, 597: 299u16, 600: 300u16, 603: 301u16, 606: 302u16, 609: 303u16, 612: 304u16, 615: 305u16, 618: 306u16, 621: 307u16, 624: 308u16, 627: 309u16, 630: 310u16, 633: 311u16, 636: 312u16, 639: 313u16, 642: 314u16, 645: 315u16, 648: 316u16, 651: 317u16, 654: 318u16, 657: 319u16, 660: 320u16, 663: 321u16, 666: 322u16, 669: 323u16, 672: 324u16, 675: 325u16, 678: 326u16, 681: 327u16, 684: 328u16, 687: 329u16, 690: 330u16, 693: 331u16, 696: 332u16, 699: 333u16, 702: 334u16, 705: 335u16, 708: 336u16, 711: 337u16, 714: 338u16, 717: 339u16, 720: 340u16, 723: 341u16, 726: 342u16, 729: 343u16, 732: 344u16, 735: 345u16, 738: 346u16, 741: 347u16, 744: 348u16, 747: 349u16, 750: 350u16, 753: 351u16, 756: 352u16, 759: 353u16, 762: 354u16, 765: 355u16, 768: 356u16, 771: 357u16, 774: 358u16, 777: 359u16, 780: 360u16, 783: 361u16, 786: 362u16, 789: 363u16, 792: 364u16, 795: 365u16, 798: 366u16, 801: 367u16, 804: 368u16, 807: 369u16, 810: 370u16, 813: 371u16, 816: 372u16, 819: 373u16, 822: 374u16, 825: 375u16, 828: 376u16, 831: 377u16, 834: 378u16, 837: 379u16, 840: 380u16, 843: 381u16, 846: 382u16, 849: 383u16, 852: 384u16, 855: 385u16, 858: 386u16, 861: 387u16, 864: 388u16, 867: 389u16, 870: 390u16, 873: 391u16, 876: 392u16, 879: 393u16, 882: 394u16, 885: 395u16, 888: 396u16, 891: 397u16, 894: 398u16, 897: 399u16), 59) }
fn c22_i32_257() { int!(i32, 32, [-600, -595, -590, -585, -580, -575, -570, -565, -560, -555, -550, -545, -540, -535, -530, -525, -520, -515, -510, -505, -500, -495, -490, -485, -480, -475, -470, -465, -460, -455, -450, -445, -440, -435, -430, -425, -420, -415, -410, -405, -400, -395, -390, -385, -380, -375, -370, -365, -360, -355, -350, -345, -340, -335, -330, -325, -320, -315, -310, -305, -300, -295, -290, -285, -280, -275, -270, -265, -260, -255, -250, -245, -240, -235, -230, -225, -220, -215, -210, -205, -200, -195, -190, -185, -180, -175, -170, -165, -160, -155, -150, -145, -140, -135, -130, -125, -120, -115, -110, -105, -100, -95, -90, -85, -80, -75, -70, -65, -60, -55, -50, -45, -40, -35, -30, -25, -20, -15, -10, -5, 0, 5, 10, 15, 20, 25, 30, 35, 40, 45, 50, 55, 60, 65, 70, 75, 80, 85, 90, 95, 100, 105, 110, 115, 120, 125, 130, 135, 140, 145, 150, 155, 160, 165, 170, 175, 180, 185, 190, 195, 200, 205, 210, 215, 220, 225, 230, 235, 240, 245, 250, 255, 260, 265, 270, 275, 280, 285, 290, 295, 300, 305, 310, 315, 320, 325, 330, 335, 340, 345, 350, 355, 360, 365, 370, 375, 380, 385, 390, 395, 400, 405, 410, 415, 420, 425, 430, 435, 440, 445, 450, 455, 460, 465, 470, 475, 480, 485, 490, 495, 500, 505, 510, 515, 520, 525, 530, 535, 540, 545, 550, 555, 560, 565, 570, 575, 580, 585, 590, 595, 600, 605, 610, 615, 620, 625, 630, 635, 640, 645, 650, 655, 660, 665, 670, 675, 680], frozen_map!(i32, -600: 100u16, -595: 101u16, -590: 102u16, -585: 103u16, -580: 104u16, -575: 105u16, -570: 106u16, -565: 107u16, -560: 108u16, -555: 109u16, -550: 110u16, -545: 111u16, -540: 112u16, -535: 113u16, -530: 114u16, -525: 115u16, -520: 116u16, -515: 117u16, -510: 118u16, -505: 119u16, -500: 120u16, -495: 121u16, -490: 122u16, -485: 123u16, -480: 124u16, -475: 125u16, -470: 126u16, -465: 127u16, -460: 128u16, -455: 129u16, -450: 130u16, -445: 131u16, -440: 132u16, -435: 133u16, -430: 134u16, -425: 135u16, -420: 136u16, -415: 137u16, -410: 138u16, -405: 139u16, -400: 140u16, -395: 141u16, -390: 142u16, -385: 143u16, -380: 144u16, -375: 145u16, -370: 146u16, -365: 147u16, -360: 148u16, -355: 149u16, -350: 150u16, -345: 151u16, -340: 152u16, -335: 153u16, -330: 154u16, -325: 155u16, -320: 156u16, -315: 157u16, -310: 158u16, -305: 159u16, -300: 160u16, -295: 161u16, -290: 162u16, -285: 163u16, -280: 164u16, -275: 165u16, -270: 166u16, -265: 167u16, -260: 168u16, -255: 169u16, -250: 170u16, -245: 171u16, -240: 172u16, -235: 173u16, -230: 174u16, -225: 175u16, -220: 176u16, -215: 177u16, -210: 178u16, -205: 179u16, -200: 180u16, -195: 181u16, -190: 182u16, -185: 183u16, -180: 184u16, -175: 185u16, -170: 186u16, -165: 187u16, -160: 188u16, -155: 189u16, -150: 190u16, -145: 191u16, -140: 192u16, -135: 193u16, -130: 194u16, -125: 195u16, -120: 196u16, -115: 197u16, -110: 198u16, -105: 199u16, -100: 200u16, -95: 201u16, -90: 202u16, -85: 203u16, -80: 204u16, -75: 205u16, -70: 206u16, -65: 207u16, -60: 208u16, -55: 209u16, -50: 210u16, -45: 211u16, -40: 212u16, -35: 213u16, -30: 214u16, -25: 215u16, -20: 216u16, -15: 217u16, -10: 218u16, -5: 219u16, 0: 220u16, 5: 221u16, 10: 222u16, 15: 223u16, 20: 224u16, 25: 225u16, 30: 226u16, 35: 227u16, 40: 228u16, 45: 229u16, 50: 230u16, 55: 231u16, 60: 232u16, 65: 233u16, 70: 234u16, 75: 235u16, 80: 236u16, 85: 237u16, 90: 238u16, 95: 239u16, 100: 240u16, 105: 241u16, 110: 242u16, 115: 243u16, 120: 244u16, 125: 245u16, 130: 246u16, 135: 247u16, 140: 248u16, 145: 249u16, 150: 250u16, 155: 251u16, 160: 252u16, 165: 253u16, 170: 254u16, 175: 255u16, 180: 256u16, 185: 257u16, 190: 258u16, 195: 259u16, 200: 260u16, 205: 261u16, 210: 262u16, 215: 263u16, 220: 264u16, 225: 265u16, 230: 266u16, 235: 267u16, 240: 268u16, 245: 269u16, 250: 270u16, 255: 271u16, 260: 272u16, 265: 273u16, 270: 274u16, 275: 275u16, 280: 276u16, 285: 277u16, 290: 278u16, 295: 279u16, 300: 280u16, 305: 281u16, 310: 282u16, 315: 283u16, 320: 284u16, 325: 285u16, 330: 286u16, 335: 287u16, 340: 288u16, 345: 289u16, 350: 290u16, 355: 291u16, 360: 292u16, 365: 293u16, 370: 294u16, 375: 295u16, 380: 296u16, 385: 297u16, 390: 298u16, 395: 299u16, 400: 300u16, 405: 301u16, 410: 302u16, 415: 303u16, 420: 304u16, 425: 305u16, 430: 306u16, 435: 307u16, 440: 308u16, 445: 309u16, 450: 310u16, 455: 311u16, 460: 312u16, 465: 313u16, 470: 314u16, 475: 315u16, 480: 316u16, 485: 317u16, 490: 318u16, 495: 319u16, 500: 320u16, 505: 321u16, 510: 322u16, 515: 323u16, 520: 324u16, 525: 325u16, 530: 326u16, 535: 327u16, 540: 328u16, 545: 329u16, 550: 330u16, 555: 331u16, 560: 332u16, 565: 333u16, 570: 334u16, 575: 335u16, 580: 336u16, 585: 337u16, 590: 338u16, 595: 339u16, 600: 340u16, 605: 341u16, 610: 342u16, 615: 343u16, 620: 344u16, 625: 345u16, 630: 346u16, 635: 347u16, 640: 348u16, 645: 349u16, 650: 350u16, 655: 351u16, 660: 352u16, 665: 353u16, 670: 354u16, 675: 355u16, 680: 356u16), 60) }
fn c22_u32_256() { int!(u32, 32, [0, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30, 32, 34, 36, 38, 40, 42, 44, 46, 48, 50, 52, 54, 56, 58, 60, 62, 64, 66, 68, 70, 72, 74, 76, 78, 80, 82, 84, 86, 88, 90, 92, 94, 96, 98, 100, 102, 104, 106, 108, 110, 112, 114, 116, 118, 120, 122, 124, 126, 128, 130, 132, 134, 136, 138, 140, 142, 144, 146, 148, 150, 152, 154, 156, 158, 160, 162, 164, 166, 168, 170, 172, 174, 176, 178, 180, 182, 184, 186, 188, 190, 192, 194, 196, 198, 200, 202, 204, 206, 208, 210, 212, 214, 216, 218, 220, 222, 224, 226, 228, 230, 232, 234, 236, 238, 240, 242, 244, 246, 248, 250, 252, 254, 256, 258, 260, 262, 264, 266, 268, 270, 272, 274, 276, 278, 280, 282, 284, 286, 288, 290, 292, 294, 296, 298, 300, 302, 304, 306, 308, 310, 312, 314, 316, 318, 320, 322, 324, 326, 328, 330, 332, 334, 336, 338, 340, 342, 344, 346, 348, 350, 352, 354, 356, 358, 360, 362, 364, 366, 368, 370, 372, 374, 376, 378, 380, 382, 384, 386, 388, 390, 392, 394, 396, 398, 400, 402, 404, 406, 408, 410, 412, 414, 416, 418, 420, 422, 424, 426, 428, 430, 432, 434, 436, 438, 440, 442, 444, 446, 448, 450, 452, 454, 456, 458, 460, 462, 464, 466, 468, 470, 472, 474, 476, 478, 480, 482, 484, 486, 488, 490, 492, 494, 496, 498, 500, 502, 504, 506, 508, 510], frozen_map!(u32, 0: 100u16, 2: 101u16, 4: 102u16, 6: 103u16, 8: 104u16, 10: 105u16, 12: 106u16, 14: 107u16, 16: 108u16, 18: 109u16, 20: 110u16, 22: 111u16, 24: 112u16, 26: 113u16, 28: 114u16, 30: 115u16, 32: 116u16, 34: 117u16, 36: 118u16, 38: 119u16, 40: 120u16, 42: 121u16, 44: 122u16, 46: 123u16, 48: 124u16, 50: 125u16, 52: 126u16, 54: 127u16, 56: 128u16, 58: 129u16, 60: 130u16, 62: 131u16, 64: 132u16, 66: 133u16, 68: 134u16, 70: 135u16, 72: 136u16, 74: 137u16, 76: 138u16, 78: 139u16, 80: 140u16, 82: 141u16, 84: 142u16, 86: 143u16, 88: 144u16, 90: 145u16, 92: 146u16, 94: 147u16, 96: 148u16, 98: 149u16, 100: 150u16, 102: 151u16, 104: 152u16, 106: 153u16, 108: 154u16, 110: 155u16, 112: 156u16, 114: 157u16, 116: 158u16, 118: 159u16, 120: 160u16, 122: 161u16, 124: 162u16, 126: 163u16, 128: 164u16, 130: 165u16, 132: 166u16, 134: 167u16, 136: 168u16, 138: 169u16, 140: 170u16, 142: 171u16, 144: 172u16, 146: 173u16, 148: 174u16, 150: 175u16, 152: 176u16, 154: 177u16, 156: 178u16, 158: 179u16, 160: 180u16, 162: 181u16, 164: 182u16, 166: 183u16, 168: 184u16, 170: 185u16, 172: 186u16, 174: 187u16, 176: 188u16, 178: 189u16, 180: 190u16, 182: 191u16, 184: 192u16, 186: 193u16, 188: 194u16, 190: 195u16, 192: 196u16, 194: 197u16, 196: 198u16, 198: 199u16, 200: 200u16, 202: 201u16, 204: 202u16, 206: 203u16, 208: 204u16, 210: 205u16, 212: 206u16, 214: 207u16, 216: 208u16, 218: 209u16, 220: 210u16, 222: 211u16, 224: 212u16, 226: 213u16, 228: 214u16, 230: 215u16, 232: 216u16, 234: 217u16, 236: 218u16, 238: 219u16, 240: 220u16, 242: 221u16, 244: 222u16, 246: 223u16, 248: 224u16, 250: 225u16, 252: 226u16, 254: 227u16, 256: 228u16, 258: 229u16, 260: 230u16, 262: 231u16, 264: 232u16, 266: 233u16, 268: 234u16, 270: 235u16, 272: 236u16, 274: 237u16, 276: 238u16, 278: 239u16, 280: 240u16, 282: 241u16, 284: 242u16, 286: 243u16, 288: 244u16, 290: 245u16, 292: 246u16, 294: 247u16, 296: 248u16, 298: 249u16, 300: 250u16, 302: 251u16, 304: 252u16, 306: 253u16, 308: 254u16, 310: 255u16, 312: 256u16, 314: 257u16, 316: 258u16, 318: 259u16, 320: 260u16, 322: 261u16, 324: 262u16, 326: 263u16, 328: 264u16, 330: 265u16, 332: 266u16, 334: 267u16, 336: 268u16, 338: 269u16, 340: 270u16, 342: 271u16, 344: 272u16, 346: 273u16, 348: 274u16, 350: 275u16, 352: 276u16, 354: 277u16, 356: 278u16, 358: 279u16, 360: 280u16, 362: 281u16, 364: 282u16, 366: 283u16, 368: 284u16, 370: 285u16, 372: 286u16, 374: 287u16, 376: 288u16, 378: 289u16, 380: 290u16, 382: 291u16, 384: 292u16, 386: 293u16, 388: 294u16, 390: 295u16, 392: 296u16, 394: 297u16, 396: 298u16, 398: 299u16, 400: 300u16, 402: 301u16, 404: 302u16, 406: 303u16, 408: 304u16, 410: 305u16, 412: 306u16, 414: 307u16, 416: 308u16, 418: 309u16, 420: 310u16, 422: 311u16, 424: 312u16, 426: 313u16, 428: 314u16, 430: 315u16, 432: 316u16, 434: 317u16, 436: 318u16, 438: 319u16, 440: 320u16, 442: 321u16, 444: 322u16, 446: 323u16, 448: 324u16, 450: 325u16, 452: 326u16, 454: 327u16, 456: 328u16, 458: 329u16, 460: 330u16, 462: 331u16, 464: 332u16, 466: 333u16, 468: 334u16, 470: 335u16, 472: 336u16, 474: 337u16, 476: 338u16, 478: 339u16, 480: 340u16, 482: 341u16, 484: 342u16, 486: 343u16, 488: 344u16, 490: 345u16, 492: 346u16, 494: 347u16, 496: 348u16, 498: 349u16, 500: 350u16, 502: 351u16, 504: 352u16, 506: 353u16, 508: 354u16, 510: 355u16), 61) }
fn c22_u32_run256() { int!(u32, 32, [7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262], frozen_map!(u32, 7: 100u16, 8: 101u16, 9: 102u16, 10: 103u16, 11: 104u16, 12: 105u16, 13: 106u16, 14: 107u16, 15: 108u16, 16: 109u16, 17: 110u16, 18: 111u16, 19: 112u16, 20: 113u16, 21: 114u16, 22: 115u16, 23: 116u16, 24: 117u16, 25: 118u16, 26: 119u16, 27: 120u16, 28: 121u16, 29: 122u16, 30: 123u16, 31: 124u16, 32: 125u16, 33: 126u16, 34: 127u16, 35: 128u16, 36: 129u16, 37: 130u16, 38: 131u16, 39: 132u16, 40: 133u16, 41: 134u16, 42: 135u16, 43: 136u16, 44: 137u16, 45: 138u16, 46: 139u16, 47: 140u16, 48: 141u16, 49: 142u16, 50: 143u16, 51: 144u16, 52: 145u16, 53: 146u16, 54: 147u16, 55: 148u16, 56: 149u16, 57: 150u16, 58: 151u16, 59: 152u16, 60: 153u16, 61: 154u16, 62: 155u16, 63: 156u16, 64: 157u16, 65: 158u16, 66: 159u16, 67: 160u16, 68: 161u16, 69: 162u16, 70: 163u16, 71: 164u16, 72: 165u16, 73: 166u16, 74: 167u16, 75: 168u16, 76: 169u16, 77: 170u16, 78: 171u16, 79: 172u16, 80: 173u16, 81: 174u16, 82: 175u16, 83: 176u16, 84: 177u16, 85: 178u16, 86: 179u16, 87: 180u16, 88: 181u16, 89: 182u16, 90: 183u16, 91: 184u16, 92: 185u16, 93: 186u16, 94: 187u16, 95: 188u16, 96: 189u16, 97: 190u16, 98: 191u16, 99: 192u16, 100: 193u16, 101: 194u16, 102: 195u16, 103: 196u16, 104: 197u16, 105: 198u16, 106: 199u16, 107: 200u16, 108: 201u16, 109: 202u16, 110: 203u16, 111: 204u16, 112: 205u16, 113: 206u16, 114: 207u16, 115: 208u16, 116: 209u16, 117: 210u16, 118: 211u16, 119: 212u16, 120: 213u16, 121: 214u16, 122: 215u16, 123: 216u16, 124: 217u16, 125: 218u16, 126: 219u16, 127: 220u16, 128: 221u16, 129: 222u16, 130: 223u16, 131: 224u16, 132: 225u16, 133: 226u16, 134: 227u16, 135: 228u16, 136: 229u16, 137: 230u16, 138: 231u16, 139: 232u16, 140: 233u16, 141: 234u16, 142: 235u16, 143: 236u16, 144: 237u16, 145: 238u16, 146: 239u16, 147: 240u16, 148: 241u16, 149: 242u16, 150: 243u16, 151: 244u16, 152: 245u16, 153: 246u16, 154: 247u16, 155: 248u16, 156: 249u16, 157: 250u16, 158: 251u16, 159: 252u16, 160: 253u16, 161: 254u16, 162: 255u16, 163: 256u16, 164: 257u16, 165: 258u16, 166: 259u16, 167: 260u16, 168: 261u16, 169: 262u16, 170: 263u16, 171: 264u16, 172: 265u16, 173: 266u16, 174: 267u16, 175: 268u16, 176: 269u16, 177: 270u16, 178: 271u16, 179: 272u16, 180: 273u16, 181: 274u16, 182: 275u16, 183: 276u16, 184: 277u16, 185: 278u16, 186: 279u16, 187: 280u16, 188: 281u16, 189: 282u16, 190: 283u16, 191: 284u16, 192: 285u16, 193: 286u16, 194: 287u16, 195: 288u16, 196: 289u16, 197: 290u16, 198: 291u16, 199: 292u16, 200: 293u16, 201: 294u16, 202: 295u16, 203: 296u16, 204: 297u16, 205: 298u16, 206: 299u16, 207: 300u16, 208: 301u16, 209: 302u16, 210: 303u16, 211: 304u16, 212: 305u16, 213: 306u16, 214: 307u16, 215: 308u16, 216: 309u16, 217: 310u16, 218: 311u16, 219: 312u16, 220: 313u16, 221: 314u16, 222: 315u16, 223: 316u16, 224: 317u16, 225: 318u16, 226: 319u16, 227: 320u16, 228: 321u16, 229: 322u16, 230: 323u16, 231: 324u16, 232: 325u16, 233: 326u16, 234: 327u16, 235: 328u16, 236: 329u16, 237: 330u16, 238: 331u16, 239: 332u16, 240: 333u16, 241: 334u16, 242: 335u16, 243: 336u16, 244: 337u16, 245: 338u16, 246: 339u16, 247: 340u16, 248: 341u16, 249: 342u16, 250: 343u16, 251: 344u16, 252: 345u16, 253: 346u16, 254: 347u16, 255: 348u16, 256: 349u16, 257: 350u16, 258: 351u16, 259: 352u16, 260: 353u16, 261: 354u16, 262: 355u16), 62) }
fn c22_str_two() { str!(["a", "b"], frozen_map!(&str, "a": 100u16, "b": 101u16), 63) }
fn c22_str_one() { str!(["same"], frozen_map!(&str, "same": 100u16), 64) }
fn c22_str_len() { str!(["", "a", "bb", "ccc"], frozen_map!(&str, "": 100u16, "a": 101u16, "bb": 102u16, "ccc": 103u16), 65) }
fn c22_str_len2() { str!(["red", "blue", "white", "orange!"], frozen_map!(&str, "red": 100u16, "blue": 101u16, "white": 102u16, "orange!": 103u16), 66) }
fn c22_str_left() { str!(["ant_x", "bee_x", "cow_x", "dog_x", "elk_x"], frozen_map!(&str, "ant_x": 100u16, "bee_x": 101u16, "cow_x": 102u16, "dog_x": 103u16, "elk_x": 104u16), 67) }
fn c22_str_left2() { str!(["x1", "x2", "x3", "x4"], frozen_map!(&str, "x1": 100u16, "x2": 101u16, "x3": 102u16, "x4": 103u16), 68) }
fn c22_str_right() { str!(["first_key", "second_key", "third_key", "fourth_key", "fifth_key"], frozen_map!(&str, "first_key": 100u16, "second_key": 101u16, "third_key": 102u16, "fourth_key": 103u16, "fifth_key": 104u16), 69) }
fn c22_str_right2() { str!(["kk-a", "kk-bb", "kk-cc", "kkk-d"], frozen_map!(&str, "kk-a": 100u16, "kk-bb": 101u16, "kk-cc": 102u16, "kkk-d": 103u16), 70) }
fn c22_str_empty() { str!(["", "ab", "cd", "ef"], frozen_map!(&str, "": 100u16, "ab": 101u16, "cd": 102u16, "ef": 103u16), 71) }
fn c22_str_utf() { str!(["é", "è", "ê", "ab"], frozen_map!(&str, "é": 100u16, "è": 101u16, "ê": 102u16, "ab": 103u16), 72) }
fn c22_str_mid() { str!(["xaay", "xaby", "xbay", "xbby", "xccy"], frozen_map!(&str, "xaay": 100u16, "xaby": 101u16, "xbay": 102u16, "xbby": 103u16, "xccy": 104u16), 73) }
fn c22_str_dense() { str!(["aa", "ab", "ba", "bb", "a", "b", "", "abc"], frozen_map!(&str, "aa": 100u16, "ab": 101u16, "ba": 102u16, "bb": 103u16, "a": 104u16, "b": 105u16, "": 106u16, "abc": 107u16), 74) }
fn c22_str_p1() { str!(["xxa", "xxb", "xxc", "xxd", "xxe", "xxf", "xxgh"], frozen_map!(&str, "xxa": 100u16, "xxb": 101u16, "xxc": 102u16, "xxd": 103u16, "xxe": 104u16, "xxf": 105u16, "xxgh": 106u16), 77) }
fn c22_str_p2() { str!(["xab", "xac", "xbb", "xbc", "xcb", "xcc"], frozen_map!(&str, "xab": 100u16, "xac": 101u16, "xbb": 102u16, "xbc": 103u16, "xcb": 104u16, "xcc": 105u16), 78) }
fn c22_str_p3() { str!(["keyaaz", "keybaz", "keycaz", "keydazz", "keye"], frozen_map!(&str, "keyaaz": 100u16, "keybaz": 101u16, "keycaz": 102u16, "keydazz": 103u16, "keye": 104u16), 79) }
fn c22_str_p4() { str!(["pre-one", "pre-two", "pre-six", "pre-ten"], frozen_map!(&str, "pre-one": 100u16, "pre-two": 101u16, "pre-six": 102u16, "pre-ten": 103u16), 80) }
fn c22_str_r1() { str!(["x-az", "xx-bz", "xxx-cz", "x-dz", "xx-ez", "xxx-fz"], frozen_map!(&str, "x-az": 100u16, "xx-bz": 101u16, "xxx-cz": 102u16, "x-dz": 103u16, "xx-ez": 104u16, "xxx-fz": 105u16), 81) }
fn c22_str_r2() { str!(["1aaz", "22abz", "333baz", "4bbz", "55caz"], frozen_map!(&str, "1aaz": 100u16, "22abz": 101u16, "333baz": 102u16, "4bbz": 103u16, "55caz": 104u16), 82) }
fn c22_str_q1() { str!(["ab_one", "ab_two", "ab_three", "ab_four", "ab_five", "ab_six"], frozen_map!(&str, "ab_one": 100u16, "ab_two": 101u16, "ab_three": 102u16, "ab_four": 103u16, "ab_five": 104u16, "ab_six": 105u16), 83) }
fn c22_str_260() { str!(["cgabbf", "adabggbd", "gabd", "agadacegc", "becbdfbb", "adhgfhhf", "dcdbeh", "hebbgc", "chgabf", "fhhbbe", "baehegf", "hfcb", "adecdgg", "bchgecg", "egfgdcbc", "ddahc", "eacgff", "ahggg", "bhgadbd", "cbfabac", "bfabdgce", "fhbbhh", "hebcbfe", "cadfcae", "befcfdfdd", "gddhf", "aaehedfhf", "bdbdhd", "dhahfb", "bgdhcgfbg", "gbcccac", "hchfccaa", "bcgddaede", "dfegcafh", "gccahcacc", "hbafh", "adde", "bhab", "fdehhde", "dhcgbghf", "dgbd", "ebcfcechd", "bghcdcggf", "dffbfaf", "hhagfebb", "bbeea", "ecgeg", "hfbea", "cgbeabebd", "ebha", "gecadb", "eacde", "edehcefae", "aadh", "hbghg", "eddfdcgf", "cabe", "cabgede", "hcce", "aefffda", "dfcafg", "hedd", "abebcgag", "eedb", "cgfhceca", "gcadbaacf", "ghaa", "dheahbbbh", "bedddh", "gbheadb", "cfeecaha", "ebdheeh", "hbdebha", "hbhegd", "bbcef", "ebfdh", "gacahhg", "cgfgfb", "affgbd", "aeefbggbf", "eaebaec", "egfdf", "agdbagh", "cehacchg", "eeeegd", "hgbccb", "hdhfh", "cddbcfb", "dfedag", "gdgefah", "fcdbed", "ghgeaca", "hhabghh", "bdccb", "hbaacdaec", "egbbbedge", "aaehe", "dhddag", "eaadhgbed", "gfdhafgfg", "aebdh", "eddhd", "ebhcdh", "acgadac", "aacghfb", "cfdc", "haegffhcb", "bebf", "bdgfegb", "hdfh", "ffhag", "gagah", "aedb", "ffefaefe", "abadbh", "hgeghchca", "ecdffhfbd", "cdgbahf", "gbbeb", "bghhc", "cghdb", "eeefee", "hdcdd", "edfbg", "ddbhab", "hdhf", "edba", "dbfch", "eabfdaff", "adead", "fgfc", "ebdahhbg", "gcbc", "egeegae", "fggafdggd", "gcgb", "gfhc", "aacgb", "fccfeccb", "ghde", "ahfag", "cdgd", "cdagcgf", "cdda", "afbghege", "dggfhhca", "hhdh", "hchgbbcf", "fbhaacb", "fbagcabbd", "hecdb", "ecfehc", "hdedff", "dcgc", "efgcebafh", "begfegfc", "fbhdca", "eefaad", "eggfa", "hdaaa", "febf", "dgecdfhc", "adchb", "cege", "afhh", "caaaa", "cdcabad", "gdgce", "eaha", "ghbhcdb", "dabfea", "geedba", "eddcf", "gfdgh", "aagdedg", "bccaabbc", "caaaca", "babfdbgbd", "dbaab", "ehbcbdeff", "eafeeaf", "heagag", "bfhadbec", "adeaafh", "hchf", "eceddhcb", "bhbffbggb", "afdeegc", "dhcaffc", "fchhedc", "hddeec", "cdffcdfde", "bcbdgccee", "edbbedg", "aaggdeh", "cega", "dggddcbhg", "ebgdgc", "ghhagc", "faghbaedc", "dfbhdhaff", "hdcgbfa", "eggaab", "gfebdeg", "dghdccbd", "dcfghec", "fdegegc", "aefdefh", "gbfcega", "fcfa", "adbeebcdc", "fcdgcbe", "hdbhb", "begdchha", "hchdhca", "fhheh", "ggbcfa", "afbh", "cadgcfb", "ffhdegfge", "aeefhgfe", "fdhbfdfe", "bagga", "ebaadha", "gcbdahcb", "cagbafcee", "cgafag", "ahabgghb", "gchg", "bbhdcaga", "bbdb", "haedh", "cafcbehhe", "aaaa", "bgeechaff", "hhccbfcg", "ghefeea", "facegdgg", "gdheafeeg", "aecce", "hfbhgdde", "aghdeagh", "bfbdgefh", "ddddbcef", "fgcdahfb", "hbcfaf", "abadhd", "egbhce", "fdcg", "aaaf", "hhbgbbefd", "bgchcfddc", "efaa", "ehab", "fadeh", "bhffegbfh", "chdcahd", "cdbf", "chbgabhff", "hbfcf"], frozen_map!(&str, "cgabbf": 100u16, "adabggbd": 101u16, "gabd": 102u16, "agadacegc": 103u16, "becbdfbb": 104u16, "adhgfhhf": 105u16, "dcdbeh": 106u16, "hebbgc": 107u16, "chgabf": 108u16, "fhhbbe": 109u16, "baehegf": 110u16, "hfcb": 111u16, "adecdgg": 112u16, "bchgecg": 113u16, "egfgdcbc": 114u16, "ddahc": 115u16, "eacgff": 116u16, "ahggg": 117u16, "bhgadbd": 118u16, "cbfabac": 119u16, "bfabdgce": 120u16, "fhbbhh": 121u16, "hebcbfe": 122u16, "cadfcae": 123u16, "befcfdfdd": 124u16, "gddhf": 125u16, "aaehedfhf": 126u16, "bdbdhd": 127u16, "dhahfb": 128u16, "bgdhcgfbg": 129u16, "gbcccac": 130u16, "hchfccaa": 131u16, "bcgddaede": 132u16, "dfegcafh": 133u16, "gccahcacc": 134u16, "hbafh": 135u16, "adde": 136u16, "bhab": 137u16, "fdehhde": 138u16, "dhcgbghf": 139u16, "dgbd": 140u16, "ebcfcechd": 141u16, "bghcdcggf": 142u16, "dffbfaf": 143u16, "hhagfebb": 144u16, "bbeea": 145u16, "ecgeg": 146u16, "hfbea": 147u16, "cgbeabebd": 148u16, "ebha": 149u16, "gecadb": 150u16, "eacde": 151u16, "edehcefae": 152u16, "aadh": 153u16, "hbghg": 154u16, "eddfdcgf": 155u16, "cabe": 156u16, "cabgede": 157u16, "hcce": 158u16, "aefffda": 159u16, "dfcafg": 160u16, "hedd": 161u16, "abebcgag": 162u16, "eedb": 163u16, "cgfhceca": 164u16, "gcadbaacf": 165u16, "ghaa": 166u16, "dheahbbbh": 167u16, "bedddh": 168u16, "gbheadb": 169u16, "cfeecaha": 170u16, "ebdheeh": 171u16, "hbdebha": 172u16, "hbhegd": 173u16, "bbcef": 174u16, "ebfdh": 175u16, "gacahhg": 176u16, "cgfgfb": 177u16, "affgbd": 178u16, "aeefbggbf": 179u16, "eaebaec": 180u16, "egfdf": 181u16, "agdbagh": 182u16, "cehacchg": 183u16, "eeeegd": 184u16, "hgbccb": 185u16, "hdhfh": 186u16, "cddbcfb": 187u16, "dfedag": 188u16, "gdgefah": 189u16, "fcdbed": 190u16, "ghgeaca": 191u16, "hhabghh": 192u16, "bdccb": 193u16, "hbaacdaec": 194u16, "egbbbedge": 195u16, "aaehe": 196u16, "dhddag": 197u16, "eaadhgbed": 198u16, "gfdhafgfg": 199u16, "aebdh": 200u16, "eddhd": 201u16, "ebhcdh": 202u16, "acgadac": 203u16, "aacghfb": 204u16, "cfdc": 205u16, "haegffhcb": 206u16, "bebf": 207u16, "bdgfegb": 208u16, "hdfh": 209u16, "ffhag": 210u16, "gagah": 211u16, "aedb": 212u16, "ffefaefe": 213u16, "abadbh": 214u16, "hgeghchca": 215u16, "ecdffhfbd": 216u16, "cdgbahf": 217u16, "gbbeb": 218u16, "bghhc": 219u16, "cghdb": 220u16, "eeefee": 221u16, "hdcdd": 222u16, "edfbg": 223u16, "ddbhab": 224u16, "hdhf": 225u16, "edba": 226u16, "dbfch": 227u16, "eabfdaff": 228u16, "adead": 229u16, "fgfc": 230u16, "ebdahhbg": 231u16, "gcbc": 232u16, "egeegae": 233u16, "fggafdggd": 234u16, "gcgb": 235u16, "gfhc": 236u16, "aacgb": 237u16, "fccfeccb": 238u16, "ghde": 239u16, "ahfag": 240u16, "cdgd": 241u16, "cdagcgf": 242u16, "cdda": 243u16, "afbghege": 244u16, "dggfhhca": 245u16, "hhdh": 246u16, "hchgbbcf": 247u16, "fbhaacb": 248u16, "fbagcabbd": 249u16, "hecdb": 250u16, "ecfehc": 251u16, "hdedff": 252u16, "dcgc": 253u16, "efgcebafh": 254u16, "begfegfc": 255u16, "fbhdca": 256u16, "eefaad": 257u16, "eggfa": 258u16, "hdaaa": 259u16, "febf": 260u16, "dgecdfhc": 261u16, "adchb": 262u16, "cege": 263u16, "afhh": 264u16, "caaaa": 265u16, "cdcabad": 266u16, "gdgce": 267u16, "eaha": 268u16, "ghbhcdb": 269u16, "dabfea": 270u16, "geedba": 271u16, "eddcf": 272u16, "gfdgh": 273u16, "aagdedg": 274u16, "bccaabbc": 275u16, "caaaca": 276u16, "babfdbgbd": 277u16, "dbaab": 278u16, "ehbcbdeff": 279u16, "eafeeaf": 280u16, "heagag": 281u16, "bfhadbec": 282u16, "adeaafh": 283u16, "hchf": 284u16, "eceddhcb": 285u16, "bhbffbggb": 286u16, "afdeegc": 287u16, "dhcaffc": 288u16, "fchhedc": 289u16, "hddeec": 290u16, "cdffcdfde": 291u16, "bcbdgccee": 292u16, "edbbedg": 293u16, "aaggdeh": 294u16, "cega": 295u16, "dggddcbhg": 296u16, "ebgdgc": 297u16, "ghhagc": 298u16, "faghbaedc": 299u16, "dfbhdhaff": 300u16, "hdcgbfa": 301u16, "eggaab": 302u16, "gfebdeg": 303u16, "dghdccbd": 304u16, "dcfghec": 305u16, "fdegegc": 306u16, "aefdefh": 307u16, "gbfcega": 308u16, "fcfa": 309u16, "adbeebcdc": 310u16, "fcdgcbe": 311u16, "hdbhb": 312u16, "begdchha": 313u16, "hchdhca": 314u16, "fhheh": 315u16, "ggbcfa": 316u16, "afbh": 317u16, "cadgcfb": 318u16, "ffhdegfge": 319u16, "aeefhgfe": 320u16, "fdhbfdfe": 321u16, "bagga": 322u16, "ebaadha": 323u16, "gcbdahcb": 324u16, "cagbafcee": 325u16, "cgafag": 326u16, "ahabgghb": 327u16, "gchg": 328u16, "bbhdcaga": 329u16, "bbdb": 330u16, "haedh": 331u16, "cafcbehhe": 332u16, "aaaa": 333u16, "bgeechaff": 334u16, "hhccbfcg": 335u16, "ghefeea": 336u16, "facegdgg": 337u16, "gdheafeeg": 338u16, "aecce": 339u16, "hfbhgdde": 340u16, "aghdeagh": 341u16, "bfbdgefh": 342u16, "ddddbcef": 343u16, "fgcdahfb": 344u16, "hbcfaf": 345u16, "abadhd": 346u16, "egbhce": 347u16, "fdcg": 348u16, "aaaf": 349u16, "hhbgbbefd": 350u16, "bgchcfddc": 351u16, "efaa": 352u16, "ehab": 353u16, "fadeh": 354u16, "bhffegbfh": 355u16, "chdcahd": 356u16, "cdbf": 357u16, "chbgabhff": 358u16, "hbfcf": 359u16), 75) }
fn c22_str_40() { str!(["aebdh", "eddhd", "ebhcdh", "acgadac", "aacghfb", "cfdc", "haegffhcb", "bebf", "bdgfegb", "hdfh", "ffhag", "gagah", "aedb", "ffefaefe", "abadbh", "hgeghchca", "ecdffhfbd", "cdgbahf", "gbbeb", "bghhc", "cghdb", "eeefee", "hdcdd", "edfbg", "ddbhab", "hdhf", "edba", "dbfch", "eabfdaff", "adead", "fgfc", "ebdahhbg", "gcbc", "egeegae", "fggafdggd", "gcgb", "gfhc", "aacgb", "fccfeccb", "ghde"], frozen_map!(&str, "aebdh": 100u16, "eddhd": 101u16, "ebhcdh": 102u16, "acgadac": 103u16, "aacghfb": 104u16, "cfdc": 105u16, "haegffhcb": 106u16, "bebf": 107u16, "bdgfegb": 108u16, "hdfh": 109u16, "ffhag": 110u16, "gagah": 111u16, "aedb": 112u16, "ffefaefe": 113u16, "abadbh": 114u16, "hgeghchca": 115u16, "ecdffhfbd": 116u16, "cdgbahf": 117u16, "gbbeb": 118u16, "bghhc": 119u16, "cghdb": 120u16, "eeefee": 121u16, "hdcdd": 122u16, "edfbg": 123u16, "ddbhab": 124u16, "hdhf": 125u16, "edba": 126u16, "dbfch": 127u16, "eabfdaff": 128u16, "adead": 129u16, "fgfc": 130u16, "ebdahhbg": 131u16, "gcbc": 132u16, "egeegae": 133u16, "fggafdggd": 134u16, "gcgb": 135u16, "gfhc": 136u16, "aacgb": 137u16, "fccfeccb": 138u16, "ghde": 139u16), 76) }
// keys that are expressions
fn c22_pairs() {
    let b = any(10) as u16;
    let m = frozen_map!(P, P(b, 1): 100u16, P(f(b), 1): 101, P(b, -1): 102, P(LIMIT + 600, 0): 103,);
    let keys = [P(b, 1), P(b + 1, 1), P(b, -1), P(1100, 0)];
    let q = P(any_u16(), any_u8() as i8);
    let mut e = None;
    for i in 0..4 { if keys[i] == q { e = Some(100 + i as u16); } check!(m.get(&keys[i]) == Some(&val(i))); }
    check!(m.get(&q).copied() == e && m.len() == 4);
    reach(200);
}
fn c22_enum() {
    let m = frozen_map!(E, E::A: 100u16, E::B(3): 101, E::B(4): 102, E::C { x: 7 }: 103, E::C { x: LIMIT }: 104);
    let keys = [E::A, E::B(3), E::B(4), E::C { x: 7 }, E::C { x: 500 }];
    let q = match pick(4) { 0 => E::A, 1 => E::B(any_u8()), 2 => E::C { x: any_u16() }, _ => E::D };
    let mut e = None;
    for i in 0..5 { if keys[i] == q { e = Some(val(i)); } check!(m.get(&keys[i]) == Some(&val(i))); }
    check!(m.get(&q).copied() == e && m.len() == 5);
    reach(201);
}
fn c22_chars() {
    let m = frozen_map!(char, 'x': 100u16, ':': 101, ',': 102, 'é': 103);
    let q = char::from_u32(any(8) as u32).unwrap();
    let e = match q { 'x' => Some(100), ':' => Some(101), ',' => Some(102), 'é' => Some(103), _ => None };
    check!(m.get(&q).copied() == e && m.len() == 4);
    reach(202);
}
fn c22_usize() {
    let m = frozen_map!(usize, 3: 100u16, 4: 101, 5: 102, 18446744073709551615: 103);
    let q = any_u64() as usize;
    let e = match q { 3 => Some(100), 4 => Some(101), 5 => Some(102), usize::MAX => Some(103), _ => None };
    check!(m.get(&q).copied() == e && m.len() == 4);
    let m = frozen_map!(isize, 1 - 3: 100u16, 4: 101, LIMIT as isize: 102);
    let q = any_u64() as isize;
    let e = match q { -2 => Some(100), 4 => Some(101), 500 => Some(102), _ => None };
    check!(m.get(&q).copied() == e);
    let m = frozen_map!(bool, true: 1u16, false: 2);
    check!(m.get(&true) == Some(&1) && m.get(&false) == Some(&2) && m.len() == 2);
    reach(203);
}
fn c22_tuples() {
    let m = frozen_map!((u8, bool), (1, true): 100u16, (1, false): 101, (2, true): 102);
    let q = (any_u8(), any_bool());
    let e = match q { (1, true) => Some(100), (1, false) => Some(101), (2, true) => Some(102), _ => None };
    check!(m.get(&q).copied() == e);
    let m = frozen_map!(String, "a".to_string(): 100u16, String::new(): 101, format!("{}b", "a"): 102);
    let q = match pick(4) { 0 => "a", 1 => "", 2 => "ab", _ => "b" }.to_string();
    let e = match q.as_str() { "a" => Some(100), "" => Some(101), "ab" => Some(102), _ => None };
    check!(m.get(&q).copied() == e);
    reach(204);
}
// values that are expressions, evaluated once each, whatever the map becomes
fn c22_values() {
    let log = RefCell::new(Vec::new());
    let x = any_u16();
    let g = |i: u16| { log.borrow_mut().push(i); x ^ i };
    let m: Vec<(Option<u16>, Option<u16>, Option<u16>, usize)> = match pick(5) {
        0 => { let m = frozen_map!(u16, 7: g(1), 8: g(2), 9: { let t = g(3); t }); vec![(m.get(&7).copied(), m.get(&8).copied(), m.get(&9).copied(), m.len())] }
        1 => { let m = frozen_map!(i64, -7: g(1), 8: g(2), 90000000000: if x > 3 { g(3) } else { g(3) },); vec![(m.get(&-7).copied(), m.get(&8).copied(), m.get(&90000000000).copied(), m.len())] }
        2 => { let m = frozen_map!(&str, "a": g(1), "bb": g(2), "ccc": match x { _ => g(3) }); let l = |s: &str| Look::look(&m, s); vec![(l("a"), l("bb"), l("ccc"), m.len())] }
        3 => { let m = frozen_map!(&str, "ax": g(1), "bx": g(2), "cx": g(3), "dx": 5,); let l = |s: &str| Look::look(&m, s); check!(l("dx") == Some(5)); vec![(l("ax"), l("bx"), l("cx"), m.len() - 1)] }
        _ => { let m = frozen_map!(P, P(1, 1): g(1), P(2, 2): g(2), P(3, 3): (|| g(3))()); vec![(m.get(&P(1, 1)).copied(), m.get(&P(2, 2)).copied(), m.get(&P(3, 3)).copied(), m.len())] }
    };
    check!(m[0] == (Some(x ^ 1), Some(x ^ 2), Some(x ^ 3), 3));
    let mut l = log.into_inner();
    l.sort();
    check!(l == [1, 2, 3]);
    reach(205);
}
// other types of values, no entries at all, suffixes and other bases
fn c22_forms() {
    let m = frozen_map!(u32, 0x10: "a".to_string(), 1_000: String::new(), 0b11u32: "c".to_string());
    let q = any_u32();
    match m.get(&q) { Some(s) => check!(match q { 16 => s == "a", 1000 => s == "", 3 => s == "c", _ => false }), None => check!(q != 16 && q != 1000 && q != 3) }
    let m = frozen_map!(u8, 1: (), 2: (), 3: ());
    let q = any_u8();
    check!(m.contains_key(&q) == (q >= 1 && q <= 3));
    let m = frozen_map!(i16, -0x7: 1.5f64, 0o17: 2.5, -32768: 3.5);
    check!(m.get(&-7) == Some(&1.5) && m.get(&15) == Some(&2.5) && m.get(&-32768) == Some(&3.5) && m.get(&7).is_none());
    let m: ScanningMap<u32, u16> = frozen_map!(u32,);
    check!(m.len() == 0 && m.get(&q.into()).is_none());
    let m = frozen_map!(&str, "only": [1, 2]);
    check!(m.get(&"only") == Some(&[1, 2]) && m.get(&"").is_none());
    reach(206);
}
// one map inside another
fn c22_nested() {
    let m = frozen_map!(u16, 1: frozen_map!(u8, 5: 1u16, 6: 2, 7: 3), 2: frozen_map!(u8, 9: 4u16, 8: 5, 7: 6), 4: frozen_map!(u8, 1: 7u16, 2: 8, 3: 9));
    let (a, b) = (any_u16(), any_u8());
    let e = match (a, b) { (1, 5) => 1, (1, 6) => 2, (1, 7) => 3, (2, 9) => 4, (2, 8) => 5, (2, 7) => 6, (4, 1) => 7, (4, 2) => 8, (4, 3) => 9, _ => 0 };
    check!(m.get(&a).and_then(|i| i.get(&b)).copied().unwrap_or(0) == e);
    reach(207);
}
}
