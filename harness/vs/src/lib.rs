//! Interface between harnesses and the symbolic executor (or, natively, the replay runtime).
//!
//! Under the executor every function here is external and modelled by the engine; natively
//! (`--cfg vs_native`) the same harness runs on the input values of a witness.

#[cfg(not(vs_native))]
mod imp {
    extern "C" {
        pub fn vs_in(bits: u32) -> u64;
        pub fn vs_assume(b: bool);
        pub fn vs_assert(b: bool, id: u32);
        pub fn vs_reach(id: u32);
        pub fn vs_expect_panic(id: u32);
        pub fn vs_observe(v: u64);
        pub fn vs_conc(v: u64) -> u64;
        pub fn vs_heap() -> u64;
        pub fn vs_log(v: u64);
    }
}
#[cfg(vs_native)]
mod imp;
#[cfg(vs_native)]
pub use imp::replay_main;

/// an arbitrary value of the given number of bits
#[inline]
pub fn any(bits: u32) -> u64 { unsafe { imp::vs_in(bits) } }
#[inline]
pub fn any_u8() -> u8 { any(8) as u8 }
#[inline]
pub fn any_u16() -> u16 { any(16) as u16 }
#[inline]
pub fn any_u32() -> u32 { any(32) as u32 }
#[inline]
pub fn any_u64() -> u64 { any(64) }
#[inline]
pub fn any_bool() -> bool { any(1) & 1 == 1 }
/// an arbitrary value below n
#[inline]
pub fn below(n: u64) -> u64 {
    let mut b = 1;
    while b < 64 && (1u64 << b) < n { b += 1; }
    let v = any(b);
    assume(v < n);
    v
}
/// only executions where b holds count
#[inline]
pub fn assume(b: bool) { unsafe { imp::vs_assume(b) } }
/// the property: b must hold
#[inline]
pub fn check(b: bool, id: u32) { unsafe { imp::vs_assert(b, id) } }
/// witness that this point is reached
#[inline]
pub fn reach(id: u32) { unsafe { imp::vs_reach(id) } }
/// from here on a panic is required (0: no longer)
#[inline]
pub fn expect_panic(id: u32) { unsafe { imp::vs_expect_panic(id) } }
/// from here on a panic is acceptable
#[inline]
pub fn allow_panic() { unsafe { imp::vs_expect_panic(u32::MAX) } }
/// compared between the symbolic path and the native run of its witness
#[inline]
pub fn observe(v: u64) { unsafe { imp::vs_observe(v) } }
/// case-split on the value
#[inline]
pub fn conc(v: u64) -> u64 { unsafe { imp::vs_conc(v) } }
/// an arbitrary value below n, case-split
#[inline]
pub fn pick(n: u64) -> usize {
    // bit by bit, so that the cases split evenly
    let (mut v, mut b) = (0u64, 64 - n.saturating_sub(1).leading_zeros());
    while b > 0 {
        b -= 1;
        // the low bits can still make up the rest only if v stays below n
        if v | 1 << b < n { v |= conc(any(1)) << b; }
    }
    v as usize
}
/// live heap allocations
#[inline]
pub fn heap() -> u64 { unsafe { imp::vs_heap() } }
#[inline]
pub fn log(v: u64) { unsafe { imp::vs_log(v) } }

#[macro_export]
macro_rules! check {
    ($e:expr) => { $crate::check($e, line!()) };
}

/// declares harnesses: unmangled functions for the executor and a table for the native replay
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* fn $n:ident() $b:block )*) => {
        $( $(#[$m])* #[no_mangle] pub extern "Rust" fn $n() $b )*
        pub const TABLE: &[(&str, fn())] = &[ $( (stringify!($n), $n as fn()) ),* ];
    };
}
