//! What ThreadSanitizer's instrumentation calls for atomic operations, without ThreadSanitizer: each operation
//! first reports to the scheduler and is then carried out sequentially consistently.
//!
//! The library under test and the harness are compiled with `-Zsanitizer=thread` restricted to atomics (see
//! tools/rustc-mc.sh); this crate is not, and takes the place of the sanitizer's runtime.
#![allow(clippy::missing_safety_doc)]
use std::sync::atomic::{fence, AtomicPtr, AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::*};

static POINT: AtomicPtr<()> = AtomicPtr::new(std::ptr::null_mut());
/// Have `f(address, reads)` called before every atomic operation; `reads`: it may leave the value as it is.
pub fn on_atomic(f: fn(usize, bool)) {
    POINT.store(f as *mut (), Relaxed);
}
#[inline]
fn point(addr: usize, reads: bool) {
    let p = POINT.load(Relaxed);
    if !p.is_null() {
        let f: fn(usize, bool) = unsafe { std::mem::transmute(p) };
        f(addr, reads)
    }
}
#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    fence(SeqCst)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}
macro_rules! ops {
    ($($T:ty, $A:ty, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $cas:ident, $strong:ident, $weak:ident;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $load(a: *const $A, _: i32) -> $T {
            point(a as usize, true);
            (*a).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(a: *const $A, v: $T, _: i32) {
            point(a as usize, false);
            (*a).store(v, SeqCst)
        }
        ops!{@rmw $T, $A; $xchg swap; $add fetch_add; $sub fetch_sub; $and fetch_and; $or fetch_or; $xor fetch_xor; $nand fetch_nand;}
        #[no_mangle]
        pub unsafe extern "C" fn $cas(a: *const $A, c: $T, v: $T, _: i32, _: i32) -> $T {
            // a failing exchange in a loop is a way of spinning
            point(a as usize, true);
            match (*a).compare_exchange(c, v, SeqCst, SeqCst) {
                Ok(x) | Err(x) => x,
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $strong(a: *const $A, c: *mut $T, v: $T, _: i32, _: i32) -> i32 {
            point(a as usize, true);
            match (*a).compare_exchange(*c, v, SeqCst, SeqCst) {
                Ok(_) => 1,
                Err(x) => {
                    *c = x;
                    0
                }
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $weak(a: *const $A, c: *mut $T, v: $T, m: i32, n: i32) -> i32 {
            $strong(a, c, v, m, n)
        }
    )*};
    (@rmw $T:ty, $A:ty; $($f:ident $m:ident;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $f(a: *const $A, v: $T, _: i32) -> $T {
            // so is an operation that would change nothing
            let t = <$A>::new((*a).load(SeqCst));
            let before = t.$m(v, SeqCst);
            point(a as usize, before == t.load(SeqCst));
            (*a).$m(v, SeqCst)
        }
    )*};
}
ops! {
    u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val, __tsan_atomic8_compare_exchange_strong, __tsan_atomic8_compare_exchange_weak;
    u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val, __tsan_atomic16_compare_exchange_strong, __tsan_atomic16_compare_exchange_weak;
    u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val, __tsan_atomic32_compare_exchange_strong, __tsan_atomic32_compare_exchange_weak;
    u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val, __tsan_atomic64_compare_exchange_strong, __tsan_atomic64_compare_exchange_weak;
}
