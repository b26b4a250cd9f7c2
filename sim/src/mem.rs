//! Shared memory: the library is compiled with the compiler's thread-sanitizer instrumentation, but these are the
//! functions it calls. Every atomic access, and every plain access to writable static data, made by the code under
//! test is a point where the simulated scheduler may run another client, so that races are found even in stretches of
//! code that neither allocate nor call anything. Accesses to memory only one thread can see cost one comparison.
use crate::rt::shared_point;
use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::*};

static LO: AtomicUsize = AtomicUsize::new(usize::MAX);
static LEN: AtomicUsize = AtomicUsize::new(0);
/// the log crate's level: read before every log record, written by the harness alone
static LEVEL: AtomicUsize = AtomicUsize::new(0);
extern "C" { static mut data_start: u8; static mut _end: u8; }

pub fn init() {
    let (lo, hi) = unsafe { (std::ptr::addr_of_mut!(data_start) as usize, std::ptr::addr_of_mut!(_end) as usize) };
    assert!(lo < hi);
    // the address of the level is found by changing it
    let words = || -> Vec<usize> { ((lo + 7) & !7..hi & !7).step_by(8).map(|p| unsafe { std::ptr::read_volatile(p as *const usize) }).collect() };
    let old = log::max_level();
    log::set_max_level(log::LevelFilter::Off); let a = words();
    log::set_max_level(log::LevelFilter::Trace); let b = words();
    log::set_max_level(log::LevelFilter::Debug); let c = words();
    log::set_max_level(old);
    let hits: Vec<usize> = (0..a.len()).filter(|&i| a[i] == 0 && b[i] == 5 && c[i] == 4).collect();
    if let [i] = hits[..] { LEVEL.store(((lo + 7) & !7) + i * 8, Relaxed); }
    LEN.store(hi - lo, Relaxed);
    LO.store(lo, Relaxed);
}
#[inline] fn plain(a: *const u8) { if (a as usize).wrapping_sub(LO.load(Relaxed)) < LEN.load(Relaxed) { shared_point(); } }
#[inline] fn atomic(a: *const u8) { if a as usize != LEVEL.load(Relaxed) { shared_point(); } }

#[no_mangle] pub extern "C" fn __tsan_init() {}
#[no_mangle] pub extern "C" fn __tsan_func_entry(_: *const u8) {}
#[no_mangle] pub extern "C" fn __tsan_func_exit() {}
#[no_mangle] pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {}
#[no_mangle] pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}
#[no_mangle] pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { plain(s); plain(d); std::ptr::copy_nonoverlapping(s, d, n); d }
#[no_mangle] pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { plain(s); plain(d); std::ptr::copy(s, d, n); d }
#[no_mangle] pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 { plain(d); std::ptr::write_bytes(d, c as u8, n); d }
macro_rules! plains { ($($f:ident)*) => { $(#[no_mangle] pub extern "C" fn $f(a: *const u8) { plain(a) })* } }
plains! { __tsan_read1 __tsan_read2 __tsan_read4 __tsan_read8 __tsan_read16 __tsan_write1 __tsan_write2 __tsan_write4 __tsan_write8 __tsan_write16
    __tsan_unaligned_read2 __tsan_unaligned_read4 __tsan_unaligned_read8 __tsan_unaligned_read16
    __tsan_unaligned_write2 __tsan_unaligned_write4 __tsan_unaligned_write8 __tsan_unaligned_write16
    __tsan_read_write1 __tsan_read_write2 __tsan_read_write4 __tsan_read_write8 __tsan_read_write16
    __tsan_unaligned_read_write2 __tsan_unaligned_read_write4 __tsan_unaligned_read_write8 __tsan_unaligned_read_write16
    __tsan_volatile_read1 __tsan_volatile_read2 __tsan_volatile_read4 __tsan_volatile_read8 __tsan_volatile_read16
    __tsan_volatile_write1 __tsan_volatile_write2 __tsan_volatile_write4 __tsan_volatile_write8 __tsan_volatile_write16 }
#[no_mangle] pub extern "C" fn __tsan_read_range(a: *const u8, _: usize) { plain(a) }
#[no_mangle] pub extern "C" fn __tsan_write_range(a: *const u8, _: usize) { plain(a) }
#[no_mangle] pub extern "C" fn __tsan_vptr_read(a: *const u8) { plain(a) }
#[no_mangle] pub extern "C" fn __tsan_vptr_update(a: *const u8, _: *const u8) { plain(a) }
macro_rules! atomics { ($t:ty, $at:ty, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident $strong:ident $weak:ident) => {
    #[no_mangle] pub unsafe extern "C" fn $load(a: *mut $t, _: i32) -> $t { atomic(a as _); <$at>::from_ptr(a).load(SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $store(a: *mut $t, v: $t, _: i32) { atomic(a as _); <$at>::from_ptr(a).store(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $xchg(a: *mut $t, v: $t, _: i32) -> $t { atomic(a as _); <$at>::from_ptr(a).swap(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $add(a: *mut $t, v: $t, _: i32) -> $t { atomic(a as _); <$at>::from_ptr(a).fetch_add(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $sub(a: *mut $t, v: $t, _: i32) -> $t { atomic(a as _); <$at>::from_ptr(a).fetch_sub(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $and(a: *mut $t, v: $t, _: i32) -> $t { atomic(a as _); <$at>::from_ptr(a).fetch_and(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $or(a: *mut $t, v: $t, _: i32) -> $t { atomic(a as _); <$at>::from_ptr(a).fetch_or(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $xor(a: *mut $t, v: $t, _: i32) -> $t { atomic(a as _); <$at>::from_ptr(a).fetch_xor(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $nand(a: *mut $t, v: $t, _: i32) -> $t { atomic(a as _); <$at>::from_ptr(a).fetch_nand(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $cas(a: *mut $t, c: $t, v: $t, _: i32, _: i32) -> $t { atomic(a as _); match <$at>::from_ptr(a).compare_exchange(c, v, SeqCst, SeqCst) { Ok(x) | Err(x) => x } }
    #[no_mangle] pub unsafe extern "C" fn $strong(a: *mut $t, c: *mut $t, v: $t, _: i32, _: i32) -> i32 { atomic(a as _); match <$at>::from_ptr(a).compare_exchange(*c, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } } }
    #[no_mangle] pub unsafe extern "C" fn $weak(a: *mut $t, c: *mut $t, v: $t, _: i32, _: i32) -> i32 { atomic(a as _); match <$at>::from_ptr(a).compare_exchange(*c, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } } }
} }
atomics! { u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak }
atomics! { u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak }
atomics! { u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak }
atomics! { u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak }
