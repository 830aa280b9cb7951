//! Callbacks of the compiler's instrumentation (SanitizerCoverage): trace-pc-guard at
//! every basic block, trace-loads / trace-stores at every memory access and trace-geps at
//! every address computed with a variable index.  Between start and stop the calling
//! thread's sequence of basic blocks is folded into one hash and its sequence of
//! addresses into another.  Copies, fills and atomic operations arrive through the
//! callbacks of another instrumentation (ThreadSanitizer), which replaces them by calls.
//! This crate itself is not instrumented.
use std::cell::UnsafeCell;
use std::sync::atomic::{
    AtomicUsize,
    Ordering::{Relaxed, SeqCst},
};

/// What a thread records.
#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Off,
    Blocks,
    Mem,
    Hook,
}
struct St {
    mode: Mode,
    h: u64,
    n: u64,
    base: usize,
    /// called before every access to writable static memory
    hook: fn(),
}
fn nothing() {}

thread_local! {
    static ST: UnsafeCell<St> = const { UnsafeCell::new(St { mode: Mode::Off, h: 0, n: 0, base: 0, hook: nothing }) };
}
/// The state of this thread; never held across a call out of this crate.
#[inline(always)]
fn st() -> &'static mut St {
    ST.with(|s| unsafe { &mut *s.get() })
}

/// static memory of the harness itself, which is no state of the code under test
static IGNORE: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
pub fn ignore(from: usize, to: usize) {
    IGNORE[0].store(from, Relaxed);
    IGNORE[1].store(to, Relaxed);
}

static mut NEXT: u32 = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        NEXT += 1;
        *p = NEXT;
        p = p.add(1);
    }
}

#[inline(always)]
fn fold(t: &mut St, v: u64) {
    t.h = (t.h.rotate_left(5) ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    t.n += 1;
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let t = st();
    if t.mode == Mode::Blocks {
        fold(t, *g as u64);
    }
}

extern "C" {
    static __executable_start: u8;
    static data_start: u8;
    static end: u8;
}
#[inline(always)]
fn within(a: usize, lo: *const u8, hi: *const u8) -> bool {
    lo as usize <= a && a < hi as usize
}

/// writable static memory that is not the harness's
#[inline(always)]
fn is_static(a: usize) -> bool {
    within(a, &raw const data_start, &raw const end) && !(IGNORE[0].load(Relaxed) <= a && a < IGNORE[1].load(Relaxed))
}

/// Addresses on the stack count from the recorder's base, addresses in the program image
/// from its start; the heap and thread-local storage, which move, are one place.
#[inline(always)]
fn access(kind: u64, p: *const u8) {
    let t = st();
    let a = p as usize;
    if t.mode == Mode::Mem {
        let d = a.wrapping_sub(t.base) as i64;
        let v = if d.unsigned_abs() < 1 << 22 {
            (d as u64) << 8
        } else if within(a, &raw const __executable_start, &raw const end) {
            ((a - &raw const __executable_start as usize) as u64) << 8 | 0x40
        } else {
            0x80
        };
        fold(t, v | kind);
    } else if t.mode == Mode::Hook && is_static(a) {
        let h = t.hook;
        t.mode = Mode::Off;
        h();
        st().mode = Mode::Hook;
    }
}

macro_rules! accesses {
    ($($f:ident $k:expr),*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $f(p: *const u8) {
            access($k, p)
        }
    )* };
}
accesses!(
    __sanitizer_cov_load1 1, __sanitizer_cov_load2 2, __sanitizer_cov_load4 3, __sanitizer_cov_load8 4, __sanitizer_cov_load16 5,
    __sanitizer_cov_store1 6, __sanitizer_cov_store2 7, __sanitizer_cov_store4 8, __sanitizer_cov_store8 9, __sanitizer_cov_store16 10
);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_gep(i: usize) {
    let t = st();
    if t.mode == Mode::Mem {
        fold(t, (i as u64) << 8 | 0x20);
    }
}

/// Copies: both ranges of addresses.  With a hook, they are made word by word, as
/// another thread may see them half done.
#[inline(always)]
unsafe fn copy(d: *mut u8, s: *const u8, n: usize) {
    if n == 0 {
        return;
    }
    match st().mode {
        Mode::Mem => {
            access(16, s);
            access(17, d);
            fold(st(), (n as u64) << 8 | 18);
        }
        Mode::Hook => {
            let (d_in, s_in) = (is_static(d as usize), is_static(s as usize));
            if d_in || s_in {
                // through a buffer, so that overlapping ranges stay right
                let mut b = [0u8; 8];
                let back = (d as usize) > s as usize;
                let words = (n + 7) / 8;
                for k in 0..words {
                    let o = 8 * if back { words - 1 - k } else { k };
                    let m = (n - o).min(8);
                    access(0, s.add(o));
                    std::ptr::copy(s.add(o), b.as_mut_ptr(), m);
                    access(0, d.add(o));
                    std::ptr::copy(b.as_ptr(), d.add(o), m);
                }
                return;
            }
        }
        _ => {}
    }
    std::ptr::copy(s, d, n);
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    let mode = st().mode;
    if n <= 160 && n % 8 == 0 && mode != Mode::Hook {
        if mode == Mode::Mem && n > 0 {
            access(16, s);
            access(17, d);
            fold(st(), (n as u64) << 8 | 18);
        }
        // the usual case, fast (volatile: else the compiler makes it a call again)
        let (d, s) = (d as *mut [u8; 8], s as *const [u8; 8]);
        for i in 0..n / 8 {
            d.add(i).write_volatile(s.add(i).read_volatile());
        }
    } else {
        copy(d, s, n);
    }
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    copy(d, s, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    if n > 0 {
        access(19, d);
        if st().mode == Mode::Mem {
            fold(st(), (n as u64) << 8 | 20);
        }
        std::ptr::write_bytes(d, c as u8, n);
    }
    d
}

/// Atomic operations, all of them sequentially consistent.
macro_rules! atomics {
    ($($t:ty, $a:ident, $load:ident $store:ident $swap:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *mut $t, _: i32) -> $t {
            access(21, p as *const u8);
            std::sync::atomic::$a::from_ptr(p).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _: i32) {
            access(22, p as *const u8);
            std::sync::atomic::$a::from_ptr(p).store(v, SeqCst)
        }
        atomics!(@rmw $t, $a, $swap swap, $add fetch_add, $sub fetch_sub, $and fetch_and, $or fetch_or, $xor fetch_xor, $nand fetch_nand);
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *mut $t, old: $t, new: $t, _: i32, _: i32) -> $t {
            access(23, p as *const u8);
            match std::sync::atomic::$a::from_ptr(p).compare_exchange(old, new, SeqCst, SeqCst) {
                Ok(v) | Err(v) => v,
            }
        }
    )* };
    (@rmw $t:ty, $a:ident, $($f:ident $m:ident),*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $f(p: *mut $t, v: $t, _: i32) -> $t {
            access(24, p as *const u8);
            std::sync::atomic::$a::from_ptr(p).$m(v, SeqCst)
        }
    )* };
}
atomics!(
    u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val;
    u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val;
    u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val;
    u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val;
);
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    std::sync::atomic::fence(SeqCst)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {
    std::sync::atomic::compiler_fence(SeqCst)
}

/// Begin recording on this thread, the addresses or else the blocks; `base` is the
/// address of a local variable of the caller.
pub fn start(mem: bool, base: usize) {
    let t = st();
    t.h = 0;
    t.n = 0;
    t.base = base;
    t.mode = if mem { Mode::Mem } else { Mode::Blocks };
}

/// End recording: hash and length of the recorded sequence.
pub fn stop() -> (u64, u64) {
    let t = st();
    t.mode = Mode::Off;
    (t.h, t.n)
}

/// Call `h` before every access this thread makes to writable static memory.
pub fn hook(h: Option<fn()>) {
    let t = st();
    match h {
        Some(h) => {
            t.hook = h;
            t.mode = Mode::Hook;
        }
        None => t.mode = Mode::Off,
    }
}
