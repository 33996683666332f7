//! Runtime of the sancov instrumentation in the code under test: a logical clock (executed
//! edges), an edge map for coverage guidance, and the comparison operands the code looked at.
//! In builds without the instrumentation nothing calls into this and all counts stay zero.

use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub const MAP: usize = 1 << 16;
pub const CMPS: usize = 1 << 12;

pub struct Shared<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Shared<T> {}
impl<T> Shared<T> {
    pub const fn new(t: T) -> Self {
        Shared(UnsafeCell::new(t))
    }
    pub fn get(&self) -> *mut T {
        self.0.get()
    }
}

pub static EDGES: AtomicUsize = AtomicUsize::new(0);
pub static STEPS: AtomicU64 = AtomicU64::new(0);
/// lowest stack address at which the code under test was seen
pub static STACK_LO: AtomicUsize = AtomicUsize::new(usize::MAX);
pub static STEP_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
pub static ACTIVE: AtomicBool = AtomicBool::new(false);
static HITS: Shared<[u8; MAP]> = Shared::new([0; MAP]);
static CMP_RING: Shared<[(u64, u64, bool); CMPS]> = Shared::new([(0, 0, false); CMPS]);
static CMP_N: AtomicUsize = AtomicUsize::new(0);

// what is being evaluated, for the crash and budget witnesses
pub static CUR_PTR: AtomicUsize = AtomicUsize::new(0);
pub static CUR_LEN: AtomicUsize = AtomicUsize::new(0);
pub static CUR_EVAL: AtomicUsize = AtomicUsize::new(0);
static WITNESS: Shared<[u8; 512]> = Shared::new([0; 512]);

pub fn set_witness_path(path: &str) {
    let w = unsafe { &mut *WITNESS.get() };
    let b = path.as_bytes();
    w[..b.len()].copy_from_slice(b);
    w[b.len()] = 0;
}

extern "C" {
    fn open(path: *const std::ffi::c_char, flags: i32, ...) -> i32;
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
}

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

/// async-signal-safe: header line "kind value evaluator", then the input octets
pub fn write_witness(kind: &str, value: u64) {
    unsafe {
        let p = WITNESS.get() as *const u8;
        if *p == 0 {
            return;
        }
        let fd = open(p.cast(), 0o1 | 0o100 | 0o1000, 0o644u32);
        if fd < 0 {
            return;
        }
        write(fd, kind.as_ptr().cast(), kind.len());
        let mut buf = [0u8; 64];
        let mut n = 0;
        for v in [value, CUR_EVAL.load(Relaxed) as u64] {
            buf[n] = b' ';
            n += 1;
            let mut d = [0u8; 20];
            let mut k = 0;
            let mut v = v;
            loop {
                d[k] = b'0' + (v % 10) as u8;
                k += 1;
                v /= 10;
                if v == 0 {
                    break;
                }
            }
            while k > 0 {
                k -= 1;
                buf[n] = d[k];
                n += 1;
            }
        }
        buf[n] = b'\n';
        n += 1;
        write(fd, buf.as_ptr().cast(), n);
        let (mut p, mut l) = (CUR_PTR.load(Relaxed), CUR_LEN.load(Relaxed));
        while l > 0 && p != 0 {
            let w = write(fd, p as *const std::ffi::c_void, l);
            if w <= 0 {
                break;
            }
            p += w as usize;
            l -= w as usize;
        }
        close(fd);
    }
}

/// a logical budget is exhausted: leave the witness and stop (the caller cannot be unwound)
pub fn die(kind: &str, value: u64) -> ! {
    write_witness(kind, value);
    unsafe { _exit(77) }
}

extern "C" fn on_signal(sig: i32) {
    write_witness("signal", sig as u64);
    unsafe { _exit(99) }
}

/// an end of the process while the code under test is at work is not ours
#[cfg(not(miri))]
pub fn install_exit_witness() {
    extern "C" {
        fn atexit(f: extern "C" fn()) -> i32;
    }
    extern "C" fn on_exit() {
        if ACTIVE.load(Relaxed) {
            die("exit", 0);
        }
    }
    unsafe {
        atexit(on_exit);
    }
}

#[cfg(not(miri))]
pub fn install_signal_witness() {
    if cfg!(feature = "asan") {
        return;
    }
    for sig in [4, 6, 7, 8, 11] {
        let act = SigAction { handler: on_signal as *const () as usize, mask: [0; 16], flags: 0x0800_0000, restorer: 0 };
        unsafe {
            sigaction(sig, &act, std::ptr::null_mut());
        }
    }
}

#[cfg(feature = "asan")]
mod asan {
    extern "C" {
        fn __asan_set_death_callback(f: extern "C" fn());
    }
    extern "C" fn dying() {
        super::write_witness("asan", 0);
    }
    pub fn install() {
        unsafe { __asan_set_death_callback(dying) }
    }
}
pub fn install_asan_witness() {
    #[cfg(feature = "asan")]
    asan::install();
}

/// marks `input` as the one under evaluation and restarts the logical clock
pub fn begin(input: &[u8], eval: usize) {
    CUR_PTR.store(input.as_ptr() as usize, Relaxed);
    CUR_LEN.store(input.len(), Relaxed);
    CUR_EVAL.store(eval, Relaxed);
    STEPS.store(0, Relaxed);
}

pub fn steps() -> u64 {
    STEPS.load(Relaxed)
}

/// edge hits since the last call, as (edge, log2 bucket) features
pub fn take_features(out: &mut Vec<u32>) {
    let n = EDGES.load(Relaxed).min(MAP - 1);
    let h = unsafe { &mut *HITS.get() };
    for (i, c) in h[..=n].iter_mut().enumerate() {
        if *c != 0 {
            let bucket = match *c {
                1 => 0,
                2 => 1,
                3 => 2,
                4..=7 => 3,
                8..=15 => 4,
                16..=31 => 5,
                32..=127 => 6,
                _ => 7,
            };
            out.push((i as u32) << 3 | bucket);
            *c = 0;
        }
    }
}

/// comparison operands seen since the last call; of the last kind, the first one is a constant
pub fn take_cmps(out: &mut Vec<(u64, u64, bool)>) {
    let n = CMP_N.swap(0, Relaxed);
    let r = unsafe { &*CMP_RING.get() };
    out.extend_from_slice(&r[..n.min(CMPS)]);
}

fn cmp(a: u64, b: u64, constant: bool) {
    if a != b && ACTIVE.load(Relaxed) {
        let i = CMP_N.load(Relaxed);
        if i < CMPS {
            unsafe { (*CMP_RING.get())[i] = (a, b, constant) };
            CMP_N.store(i + 1, Relaxed);
        }
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        let mut p = start;
        while p < stop {
            if *p == 0 {
                *p = (EDGES.fetch_add(1, Relaxed) + 1) as u32;
            }
            p = p.add(1);
        }
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let s = STEPS.load(Relaxed) + 1;
    STEPS.store(s, Relaxed);
    let here = &s as *const u64 as usize;
    if here < STACK_LO.load(Relaxed) {
        STACK_LO.store(here, Relaxed);
    }
    if s > STEP_LIMIT.load(Relaxed) {
        STEP_LIMIT.store(u64::MAX, Relaxed);
        die("steps", s);
    }
    unsafe {
        let g = *guard as usize;
        if g < MAP {
            let c = (HITS.get() as *mut u8).add(g);
            *c = (*c).saturating_add(1);
        }
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp1(a: u8, b: u8) {
    cmp(a as u64, b as u64, false)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp2(a: u16, b: u16) {
    cmp(a as u64, b as u64, false)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp4(a: u32, b: u32) {
    cmp(a as u64, b as u64, false)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp8(a: u64, b: u64) {
    cmp(a, b, false)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp1(a: u8, b: u8) {
    cmp(a as u64, b as u64, true)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp2(a: u16, b: u16) {
    cmp(a as u64, b as u64, true)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp4(a: u32, b: u32) {
    cmp(a as u64, b as u64, true)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp8(a: u64, b: u64) {
    cmp(a, b, true)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
    if !ACTIVE.load(Relaxed) {
        return;
    }
    unsafe {
        let n = *cases as usize;
        for i in 0..n.min(32) {
            cmp(*cases.add(2 + i), v, true);
        }
    }
}

// Octet strings the code compared with memcmp or bcmp and found unequal. The definitions below
// take the place of the C library's in the plain builds; sanitizers bring their own.
pub const WORDS: usize = 128;
static WORD_RING: Shared<[(u8, [u8; 64]); WORDS]> = Shared::new([(0, [0; 64]); WORDS]);
static WORD_N: AtomicUsize = AtomicUsize::new(0);

/// pairs of strings compared since the last call
pub fn take_words(mut f: impl FnMut(&[u8], &[u8])) {
    let n = WORD_N.swap(0, Relaxed).min(WORDS);
    let r = unsafe { &*WORD_RING.get() };
    for p in r[..n].chunks_exact(2) {
        f(&p[0].1[..p[0].0 as usize], &p[1].1[..p[1].0 as usize]);
    }
}

#[cfg(all(not(miri), not(feature = "asan"), not(feature = "tsan")))]
mod compare {
    use super::*;
    use std::ffi::c_void;

    unsafe fn note(p: *const u8, n: usize) {
        let i = WORD_N.load(Relaxed);
        if i < WORDS && n <= 64 {
            let w = &mut (*WORD_RING.get())[i];
            w.0 = n as u8;
            for k in 0..n {
                w.1[k] = p.add(k).read_volatile();
            }
            WORD_N.store(i + 1, Relaxed);
        }
    }

    #[inline(always)]
    unsafe fn compare(a: *const u8, b: *const u8, n: usize) -> i32 {
        let mut i = 0;
        while i + 8 <= n && (a.add(i) as *const u64).read_unaligned() == (b.add(i) as *const u64).read_unaligned() {
            i += 8;
        }
        while i < n {
            let (x, y) = (a.add(i).read_volatile(), b.add(i).read_volatile());
            if x != y {
                if n >= 2 && n <= 64 && ACTIVE.load(Relaxed) {
                    note(a, n);
                    note(b, n);
                }
                return x as i32 - y as i32;
            }
            i += 1;
        }
        0
    }
    #[no_mangle]
    unsafe extern "C" fn memcmp(a: *const c_void, b: *const c_void, n: usize) -> i32 {
        moved(n);
        compare(a.cast(), b.cast(), n)
    }
    #[no_mangle]
    unsafe extern "C" fn bcmp(a: *const c_void, b: *const c_void, n: usize) -> i32 {
        moved(n);
        compare(a.cast(), b.cast(), n)
    }

    // the octets copied, set and compared wholesale, which no edge counts
    extern "C" {
        fn dlsym(handle: *mut c_void, name: *const std::ffi::c_char) -> *mut c_void;
    }
    #[inline(always)]
    fn moved(n: usize) {
        if MOVING.load(Relaxed) {
            let t = MOVED.load(Relaxed) + n as u64;
            MOVED.store(t, Relaxed);
            if t > MOVED_LIMIT.load(Relaxed) {
                MOVING.store(false, Relaxed);
                die("moved", t);
            }
        }
    }
    #[inline(always)]
    unsafe fn next(slot: &AtomicUsize, name: &std::ffi::CStr) -> usize {
        let f = slot.load(Relaxed);
        if f != 0 {
            return f;
        }
        let f = dlsym(-1isize as *mut c_void, name.as_ptr()) as usize;
        slot.store(f, Relaxed);
        f
    }
    type Copy = unsafe extern "C" fn(*mut c_void, *const c_void, usize) -> *mut c_void;
    #[no_mangle]
    unsafe extern "C" fn memcpy(a: *mut c_void, b: *const c_void, n: usize) -> *mut c_void {
        static NEXT: AtomicUsize = AtomicUsize::new(0);
        moved(n);
        std::mem::transmute::<usize, Copy>(next(&NEXT, c"memcpy"))(a, b, n)
    }
    #[no_mangle]
    unsafe extern "C" fn memmove(a: *mut c_void, b: *const c_void, n: usize) -> *mut c_void {
        static NEXT: AtomicUsize = AtomicUsize::new(0);
        moved(n);
        std::mem::transmute::<usize, Copy>(next(&NEXT, c"memmove"))(a, b, n)
    }
    #[no_mangle]
    unsafe extern "C" fn memset(a: *mut c_void, b: i32, n: usize) -> *mut c_void {
        static NEXT: AtomicUsize = AtomicUsize::new(0);
        moved(n);
        std::mem::transmute::<usize, unsafe extern "C" fn(*mut c_void, i32, usize) -> *mut c_void>(next(&NEXT, c"memset"))(a, b, n)
    }
}
/// octets copied, set and compared wholesale while MOVING
pub static MOVED: AtomicU64 = AtomicU64::new(0);
pub static MOVED_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
pub static MOVING: AtomicBool = AtomicBool::new(false);

/// The system's clock as the code under test sees it: std reads it through this function.
#[cfg(all(not(miri), not(feature = "asan"), not(feature = "tsan"), target_os = "linux", target_arch = "x86_64"))]
pub mod wall {
    use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

    static SET: AtomicBool = AtomicBool::new(false);
    static SECS: AtomicI64 = AtomicI64::new(0);
    static NANOS: AtomicI64 = AtomicI64::new(0);

    extern "C" {
        fn syscall(n: i64, ...) -> i64;
    }

    #[no_mangle]
    unsafe extern "C" fn clock_gettime(id: i32, to: *mut [i64; 2]) -> i32 {
        crate::ambient::clock_read();
        if id == 0 && SET.load(Relaxed) {
            *to = [SECS.load(Relaxed), NANOS.load(Relaxed)];
            return 0;
        }
        syscall(228, id as i64, to) as i32
    }

    /// runs `f` at that time of the system's clock; None if std does not read the clock here
    pub fn at<T>(secs: i64, nanos: i64, f: impl FnOnce() -> T) -> Option<T> {
        struct Back;
        impl Drop for Back {
            fn drop(&mut self) {
                SET.store(false, Relaxed);
            }
        }
        SECS.store(secs, Relaxed);
        NANOS.store(nanos, Relaxed);
        SET.store(true, Relaxed);
        let _back = Back;
        use std::time::{Duration, SystemTime, UNIX_EPOCH};
        let want = if secs >= 0 {
            UNIX_EPOCH.checked_add(Duration::new(secs as u64, nanos as u32))
        } else {
            UNIX_EPOCH.checked_sub(Duration::new(secs.unsigned_abs(), 0)).and_then(|t| t.checked_add(Duration::new(0, nanos as u32)))
        };
        if want != Some(SystemTime::now()) {
            return None;
        }
        Some(f())
    }
}

#[cfg(not(all(not(miri), not(feature = "asan"), not(feature = "tsan"), target_os = "linux", target_arch = "x86_64")))]
pub mod wall {
    pub fn at<T>(_: i64, _: i64, _: impl FnOnce() -> T) -> Option<T> {
        None
    }
}
