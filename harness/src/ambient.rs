//! The C library's functions that reach outside the process or change its state, taken over:
//! while watched, each call is noted and then passed on. std makes all its calls through them.
#![allow(unknown_lints, invalid_runtime_symbol_definitions)]

use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

static WATCHED: AtomicBool = AtomicBool::new(false);

#[cfg(all(not(miri), not(feature = "asan"), not(feature = "tsan"), target_os = "linux", target_arch = "x86_64"))]
mod hooks {
    use super::WATCHED;
    use std::ffi::{c_char, c_void};
    use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

    pub const NAMES: &[&str] = &[
        "write", "writev", "pwrite64", "read", "readv", "pread64", "open", "open64", "openat", "openat64", "creat", "unlink", "rename",
        "mkdir", "rmdir", "symlink", "link", "ftruncate64", "socket", "connect", "bind", "send", "sendto", "recv", "recvfrom", "fork",
        "execve", "execvp", "posix_spawn", "posix_spawnp", "pthread_create", "getenv", "setenv", "unsetenv", "putenv", "chdir", "getcwd",
        "sigaction", "signal", "nanosleep", "clock_nanosleep", "kill", "raise", "isatty", "gethostname", "getpid", "getuid",
        "clock_gettime", "reading of the arguments or the environment",
    ];
    pub static CALLS: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];

    extern "C" {
        fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
    }

    pub fn note(i: usize) {
        if WATCHED.load(Relaxed) {
            CALLS[i].fetch_add(1, Relaxed);
        }
    }
    const fn index(name: &str) -> usize {
        let mut i = 0;
        while i < NAMES.len() {
            let (a, b) = (NAMES[i].as_bytes(), name.as_bytes());
            if a.len() == b.len() {
                let mut k = 0;
                while k < a.len() && a[k] == b[k] {
                    k += 1;
                }
                if k == a.len() {
                    return i;
                }
            }
            i += 1;
        }
        panic!("not in the list")
    }
    unsafe fn next(slot: &AtomicUsize, name: *const c_char) -> usize {
        let f = slot.load(Relaxed);
        if f != 0 {
            return f;
        }
        let f = dlsym(-1isize as *mut c_void, name) as usize;
        slot.store(f, Relaxed);
        f
    }
    /// arguments are passed on as machine words: all of these take integers and pointers only
    macro_rules! hooks {
        ($($name:ident),* $(,)?) => { $(
            #[no_mangle]
            unsafe extern "C" fn $name(a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> usize {
                static NEXT: AtomicUsize = AtomicUsize::new(0);
                const I: usize = index(stringify!($name));
                note(I);
                let g = next(&NEXT, concat!(stringify!($name), "\0").as_ptr().cast());
                let g: unsafe extern "C" fn(usize, usize, usize, usize, usize, usize) -> usize = std::mem::transmute(g);
                g(a, b, c, d, e, f)
            }
        )* };
    }
    hooks!(
        write, writev, pwrite64, read, readv, pread64, open, open64, openat, openat64, creat, unlink, rename, mkdir, rmdir, symlink, link, ftruncate64,
        socket, connect, bind, send, sendto, recv, recvfrom, fork, execve, execvp, posix_spawn, posix_spawnp, pthread_create, getenv, setenv, unsetenv,
        putenv, chdir, getcwd, sigaction, signal, nanosleep, clock_nanosleep, kill, raise, isatty, gethostname, getpid, getuid
    );
    pub fn clock_read() {
        note(index("clock_gettime"));
    }

    // the strings the process was given: std looks for their ends
    static GIVEN: (AtomicUsize, AtomicUsize) = (AtomicUsize::new(0), AtomicUsize::new(0));
    pub fn find_given() {
        if GIVEN.1.load(Relaxed) != 0 {
            return;
        }
        let stat = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
        let fields: Vec<usize> = stat.rsplit(')').next().unwrap_or("").split_whitespace().map(|x| x.parse().unwrap_or(0)).collect();
        // arg_start and env_end, fields 48 and 51, of which two are before the parenthesis
        if let (Some(&from), Some(&to)) = (fields.get(45), fields.get(48)) {
            GIVEN.0.store(from, Relaxed);
            GIVEN.1.store(to, Relaxed);
        }
    }
    #[no_mangle]
    unsafe extern "C" fn strlen(s: *const i8) -> usize {
        const I: usize = index("reading of the arguments or the environment");
        if s as usize >= GIVEN.0.load(Relaxed) && (s as usize) < GIVEN.1.load(Relaxed) {
            note(I);
        }
        let mut n = 0;
        while s.add(n).read_volatile() != 0 {
            n += 1;
        }
        n
    }
}

/// The system calls the code makes, however it makes them: while the selector is set, the kernel
/// hands each one to our handler, which notes it and makes it (Syscall User Dispatch).
#[cfg(all(not(miri), not(feature = "asan"), not(feature = "tsan"), target_os = "linux", target_arch = "x86_64"))]
mod dispatch {
    use std::sync::atomic::{AtomicU64, AtomicU8, AtomicUsize, Ordering::Relaxed};

    static SELECTOR: AtomicU8 = AtomicU8::new(0);
    static STATE: AtomicU8 = AtomicU8::new(0);
    pub static SEEN: [AtomicU64; 512] = [const { AtomicU64::new(0) }; 512];
    pub static TOTAL: AtomicUsize = AtomicUsize::new(0);

    // memory, locks, and the keys of hash maps
    const OWN: &[usize] = &[9, 10, 11, 12, 15, 24, 25, 28, 186, 202, 318];

    core::arch::global_asm!(
        ".global monitor_sigreturn",
        "monitor_sigreturn:",
        "mov eax, 15",
        "syscall",
        "ud2",
        ".global monitor_sigreturn_end",
        "monitor_sigreturn_end:",
    );
    extern "C" {
        fn monitor_sigreturn();
        fn monitor_sigreturn_end();
    }

    unsafe fn raw(n: usize, a: [usize; 6]) -> isize {
        let r: isize;
        core::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
            in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _);
        r
    }

    // ucontext: flags, link, stack (3 words), then r8 .. r15, rdi, rsi, rbp, rbx, rdx, rax, rcx, rsp, rip
    unsafe extern "C" fn handler(_: i32, _: *const u8, context: *mut usize) {
        SELECTOR.store(0, Relaxed);
        let r = context.add(5);
        let n = *r.add(13);
        if !OWN.contains(&n) {
            SEEN[n.min(511)].fetch_add(1, Relaxed);
            TOTAL.fetch_add(1, Relaxed);
        }
        let result = match n {
            // another thread or process would start in here
            56 | 57 | 58 | 435 => -11,
            // nor does the process go on as another one, or end
            59 | 322 => -13,
            60 | 231 => crate::cov::die("exit", *r.add(8) as u64 & 0xFF),
            _ => raw(n, [*r.add(8), *r.add(9), *r.add(12), *r.add(2), *r, *r.add(1)]),
        };
        *r.add(13) = result as usize;
        SELECTOR.store(1, Relaxed);
    }

    fn install() -> bool {
        #[repr(C)]
        struct Action {
            handler: usize,
            flags: u64,
            restorer: usize,
            mask: u64,
        }
        let act = Action {
            handler: handler as *const () as usize,
            flags: 4 | 0x0400_0000, // SA_SIGINFO, SA_RESTORER
            restorer: monitor_sigreturn as *const () as usize,
            mask: 0,
        };
        let (from, to) = (monitor_sigreturn as *const () as usize, monitor_sigreturn_end as *const () as usize);
        unsafe {
            raw(13, [31, &act as *const Action as usize, 0, 8, 0, 0]) == 0
                && raw(157, [59, 1, from, to - from, &SELECTOR as *const AtomicU8 as usize, 0]) == 0
        }
    }

    /// whether the system calls of this thread can be watched
    pub fn begin() -> bool {
        if STATE.load(Relaxed) == 0 {
            STATE.store(1 + install() as u8, Relaxed);
        }
        for s in &SEEN {
            s.store(0, Relaxed);
        }
        TOTAL.store(0, Relaxed);
        if STATE.load(Relaxed) == 2 {
            SELECTOR.store(1, Relaxed);
            return true;
        }
        false
    }
    pub fn end() {
        SELECTOR.store(0, Relaxed);
    }
}

pub fn clock_read() {
    #[cfg(all(not(miri), not(feature = "asan"), not(feature = "tsan"), target_os = "linux", target_arch = "x86_64"))]
    hooks::clock_read();
}

/// watches the calls `f` makes; what was called, how often
pub fn watch<T>(f: impl FnOnce() -> T) -> (T, Vec<(String, u64)>) {
    #[cfg(all(not(miri), not(feature = "asan"), not(feature = "tsan"), target_os = "linux", target_arch = "x86_64"))]
    {
        use std::io::Write;
        for c in &hooks::CALLS {
            c.store(0, Relaxed);
        }
        hooks::find_given();
        WATCHED.store(true, Relaxed);
        dispatch::begin();
        let r = f();
        // what was printed but not yet written
        let _ = std::io::stdout().flush();
        dispatch::end();
        WATCHED.store(false, Relaxed);
        let mut seen: Vec<(String, u64)> = vec![];
        for (name, n) in hooks::NAMES.iter().zip(&hooks::CALLS) {
            if n.load(Relaxed) > 0 {
                seen.push((name.to_string(), n.load(Relaxed)));
            }
        }
        if dispatch::TOTAL.load(Relaxed) > 0 {
            for (i, n) in dispatch::SEEN.iter().enumerate() {
                if n.load(Relaxed) > 0 {
                    seen.push((format!("system call {i}"), n.load(Relaxed)));
                }
            }
        }
        (r, seen)
    }
    #[cfg(not(all(not(miri), not(feature = "asan"), not(feature = "tsan"), target_os = "linux", target_arch = "x86_64")))]
    {
        WATCHED.store(false, Relaxed);
        (f(), vec![])
    }
}

/// whether the process' panic hook is still the harness's
pub fn hook_in_place() -> bool {
    let _ = std::panic::catch_unwind(|| panic!("hook in place"));
    crate::runner::take_panic().contains("hook in place")
}

/// whether system calls show
pub fn dispatched() -> bool {
    let (_, seen) = watch(|| std::path::Path::new("/dev/null").exists());
    seen.iter().any(|x| x.0.starts_with("system call"))
}

/// whether a look at the arguments and at the whole environment shows
pub fn given_show() -> bool {
    let shows = |seen: Vec<(String, u64)>| seen.iter().any(|x| x.0.starts_with("reading of"));
    let args = watch(|| std::hint::black_box(std::env::args().collect::<Vec<_>>())).1;
    let vars = watch(|| std::hint::black_box(std::env::vars_os().collect::<Vec<_>>())).1;
    shows(args) && (shows(vars) || std::env::vars_os().next().is_none())
}

/// how many kinds of calls show of those made here on purpose
pub fn self_check() -> usize {
    use std::io::Write;
    let (_, seen) = watch(|| {
        let _ = std::env::var("RX509_ANY");
        let _ = std::hint::black_box(std::env::args().count());
        if let Ok(mut f) = std::fs::File::open("/dev/null") {
            let _ = f.write(b"x");
        }
        let _ = std::time::SystemTime::now();
        // not allowed where system calls are taken over
        let _ = std::thread::Builder::new().spawn(|| ()).map(|t| t.join());
    });
    seen.len()
}
