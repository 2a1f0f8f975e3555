//! What a library call could ask of its surroundings, answered by a script: environment variables, the number of
//! processors, the clock, the system's random bytes.  Inactive, every call is passed on.
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Clock {
    Real,
    /// always the same time
    At(i64),
    /// each reading that much later (nanoseconds)
    Step(i64),
}
#[derive(Clone, Copy, Debug)]
pub struct Script {
    /// what every environment variable that is asked for is answered
    pub var: Option<&'static std::ffi::CStr>,
    pub absent: bool,
    /// processors, 0: as many as there are
    pub cores: usize,
    pub clock: Clock,
    /// first and step of the bytes that getrandom gives
    pub random: Option<(u8, u8)>,
}
pub const REAL: Script = Script { var: None, absent: false, cores: 0, clock: Clock::Real, random: None };
static mut SCRIPT: Script = REAL;
static ON: AtomicBool = AtomicBool::new(false);
static NOW: AtomicU64 = AtomicU64::new(0);
pub static VARS: AtomicU64 = AtomicU64::new(0);
pub static CORES: AtomicU64 = AtomicU64::new(0);
pub static TIMES: AtomicU64 = AtomicU64::new(0);
pub static RANDOMS: AtomicU64 = AtomicU64::new(0);

/// From here on the script answers, in every thread of this process.
pub fn act(s: Script) {
    unsafe { SCRIPT = s };
    NOW.store(1_000_000_000_000, Relaxed);
    ON.store(true, Relaxed);
}
fn script() -> Option<Script> {
    if ON.load(Relaxed) {
        Some(unsafe { SCRIPT })
    } else {
        None
    }
}
extern "C" {
    static environ: *const *const libc::c_char;
}
unsafe fn real_getenv(name: &[u8]) -> *mut libc::c_char {
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = std::ffi::CStr::from_ptr(*p).to_bytes();
        if e.len() > name.len() && e[name.len()] == b'=' && e.starts_with(name) {
            return (*p).add(name.len() + 1) as *mut _;
        }
        p = p.add(1);
    }
    std::ptr::null_mut()
}
/// # Safety
/// As getenv(3).
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    let n = std::ffi::CStr::from_ptr(name).to_bytes();
    if let Some(s) = script() {
        // the standard library's own
        if n != b"RUST_BACKTRACE" && n != b"RUST_LIB_BACKTRACE" && n != b"RUST_MIN_STACK" {
            VARS.fetch_add(1, Relaxed);
            if s.absent {
                return std::ptr::null_mut();
            }
            if let Some(v) = s.var {
                return v.as_ptr() as *mut _;
            }
        }
    }
    real_getenv(n)
}
/// # Safety
/// As sched_getaffinity(2).
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, len: libc::size_t, set: *mut libc::cpu_set_t) -> libc::c_int {
    if let Some(s) = script() {
        CORES.fetch_add(1, Relaxed);
        if s.cores > 0 {
            std::ptr::write_bytes(set as *mut u8, 0, len);
            for i in 0..s.cores.min(8 * len) {
                *(set as *mut u8).add(i / 8) |= 1 << (i % 8);
            }
            return 0;
        }
    }
    let r = libc::syscall(libc::SYS_sched_getaffinity, pid as libc::c_long, len, set);
    if r < 0 {
        return -1;
    }
    let r = r as usize;
    if r < len {
        std::ptr::write_bytes((set as *mut u8).add(r), 0, len - r);
    }
    0
}
/// # Safety
/// As clock_gettime(2).
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> libc::c_int {
    if let Some(s) = script() {
        TIMES.fetch_add(1, Relaxed);
        let at = match s.clock {
            Clock::Real => None,
            Clock::At(z) => Some(z),
            Clock::Step(d) => Some(NOW.fetch_add(d as u64, Relaxed) as i64),
        };
        if let Some(z) = at {
            (*t).tv_sec = z.div_euclid(1_000_000_000);
            (*t).tv_nsec = z.rem_euclid(1_000_000_000);
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, id as libc::c_long, t) as libc::c_int
}
/// # Safety
/// As getrandom(2).
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    if let Some(s) = script() {
        RANDOMS.fetch_add(1, Relaxed);
        if let Some((first, step)) = s.random {
            for i in 0..len {
                *(b as *mut u8).add(i) = first.wrapping_add((i as u8).wrapping_mul(step));
            }
            return len as _;
        }
    }
    libc::syscall(libc::SYS_getrandom, b, len, flags as libc::c_long) as libc::ssize_t
}
