//! Virtual time.  `clock_gettime(CLOCK_MONOTONIC)` is replaced so that `std::time::Instant` follows the paused tokio
//! clock while `FROZEN` is set.
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};

static FROZEN: AtomicBool = AtomicBool::new(false);
static NOW_NS: AtomicI64 = AtomicI64::new(0);

thread_local! {
    static REAL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Whether this thread sees the real clock.
pub fn real(on: bool) {
    REAL.with(|r| r.set(on));
}

fn raw(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    unsafe { libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int }
}

#[no_mangle]
pub extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clk == libc::CLOCK_MONOTONIC && !REAL.with(|r| r.get()) && FROZEN.load(Ordering::Relaxed) {
        let ns = NOW_NS.load(Ordering::Relaxed);
        unsafe {
            (*ts).tv_sec = ns / 1_000_000_000;
            (*ts).tv_nsec = ns % 1_000_000_000;
        }
        return 0;
    }
    raw(clk, ts)
}

pub fn freeze() {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    raw(libc::CLOCK_MONOTONIC, &mut ts);
    NOW_NS.store(ts.tv_sec * 1_000_000_000 + ts.tv_nsec, Ordering::SeqCst);
    FROZEN.store(true, Ordering::SeqCst);
    pingora_timeout::fast_timeout::VIRTUAL.store(true, Ordering::SeqCst);
}

pub fn step(ms: i64) {
    NOW_NS.fetch_add(ms * 1_000_000, Ordering::SeqCst);
}

/// Real elapsed milliseconds, never frozen.
pub fn real_ms() -> i64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    raw(libc::CLOCK_MONOTONIC, &mut ts);
    ts.tv_sec * 1000 + ts.tv_nsec / 1_000_000
}
