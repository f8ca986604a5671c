//! The clock seam: this binary provides clock_gettime, so the crate's clock readings are answered here.
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};

thread_local! {
    /// what this thread's readings are answered with (nanoseconds since the epoch)
    static MINE: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) };
}
/// Answer every reading that `f` makes on this thread with `t`.
pub fn at<R>(t: u64, f: impl FnOnce() -> R) -> R {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            MINE.with(|m| m.set(None));
        }
    }
    MINE.with(|m| m.set(Some(t)));
    let _off = Off;
    f()
}

static ON: AtomicBool = AtomicBool::new(false);
static CALLS: AtomicUsize = AtomicUsize::new(0);
const N: usize = 8;
/// nanoseconds since the epoch of the k-th reading; the last one repeats
static READINGS: [AtomicU64; N] = [const { AtomicU64::new(0) }; N];

#[unsafe(no_mangle)]
pub extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if ON.load(SeqCst) && clk == libc::CLOCK_REALTIME {
        let k = CALLS.fetch_add(1, SeqCst);
        let t = READINGS[k.min(N - 1)].load(SeqCst);
        unsafe {
            (*ts).tv_sec = (t / 1_000_000_000) as libc::time_t;
            (*ts).tv_nsec = (t % 1_000_000_000) as _;
        }
        return 0;
    }
    if clk == libc::CLOCK_REALTIME {
        if let Some(t) = MINE.with(std::cell::Cell::get) {
            unsafe {
                (*ts).tv_sec = (t / 1_000_000_000) as libc::time_t;
                (*ts).tv_nsec = (t % 1_000_000_000) as _;
            }
            return 0;
        }
    }
    unsafe { libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int }
}

/// Answer the readings made by `f` with `r` (then its last entry for ever); returns the number made.
pub fn with_clock<R>(r: &[u64], f: impl FnOnce() -> R) -> (R, usize) {
    for (i, slot) in READINGS.iter().enumerate() {
        slot.store(r[i.min(r.len() - 1)], SeqCst);
    }
    CALLS.store(0, SeqCst);
    ON.store(true, SeqCst);
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.store(false, SeqCst);
        }
    }
    let _off = Off;
    let x = f();
    (x, CALLS.load(SeqCst))
}
