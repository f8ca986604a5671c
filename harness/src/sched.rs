//! Controlled scheduling of two real threads: by single stepping (every machine instruction is a
//! scheduling point) or at cooperative points (buffer reads and allocations).
use crate::alloc;
use crate::engine::quiet;
use std::cell::Cell;
use std::sync::Once;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};

/// waiting longer than this for the other thread means that it is blocked on this one
const BLOCKED: u64 = 60_000_000;

fn tsc() -> u64 {
    unsafe { core::arch::x86_64::_rdtsc() }
}
/// Is that thread of this process asleep? (Read with plain system calls: signal handlers use it.)
fn asleep(tid: i32) -> bool {
    let mut path = *b"/proc/self/task/0000000000/stat\0";
    let mut t = tid;
    for i in (16..26).rev() {
        path[i] = b'0' + (t % 10) as u8;
        t /= 10;
    }
    // no leading zeros in the name
    let lead = path[16..25].iter().take_while(|c| **c == b'0').count();
    path.copy_within(16 + lead.., 16);
    let mut b = [0u8; 256];
    let n = unsafe {
        let fd = libc::open(path.as_ptr().cast(), libc::O_RDONLY);
        if fd < 0 {
            return false;
        }
        let n = libc::read(fd, b.as_mut_ptr().cast(), b.len());
        libc::close(fd);
        n.max(0) as usize
    };
    // pid (name) state ...
    let Some(p) = b[..n].iter().rposition(|c| *c == b')') else { return false };
    b.get(p + 2) == Some(&b'S')
}
/// wait until `f`; false if the other thread seems to be blocked
fn wait(other: &AtomicI32, mut f: impl FnMut() -> bool) -> bool {
    let t0 = tsc();
    let mut next = 400_000;
    let mut slept = 0;
    let mut n = 0u32;
    loop {
        if f() {
            return true;
        }
        n += 1;
        if n < 4000 {
            std::hint::spin_loop();
        } else {
            unsafe { libc::sched_yield() };
            let t = tsc().wrapping_sub(t0);
            if t > next {
                // it never sleeps of its own accord while it has something to do
                let tid = other.load(SeqCst);
                slept = if tid != 0 && asleep(tid) { slept + 1 } else { 0 };
                if slept >= 4 || t > BLOCKED {
                    return f();
                }
                next = t + 60_000;
            }
        }
    }
}
pub fn tid() -> i32 {
    unsafe { libc::syscall(libc::SYS_gettid) as i32 }
}

// ------------------------------------------------------------------ baton schedules
/// Two threads, one running at a time. `stops[t]` are the scheduling points (counted per thread)
/// at which thread t hands over; each thread runs to its end once its stops are used up.
pub struct Baton {
    pub stops: [Vec<u64>; 2],
    turn: AtomicUsize,
    done: [AtomicBool; 2],
    pub blocked: AtomicBool,
    pub points: [AtomicU64; 2],
    tids: [AtomicI32; 2],
}
impl Baton {
    pub fn new(a: Vec<u64>, b: Vec<u64>) -> Baton {
        Baton {
            stops: [a, b],
            turn: AtomicUsize::new(0),
            done: [const { AtomicBool::new(false) }; 2],
            blocked: AtomicBool::new(false),
            points: [const { AtomicU64::new(0) }; 2],
            tids: [AtomicI32::new(tid()), AtomicI32::new(0)],
        }
    }
    fn my_turn(&self, me: usize) -> bool {
        self.turn.load(SeqCst) == me || self.done[1 - me].load(SeqCst)
    }
    pub fn start(&self, me: usize) {
        self.tids[me].store(tid(), SeqCst);
        while !self.my_turn(me) {
            if !wait(&self.tids[1 - me], || self.my_turn(me)) && self.blocked.load(SeqCst) {
                return;
            }
        }
    }
    pub fn point(&self, me: usize, k: u64, next: &mut usize) {
        if self.stops[me].get(*next) != Some(&k) {
            return;
        }
        *next += 1;
        if self.done[1 - me].load(SeqCst) || self.blocked.load(SeqCst) {
            return;
        }
        self.turn.store(1 - me, SeqCst);
        if !wait(&self.tids[1 - me], || self.my_turn(me) || self.blocked.load(SeqCst)) {
            // the other thread waits for something this one holds: let both run
            self.blocked.store(true, SeqCst);
        }
    }
    pub fn end(&self, me: usize, k: u64) {
        self.points[me].store(k, SeqCst);
        self.done[me].store(true, SeqCst);
        self.turn.store(1 - me, SeqCst);
    }
}

// ------------------------------------------------------------------ the second thread
pub type Job = dyn Fn(u64) + Sync;
/// A thread that runs the current job once per request.
pub struct Server {
    req: AtomicU64,
    ack: AtomicU64,
    job: std::sync::Mutex<Option<&'static Job>>,
    stop: AtomicBool,
    /// number of requests not answered within the limit
    pub late: AtomicU64,
    pub served: AtomicU64,
    pub panic: std::sync::Mutex<Option<String>>,
    tid: AtomicI32,
}
impl Server {
    pub fn new() -> Server {
        Server {
            req: AtomicU64::new(0),
            ack: AtomicU64::new(0),
            job: std::sync::Mutex::new(None),
            stop: AtomicBool::new(false),
            late: AtomicU64::new(0),
            served: AtomicU64::new(0),
            panic: std::sync::Mutex::new(None),
            tid: AtomicI32::new(0),
        }
    }
    fn idle(&self) -> bool {
        self.ack.load(SeqCst) == self.req.load(SeqCst)
    }
    /// the loop of the second thread
    fn run(&self) {
        self.tid.store(tid(), SeqCst);
        let mut n = 0u32;
        loop {
            let r = self.req.load(SeqCst);
            if self.ack.load(SeqCst) != r {
                let j = *self.job.lock().unwrap();
                if let Some(j) = j {
                    if let Err(e) = quiet(|| j(r)) {
                        *self.panic.lock().unwrap() = Some(e);
                    }
                }
                self.served.fetch_add(1, SeqCst);
                self.ack.store(r, SeqCst);
                n = 0;
            } else if self.stop.load(SeqCst) {
                return;
            } else {
                n += 1;
                if n < 20_000 {
                    std::hint::spin_loop();
                } else {
                    unsafe { libc::sched_yield() };
                }
            }
        }
    }
    /// Ask for one run of the job and wait for it; skipped while the last one is blocked.
    pub fn serve(&self) {
        if !self.idle() {
            self.late.fetch_add(1, SeqCst);
            return;
        }
        self.req.fetch_add(1, SeqCst);
        if !wait(&self.tid, || self.idle()) {
            self.late.fetch_add(1, SeqCst);
        }
    }
    /// start the job without waiting
    pub fn start(&self) {
        self.req.fetch_add(1, SeqCst);
    }
    pub fn drain(&self) {
        while !self.idle() {
            std::hint::spin_loop();
            unsafe { libc::sched_yield() };
        }
    }
    /// Run `f` while requests run `job` on the second thread.
    pub fn with<R>(&self, job: &(dyn Fn(u64) + Sync), f: impl FnOnce() -> R) -> R {
        // the reference does not outlive this call: every request is drained before it returns
        let j: &'static Job = unsafe { std::mem::transmute::<&(dyn Fn(u64) + Sync), &'static Job>(job) };
        *self.job.lock().unwrap() = Some(j);
        struct Drain<'a>(&'a Server);
        impl Drop for Drain<'_> {
            fn drop(&mut self) {
                self.0.drain();
                *self.0.job.lock().unwrap() = None;
            }
        }
        let _d = Drain(self);
        f()
    }
    /// Provide the second thread for the duration of `f`.
    pub fn scope<R>(f: impl FnOnce(&Server) -> R) -> R {
        let s = Server::new();
        std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(sc, || s.run())
                .expect("engine: spawn");
            struct Stop<'a>(&'a Server);
            impl Drop for Stop<'_> {
                fn drop(&mut self) {
                    self.0.stop.store(true, SeqCst);
                }
            }
            let _s = Stop(&s);
            f(&s)
        })
    }
}

// ------------------------------------------------------------------ scheduling points
pub enum What<'a> {
    /// count only, and note the steps that change static storage
    Watch,
    /// run one request at every step k in [lo, hi) with k % m == r
    Inject { s: &'a Server, lo: u64, hi: u64, m: u64, r: u64 },
    Baton { b: &'a Baton, me: usize, next: usize },
}
pub struct Ctl<'a> {
    pub what: What<'a>,
    pub k: u64,
    pub injected: u64,
    /// steps that changed static storage
    pub visible: Vec<u64>,
    snap: Vec<u8>,
}
impl<'a> Ctl<'a> {
    pub fn new(what: What<'a>) -> Ctl<'a> {
        let mut visible = vec![];
        let mut snap = vec![];
        if matches!(what, What::Watch) {
            visible.reserve(256);
            for (a, n) in statics() {
                snap.extend_from_slice(unsafe { std::slice::from_raw_parts(*a as *const u8, *n) });
            }
        }
        Ctl { what, k: 0, injected: 0, visible, snap }
    }
    /// compares static storage with the last look at it
    fn changed(&mut self) -> bool {
        let mut o = 0;
        let mut ch = false;
        for (a, n) in statics() {
            unsafe {
                let s = &mut self.snap[o..o + n];
                if libc::memcmp(s.as_ptr().cast(), *a as *const libc::c_void, *n) != 0 {
                    ch = true;
                    std::ptr::copy_nonoverlapping(*a as *const u8, s.as_mut_ptr(), *n);
                }
            }
            o += n;
        }
        ch
    }
    fn point(&mut self) {
        let k = self.k;
        self.k += 1;
        match &mut self.what {
            What::Watch => {
                if self.changed() && self.visible.len() < self.visible.capacity() {
                    self.visible.push(k);
                }
            }
            What::Inject { s, lo, hi, m, r } => {
                if k >= *lo && k < *hi && k % *m == *r {
                    self.injected += 1;
                    s.serve();
                }
            }
            What::Baton { b, me, next } => b.point(*me, k, next),
        }
    }
}

thread_local! {
    static CTL: Cell<*mut ()> = const { Cell::new(std::ptr::null_mut()) };
    static STEP: Cell<bool> = const { Cell::new(false) };
}
static TEXT_LO: AtomicUsize = AtomicUsize::new(0);
static TEXT_HI: AtomicUsize = AtomicUsize::new(0);
static INIT: Once = Once::new();
static STATICS: std::sync::OnceLock<Vec<(usize, usize)>> = std::sync::OnceLock::new();
pub static TRAPS: AtomicU32 = AtomicU32::new(0);

/// the writable static storage of the executable
fn statics() -> &'static [(usize, usize)] {
    STATICS.get().map_or(&[], |v| v)
}

extern "C" fn on_trap(_sig: libc::c_int, _info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let p = CTL.with(Cell::get);
    if p.is_null() {
        return;
    }
    let ip = unsafe { (*uc.cast::<libc::ucontext_t>()).uc_mcontext.gregs[libc::REG_RIP as usize] } as usize;
    if ip < TEXT_LO.load(SeqCst) || ip >= TEXT_HI.load(SeqCst) {
        return;
    }
    unsafe { (*p.cast::<Ctl<'_>>()).point() };
}
/// a cooperative scheduling point
pub fn coop() {
    let p = CTL.with(Cell::get);
    if !p.is_null() && !STEP.with(Cell::get) {
        // the point may allocate nothing: hooks would recurse
        unsafe { (*p.cast::<Ctl<'_>>()).point() };
    }
}

pub fn init() {
    INIT.call_once(|| {
        let maps = std::fs::read_to_string("/proc/self/maps").expect("engine: maps");
        let exe = std::fs::read_link("/proc/self/exe").expect("engine: exe").display().to_string();
        let mut st: Vec<(usize, usize)> = vec![];
        let mut last_end = 0;
        for l in maps.lines() {
            let mut f = l.split_whitespace();
            let (Some(range), Some(perm)) = (f.next(), f.next()) else { continue };
            let path = f.nth(3).unwrap_or("");
            let Some((a, b)) = range.split_once('-') else { continue };
            let (a, b) = (usize::from_str_radix(a, 16).unwrap_or(0), usize::from_str_radix(b, 16).unwrap_or(0));
            let own = path == exe;
            if own && perm.contains('x') {
                TEXT_LO.store(a, SeqCst);
                TEXT_HI.store(b, SeqCst);
            }
            if perm.starts_with("rw") && (own || (path.is_empty() && a == last_end && b - a < (1 << 20))) {
                st.push((a, b - a));
            }
            if own || a == last_end {
                last_end = b;
            }
        }
        assert!(TEXT_HI.load(SeqCst) > 0, "engine: no text segment");
        let _ = STATICS.set(st);
        unsafe {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_trap as *const () as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
            libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
        }
    });
}

#[inline(never)]
fn trap_on() {
    unsafe { core::arch::asm!("pushfq", "or dword ptr [rsp], 0x100", "popfq") };
}
#[inline(never)]
fn trap_off() {
    unsafe { core::arch::asm!("pushfq", "and dword ptr [rsp], 0xfffffeff", "popfq") };
}

/// Marks the part of an operation that is the crate's: scheduling points exist only there.
#[derive(Clone, Copy)]
pub struct Gate {
    pub ctl: *mut (),
    pub step: bool,
}
impl Gate {
    pub const OPEN: Gate = Gate { ctl: std::ptr::null_mut(), step: false };
    pub fn of(c: &mut Ctl<'_>, step: bool) -> Gate {
        Gate { ctl: std::ptr::from_mut(c).cast(), step }
    }
    pub fn run<R>(self, f: impl FnOnce() -> R) -> R {
        if self.ctl.is_null() {
            return f();
        }
        struct Off(bool);
        impl Drop for Off {
            fn drop(&mut self) {
                if self.0 {
                    trap_off();
                } else {
                    alloc::set_hook(None);
                }
                CTL.with(|c| c.set(std::ptr::null_mut()));
            }
        }
        CTL.with(|c| c.set(self.ctl));
        STEP.with(|c| c.set(self.step));
        let _off = Off(self.step);
        if self.step {
            trap_on();
        } else {
            alloc::set_hook(Some(coop));
        }
        f()
    }
}
