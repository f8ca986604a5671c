//! Counting allocator: peak live bytes of the current guarded call, a hard cap that ends the
//! worker (reported as a violation of the call in progress), and a scheduling hook.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub const HARD_CAP: usize = 256 << 20;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static CULPRIT: Cell<*mut u32> = const { Cell::new(std::ptr::null_mut()) };
    static HOOK: Cell<Option<fn()>> = const { Cell::new(None) };
}

pub struct Counting;

fn add(n: isize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            LIVE.with(|l| {
                l.set(l.get() + n);
                PEAK.with(|p| {
                    if l.get() > p.get() {
                        p.set(l.get());
                    }
                });
                if l.get() > HARD_CAP as isize {
                    CULPRIT.with(|c| {
                        if !c.get().is_null() {
                            unsafe { c.get().write_volatile(1) };
                        }
                    });
                    unsafe { libc::_exit(90) };
                }
            });
            if n > 0 {
                if let Some(h) = HOOK.with(Cell::get) {
                    h();
                }
            }
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize - l.size() as isize);
        unsafe { System.realloc(p, l, n) }
    }
}

pub fn register(p: *mut u32) {
    CULPRIT.with(|c| c.set(p));
}
pub fn begin() {
    LIVE.with(|l| l.set(0));
    PEAK.with(|p| p.set(0));
    ON.with(|o| o.set(true));
}
pub fn end() -> usize {
    ON.with(|o| o.set(false));
    PEAK.with(|p| p.get().max(0) as usize)
}
/// Bytes that the last guarded call allocated and did not give back (less what it gave back of others).
pub fn kept() -> isize {
    LIVE.with(Cell::get)
}
/// Call `h` on every allocation made inside a guarded call on this thread.
pub fn set_hook(h: Option<fn()>) {
    HOOK.with(|x| x.set(h));
}
