//! Counting allocator: live bytes per OS thread, their peak, and a hard cap that turns a blow-up of
//! the code under test into a reported violation instead of an aborted check.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

struct Counting;
#[global_allocator]
static A: Counting = Counting;

const CAP: i64 = 3 << 30;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static OFF: Cell<bool> = const { Cell::new(false) };
}
fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
fn check(n: usize) {
    let over = LIVE.try_with(|l| l.get().saturating_add(n.min(1 << 62) as i64) > CAP).unwrap_or(false);
    if over && crate::explore::has_ctx() && !OFF.with(|o| o.replace(true)) {
        crate::explore::bail(&format!("memory blow-up: the code under test asks for {n} more bytes with {} live", LIVE.with(|l| l.get())));
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > 1 << 20 {
            check(l.size())
        }
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > 1 << 20 {
            check(l.size())
        }
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > 1 << 20 {
            check(n)
        }
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
/// Runs `f` and returns how far this thread's live memory rose above its level at the start.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let x = f();
    (x, (PEAK.with(|p| p.get()) - base).max(0) as u64)
}
