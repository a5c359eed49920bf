//! Seam for the process's memory: every allocation of a run is counted, on the thread that makes it, so what a request
//! takes and what it leaves behind is a function of the plan.  A request can be given a budget; beyond it the process
//! is out of memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}

pub struct Counting;

fn took(n: usize) -> bool {
    let t = TOTAL.with(|t| {
        t.set(t.get().wrapping_add(n as u64));
        t.get()
    });
    if t > LIMIT.with(|l| l.get()) {
        return false;
    }
    LIVE.with(|l| l.set(l.get() + n as i64));
    true
}

fn gave(n: usize) {
    LIVE.with(|l| l.set(l.get() - n as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !took(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !took(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        gave(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !took(n) {
            return std::ptr::null_mut();
        }
        gave(l.size());
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static MEMORY: Counting = Counting;

/// bytes this thread holds
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// Runs `f` with a budget, and tells how much it took altogether.
pub fn spent<T>(budget: u64, f: impl FnOnce() -> T) -> (u64, T) {
    let t0 = TOTAL.with(|t| t.get());
    LIMIT.with(|l| l.set(t0.saturating_add(budget)));
    let x = f();
    LIMIT.with(|l| l.set(u64::MAX));
    (TOTAL.with(|t| t.get()).wrapping_sub(t0), x)
}

/// The seam must see what Rust code allocates.
pub fn self_check() -> bool {
    let l0 = live();
    let (n, v) = spent(u64::MAX, || vec![1u8; 4096]);
    let held = live() - l0;
    drop(v);
    n == 4096 && held == 4096 && live() == l0
}
