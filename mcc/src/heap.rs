//! Counts the memory that is allocated in chosen sections of a thread and not released in them
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
}
struct Counting;
#[global_allocator]
static ALLOCATOR: Counting = Counting;

fn count(n: isize) {
    if ON.get() {
        LIVE.set(LIVE.get() + n);
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
pub fn counted<T>(f: impl FnOnce() -> T) -> T {
    ON.set(true);
    let r = f();
    ON.set(false);
    r
}
pub fn uncounted<T>(f: impl FnOnce() -> T) -> T {
    let was = ON.replace(false);
    let r = f();
    ON.set(was);
    r
}
pub fn live() -> isize {
    LIVE.get()
}
