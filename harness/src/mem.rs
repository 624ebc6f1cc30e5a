//! Heap memory the library holds: a global allocator that can tell the blocks
//! allocated while the library runs from those of the harness.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub struct Counting;

/// Set in a session's process only, which has one thread.
static ON: AtomicBool = AtomicBool::new(false);
static INSIDE: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static LARGEST: AtomicUsize = AtomicUsize::new(0);
static COUNT: AtomicUsize = AtomicUsize::new(0);

const SLOTS: usize = 1 << 16;
/// Blocks of the library, by address (open addressing, no removal but by 1).
static TABLE: [AtomicUsize; SLOTS] = [const { AtomicUsize::new(0) }; SLOTS];

fn slot(p: usize) -> usize {
    (p >> 4).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 48 & (SLOTS - 1)
}
fn add(p: usize, n: usize) {
    let mut i = slot(p);
    for _ in 0..SLOTS {
        let v = TABLE[i].load(Relaxed);
        if v == 0 || v == 1 {
            TABLE[i].store(p, Relaxed);
            COUNT.fetch_add(1, Relaxed);
            let live = LIVE.fetch_add(n, Relaxed) + n;
            PEAK.fetch_max(live, Relaxed);
            LARGEST.fetch_max(n, Relaxed);
            return;
        }
        i = (i + 1) & (SLOTS - 1);
    }
}
fn sub(p: usize, n: usize) -> bool {
    let mut i = slot(p);
    for _ in 0..SLOTS {
        let v = TABLE[i].load(Relaxed);
        if v == p {
            TABLE[i].store(1, Relaxed);
            COUNT.fetch_sub(1, Relaxed);
            LIVE.fetch_sub(n, Relaxed);
            return true;
        }
        if v == 0 {
            return false;
        }
        i = (i + 1) & (SLOTS - 1);
    }
    false
}

/// Where the library's blocks are: each ends at the end of a page, between pages
/// without access, and is never used again.
const PAGE: usize = 4096;
const ARENA: usize = 1 << 36;
const SLACK: u8 = 0xee;
static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
/// What a new block contains.
static FILL: AtomicUsize = AtomicUsize::new(0);

fn died(what: &str) -> ! {
    let s = format!("memory: {what}\n");
    unsafe {
        libc::write(2, s.as_ptr() as *const _, s.len());
        libc::abort()
    }
}
fn ours(p: usize) -> bool {
    let b = BASE.load(Relaxed);
    b != 0 && p >= b && p < b + ARENA
}
unsafe fn place(l: Layout, fill: u8) -> *mut u8 {
    let n = l.size().max(1).div_ceil(PAGE) * PAGE;
    let from = NEXT.fetch_add(n + PAGE, Relaxed) + PAGE;
    if l.align() > PAGE || from + n + PAGE > ARENA {
        return std::ptr::null_mut();
    }
    let page = (BASE.load(Relaxed) + from) as *mut u8;
    if libc::mprotect(page as *mut _, n, libc::PROT_READ | libc::PROT_WRITE) != 0 {
        return std::ptr::null_mut();
    }
    let at = (n - l.size()) & !(l.align() - 1);
    std::ptr::write_bytes(page, SLACK, n);
    std::ptr::write_bytes(page.add(at), fill, l.size());
    page.add(at)
}
unsafe fn remove(p: *mut u8, l: Layout) {
    let page = (p as usize & !(PAGE - 1)) as *mut u8;
    let at = p as usize - page as usize;
    let n = (at + l.size()).max(1).div_ceil(PAGE) * PAGE;
    if !(0..n).all(|i| i >= at && i < at + l.size() || *page.add(i) == SLACK) {
        died("something was written beside a block");
    }
    libc::madvise(page as *mut _, n, libc::MADV_DONTNEED);
    libc::mprotect(page as *mut _, n, libc::PROT_NONE);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !(ON.load(Relaxed) && INSIDE.load(Relaxed)) {
            return System.alloc(l);
        }
        let p = place(l, FILL.load(Relaxed) as u8);
        if !p.is_null() {
            add(p as usize, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !(ON.load(Relaxed) && INSIDE.load(Relaxed)) {
            return System.alloc_zeroed(l);
        }
        let p = place(l, 0);
        if !p.is_null() {
            add(p as usize, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !ours(p as usize) {
            return System.dealloc(p, l);
        }
        if !sub(p as usize, l.size()) {
            died("a block was freed twice");
        }
        remove(p, l);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !ours(p as usize) && !(ON.load(Relaxed) && INSIDE.load(Relaxed)) {
            return System.realloc(p, l, n);
        }
        // both exist for a moment
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
            self.dealloc(p, l);
        }
        q
    }
}

#[derive(Clone, Debug, Default, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Heap {
    pub live: usize,
    pub blocks: usize,
    pub peak: usize,
    pub largest: usize,
}
/// Starts counting, for the rest of the process's life. New blocks contain `fill`.
pub fn start(fill: u8) {
    // SAFETY: a new mapping.
    let base = unsafe { libc::mmap(std::ptr::null_mut(), ARENA, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
    assert!(base != libc::MAP_FAILED);
    BASE.store(base as usize, Relaxed);
    FILL.store(fill as usize, Relaxed);
    ON.store(true, Relaxed);
}
pub fn now() -> Option<Heap> {
    ON.load(Relaxed).then(|| Heap { live: LIVE.load(Relaxed), blocks: COUNT.load(Relaxed), peak: PEAK.load(Relaxed), largest: LARGEST.load(Relaxed) })
}
/// Sets whether the library is running; the previous value.
pub fn inside(v: bool) -> bool {
    if ON.load(Relaxed) {
        INSIDE.swap(v, Relaxed)
    } else {
        false
    }
}
pub fn lib<T>(f: impl FnOnce() -> T) -> T {
    let was = inside(true);
    let r = f();
    inside(was);
    r
}
pub fn harness<T>(f: impl FnOnce() -> T) -> T {
    let was = inside(false);
    let r = f();
    inside(was);
    r
}

/// A copy of `b` at the end of a page after which nothing is mapped.
pub struct Guarded {
    base: *mut libc::c_void,
    size: usize,
    at: *const u8,
}
impl Guarded {
    pub fn new(b: &[u8]) -> Guarded {
        let n = b.len().div_ceil(PAGE).max(1) * PAGE;
        // SAFETY: a new mapping of n bytes and a page without access.
        unsafe {
            let base = libc::mmap(std::ptr::null_mut(), n + PAGE, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(base != libc::MAP_FAILED);
            assert_eq!(libc::mprotect(base, n, libc::PROT_READ | libc::PROT_WRITE), 0);
            // what is before is not what is after
            std::ptr::write_bytes(base as *mut u8, 0xee, n - b.len());
            let at = (base as *mut u8).add(n - b.len());
            std::ptr::copy_nonoverlapping(b.as_ptr(), at, b.len());
            libc::mprotect(base, n, libc::PROT_READ);
            Guarded { base, size: n + PAGE, at }
        }
    }
    pub fn ptr(&self) -> *const u8 {
        self.at
    }
}
impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.base, self.size) };
    }
}
