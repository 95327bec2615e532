//! The global allocator of the harness. Off by default (plain system allocator); a thread can
//! switch it to
//!  - guarded mode: every block ends (or starts) exactly at an inaccessible page, is filled with
//!    a poison pattern, always moves on realloc, and is checked for layout and liveness on release;
//!  - counting mode: allocation events are counted;
//!  - failing mode: the n-th allocation event returns null;
//!  - arena mode: bump allocation from a private region (for the scheduler-controlled threads).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicUsize, Ordering::Relaxed};

pub struct McAlloc;

#[global_allocator]
static GLOBAL: McAlloc = McAlloc;

pub const GUARD: u8 = 1;
pub const COUNT: u8 = 2;
pub const LEFT: u8 = 4; // guarded blocks start (instead of end) at the inaccessible page
pub const FAIL: u8 = 8;
pub const ARENA: u8 = 16;
pub const FAKE: u8 = 32; // huge requests are granted without memory behind them
/// The FAKE mode applies from this size on.
pub const FAKE_FROM: usize = 1 << 26;

thread_local! {
    static MODE: Cell<u8> = const { Cell::new(0) };
    pub static IN_ALLOC: Cell<bool> = const { Cell::new(false) };
    static FAIL_AT: Cell<u64> = const { Cell::new(u64::MAX) };
    static ARENA_PTR: Cell<usize> = const { Cell::new(0) };
    static ARENA_END: Cell<usize> = const { Cell::new(0) };
    static N_ALLOC: Cell<u64> = const { Cell::new(0) };
    static N_REALLOC: Cell<u64> = const { Cell::new(0) };
    static N_DEALLOC: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static LAST: Cell<usize> = const { Cell::new(0) };
    static BIG: Cell<u64> = const { Cell::new(0) };
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Counts {
    pub alloc: u64,
    pub realloc: u64,
    pub dealloc: u64,
    pub live: i64,
    pub bytes: i64,
    pub largest: u64,
}

impl Counts {
    pub fn events(&self) -> u64 {
        self.alloc + self.realloc
    }
}

pub fn counts() -> Counts {
    Counts {
        alloc: N_ALLOC.get(),
        realloc: N_REALLOC.get(),
        dealloc: N_DEALLOC.get(),
        live: LIVE.get(),
        bytes: BYTES.get(),
        largest: BIG.get(),
    }
}

pub fn reset_counts() {
    N_ALLOC.set(0);
    N_REALLOC.set(0);
    N_DEALLOC.set(0);
    LIVE.set(0);
    BYTES.set(0);
    BIG.set(0);
}

/// Runs `f` with the given mode on, then restores the previous mode (also on unwinding).
pub fn with<R>(mode: u8, f: impl FnOnce() -> R) -> R {
    struct Restore(u8);
    impl Drop for Restore {
        fn drop(&mut self) {
            MODE.set(self.0);
        }
    }
    let _r = Restore(MODE.replace(mode));
    f()
}

/// Mode off for harness work inside a `with` region (e.g. building expectations).
pub fn off<R>(f: impl FnOnce() -> R) -> R {
    with(0, f)
}

pub fn set_mode(mode: u8) {
    MODE.set(mode)
}

pub fn fail_at(n: u64) {
    FAIL_AT.set(n)
}

pub fn set_arena(start: usize, len: usize) {
    ARENA_PTR.set(start);
    ARENA_END.set(start + len);
}

// ---------------------------------------------------------------- errors seen by the allocator

pub const E_LAYOUT: u32 = 1;
pub const E_DOUBLE: u32 = 2;
pub const E_CANARY: u32 = 3;
pub const E_BADPTR: u32 = 4;
pub const E_ZEROLAYOUT: u32 = 5;
pub const E_AFTER: u32 = 6;
static ERR: AtomicU32 = AtomicU32::new(0);

pub fn take_error() -> Option<&'static str> {
    match ERR.swap(0, Relaxed) {
        0 => None,
        E_LAYOUT => Some("block released or grown with a layout other than the one it was allocated with"),
        E_DOUBLE => Some("block released or grown after it had been released"),
        E_CANARY => Some("memory next to a heap block was overwritten"),
        E_BADPTR => Some("release of an address that is not the start of a heap block"),
        E_ZEROLAYOUT => Some("zero-sized request to the allocator"),
        E_AFTER => Some("heap memory was written after its release"),
        _ => Some("unknown allocator error"),
    }
}

fn err(e: u32) {
    let _ = ERR.compare_exchange(0, e, Relaxed, Relaxed);
}

// ---------------------------------------------------------------- guarded pool

const PAGE: usize = 4096;
// (number of slots, data pages per slot)
const CLASSES: [(usize, usize); 4] = [(192, 1), (24, 6), (12, 20), (4, 600)];
const NSLOTS: usize = 192 + 24 + 12 + 4;

#[derive(Clone, Copy)]
struct Slot {
    base: usize, // start of data pages; page before and after are inaccessible
    data: usize, // bytes of data pages
    ptr: usize,  // live or last block
    size: usize,
    align: usize,
    live: bool,
    left: bool,
}

struct Pool {
    slots: [Slot; NSLOTS],
    next: [usize; 4],
    lo: usize,
    hi: usize,
}

static POOL: AtomicPtr<Pool> = AtomicPtr::new(std::ptr::null_mut());
static OVERSIZE: AtomicUsize = AtomicUsize::new(0);

/// Number of guarded requests that were too large for the pool and went to the system allocator.
pub fn oversize_requests() -> usize {
    OVERSIZE.load(Relaxed)
}

/// Must be called once (before forking is fine) before GUARD mode is used.
pub fn init_pool() {
    unsafe {
        let mut total = PAGE;
        for (n, p) in CLASSES {
            total += n * (p + 1) * PAGE;
        }
        let m = libc::mmap(
            std::ptr::null_mut(),
            total + std::mem::size_of::<Pool>() + PAGE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(m != libc::MAP_FAILED);
        let base = m as usize;
        let pool = (base + total) as *mut Pool;
        let mut at = base;
        libc::mprotect(at as *mut _, PAGE, libc::PROT_NONE);
        at += PAGE;
        let mut k = 0;
        for (n, p) in CLASSES {
            for _ in 0..n {
                (*pool).slots[k] = Slot { base: at, data: p * PAGE, ptr: 0, size: 0, align: 0, live: false, left: false };
                libc::mprotect((at + p * PAGE) as *mut _, PAGE, libc::PROT_NONE);
                at += (p + 1) * PAGE;
                k += 1;
            }
        }
        (*pool).next = [0; 4];
        (*pool).lo = base;
        (*pool).hi = base + total;
        POOL.store(pool, Relaxed);
    }
}

fn class_start(c: usize) -> usize {
    CLASSES[..c].iter().map(|x| x.0).sum()
}

const CANARY: u8 = 0xC3;
pub const POISON: u8 = 0xA5;
const FREED: u8 = 0xDD;
const CANARY_LEN: usize = 64;

unsafe fn pool_alloc(size: usize, align: usize, left: bool) -> Option<*mut u8> {
    let pool = POOL.load(Relaxed);
    if pool.is_null() {
        return None;
    }
    if size == 0 {
        err(E_ZEROLAYOUT);
    }
    for c in 0..4 {
        let (n, p) = CLASSES[c];
        if size > p * PAGE {
            continue;
        }
        let start = class_start(c);
        for _ in 0..n {
            let i = (*pool).next[c];
            (*pool).next[c] = (i + 1) % n;
            let s = &mut (*pool).slots[start + i];
            if s.live {
                continue;
            }
            if s.ptr != 0 && !fill_ok(s) {
                err(E_AFTER);
            }
            let ptr = if left { s.base } else { (s.base + s.data - size) & !(align - 1) };
            s.ptr = ptr;
            s.size = size;
            s.align = align;
            s.live = true;
            s.left = left;
            // canary on the side that has slack, poison in the block
            if left {
                let e = (s.base + s.data).min(ptr + size + CANARY_LEN);
                std::ptr::write_bytes((ptr + size) as *mut u8, CANARY, e - ptr - size);
            } else {
                let b = s.base.max(ptr.saturating_sub(CANARY_LEN));
                std::ptr::write_bytes(b as *mut u8, CANARY, ptr - b);
                let e = s.base + s.data;
                std::ptr::write_bytes((ptr + size) as *mut u8, CANARY, e - ptr - size);
            }
            std::ptr::write_bytes(ptr as *mut u8, POISON, size);
            return Some(ptr as *mut u8);
        }
    }
    OVERSIZE.fetch_add(1, Relaxed);
    None
}

unsafe fn slot_of(ptr: usize) -> Option<&'static mut Slot> {
    let pool = POOL.load(Relaxed);
    if pool.is_null() || ptr < (*pool).lo || ptr >= (*pool).hi {
        return None;
    }
    let slots = &mut (*pool).slots;
    // slots are sorted by base
    let i = slots.partition_point(|s| s.base <= ptr);
    if i == 0 {
        err(E_BADPTR);
        return None;
    }
    Some(&mut slots[i - 1])
}

fn in_pool(ptr: usize) -> bool {
    let pool = POOL.load(Relaxed);
    unsafe { !pool.is_null() && ptr >= (*pool).lo && ptr < (*pool).hi }
}

unsafe fn canary_ok(s: &Slot) -> bool {
    let ok = |a: usize, b: usize| (a..b).all(|p| *(p as *const u8) == CANARY);
    if s.left {
        ok(s.ptr + s.size, (s.base + s.data).min(s.ptr + s.size + CANARY_LEN))
    } else {
        ok(s.base.max(s.ptr.saturating_sub(CANARY_LEN)), s.ptr) && ok(s.ptr + s.size, s.base + s.data)
    }
}

unsafe fn fill_ok(s: &Slot) -> bool {
    std::slice::from_raw_parts(s.ptr as *const u8, s.size).iter().all(|&b| b == FREED)
}

/// Checks that no released block that has not been handed out again was written to.
pub fn check_released() {
    let pool = POOL.load(Relaxed);
    unsafe {
        for s in (*pool).slots.iter() {
            if !s.live && s.ptr != 0 && !fill_ok(s) {
                err(E_AFTER);
            }
        }
    }
}

/// Checks the surroundings of all live guarded blocks.
pub fn check_canaries() {
    let pool = POOL.load(Relaxed);
    unsafe {
        for s in (*pool).slots.iter() {
            if s.live && !canary_ok(s) {
                err(E_CANARY);
            }
        }
    }
}

/// Checks that a pool address is a live block with exactly this size; false for foreign memory.
pub fn is_live_block(ptr: *const u8, size: usize) -> bool {
    unsafe {
        match slot_of(ptr as usize) {
            Some(s) => s.live && s.ptr == ptr as usize && s.size == size,
            None => false,
        }
    }
}

/// Size of the live block that starts at `ptr`: None if there is no such block, usize::MAX for
/// memory that is not under control of this allocator.
pub fn block_size(ptr: *const u8) -> Option<usize> {
    unsafe {
        let p = ptr as usize;
        for i in 0..4 {
            if p != 0 && FAKE_REGION[i] == p {
                return if FAKE_SIZE[i] == 0 { None } else { Some(FAKE_SIZE[i]) };
            }
        }
        if !in_pool(p) {
            return Some(usize::MAX);
        }
        match slot_of(p) {
            Some(s) if s.live && s.ptr == p => Some(s.size),
            _ => None,
        }
    }
}

pub fn live_guarded_blocks() -> usize {
    let pool = POOL.load(Relaxed);
    unsafe { (*pool).slots.iter().filter(|s| s.live).count() }
}

pub fn forget_guarded_blocks() {
    let pool = POOL.load(Relaxed);
    unsafe {
        for s in (*pool).slots.iter_mut() {
            s.live = false;
            s.ptr = 0;
        }
    }
}

unsafe fn pool_free(ptr: *mut u8, layout: Layout) {
    if let Some(s) = slot_of(ptr as usize) {
        if s.ptr != ptr as usize {
            return err(E_BADPTR);
        }
        if !s.live {
            return err(E_DOUBLE);
        }
        if s.size != layout.size() || s.align != layout.align() {
            err(E_LAYOUT);
        }
        if !canary_ok(s) {
            err(E_CANARY);
        }
        std::ptr::write_bytes(s.ptr as *mut u8, FREED, s.size);
        s.live = false;
    }
}

#[inline]
fn count_alloc(size: usize) {
    N_ALLOC.set(N_ALLOC.get() + 1);
    LIVE.set(LIVE.get() + 1);
    BYTES.set(BYTES.get().wrapping_add(size as i64));
    BIG.set(BIG.get().max(size as u64));
}

#[inline]
fn should_fail(m: u8) -> bool {
    if m & FAIL == 0 {
        return false;
    }
    let n = FAIL_AT.get();
    if n == u64::MAX {
        return false;
    }
    if n == 0 {
        return true; // keep failing: memory stays exhausted
    }
    FAIL_AT.set(n - 1);
    false
}

/// What the last successful request asked for.
pub fn last_request() -> usize {
    LAST.get()
}

static mut FAKE_REGION: [usize; 4] = [0; 4];
static mut FAKE_NEXT: usize = 0;
static mut FAKE_SIZE: [usize; 4] = [0; 4]; // granted size, 0: released
const FAKE_LEN: usize = 1 << 20;

unsafe fn is_fake(p: usize) -> bool {
    (0..4).any(|i| FAKE_REGION[i] != 0 && FAKE_REGION[i] == p)
}

unsafe fn free_fake(p: usize, l: Layout) {
    for i in 0..4 {
        if FAKE_REGION[i] == p {
            if FAKE_SIZE[i] == 0 {
                err(E_DOUBLE);
            } else if FAKE_SIZE[i] != l.size() || l.align() != 1 {
                err(E_LAYOUT);
            }
            FAKE_SIZE[i] = 0;
        }
    }
}

unsafe fn raw_alloc(m: u8, layout: Layout) -> *mut u8 {
    LAST.set(layout.size());
    if m & FAKE != 0 && layout.size() >= FAKE_FROM {
        FAKE_NEXT = (0..4).find(|&i| FAKE_SIZE[i] == 0).expect("HARNESS: too many huge blocks");
        FAKE_SIZE[FAKE_NEXT] = layout.size();
        if FAKE_REGION[FAKE_NEXT] == 0 {
            FAKE_REGION[FAKE_NEXT] = System.alloc(Layout::from_size_align_unchecked(FAKE_LEN, 4096)) as usize;
        }
        return FAKE_REGION[FAKE_NEXT] as *mut u8;
    }
    if m & ARENA != 0 {
        let a = (ARENA_PTR.get() + layout.align() - 1) & !(layout.align() - 1);
        if a + layout.size() > ARENA_END.get() {
            libc::abort();
        }
        ARENA_PTR.set(a + layout.size());
        return a as *mut u8;
    }
    if m & GUARD != 0 {
        if let Some(p) = pool_alloc(layout.size(), layout.align(), m & LEFT != 0) {
            return p;
        }
    }
    System.alloc(layout)
}

unsafe impl GlobalAlloc for McAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let m = MODE.get();
        if m == 0 {
            return System.alloc(layout);
        }
        IN_ALLOC.set(true);
        let p = if should_fail(m) {
            std::ptr::null_mut()
        } else {
            count_alloc(layout.size());
            raw_alloc(m, layout)
        };
        IN_ALLOC.set(false);
        p
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        let m = MODE.get();
        if m == 0 && !in_pool(ptr as usize) {
            return System.dealloc(ptr, layout);
        }
        IN_ALLOC.set(true);
        if m != 0 {
            N_DEALLOC.set(N_DEALLOC.get() + 1);
            LIVE.set(LIVE.get() - 1);
            BYTES.set(BYTES.get().wrapping_sub(layout.size() as i64));
        }
        if m & FAKE != 0 && is_fake(ptr as usize) {
            free_fake(ptr as usize, layout);
        } else if in_pool(ptr as usize) {
            pool_free(ptr, layout);
        } else if m & ARENA == 0 {
            System.dealloc(ptr, layout);
        }
        IN_ALLOC.set(false);
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if MODE.get() == 0 {
            return System.alloc_zeroed(layout);
        }
        let p = self.alloc(layout);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, layout.size());
        }
        p
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new: usize) -> *mut u8 {
        let m = MODE.get();
        if m == 0 && !in_pool(ptr as usize) {
            return System.realloc(ptr, layout, new);
        }
        IN_ALLOC.set(true);
        let out = if should_fail(m) {
            std::ptr::null_mut()
        } else {
            if m != 0 {
                N_REALLOC.set(N_REALLOC.get() + 1);
                BYTES.set(BYTES.get().wrapping_add(new as i64).wrapping_sub(layout.size() as i64));
                BIG.set(BIG.get().max(new as u64));
            }
            if m & (GUARD | ARENA | FAKE) == 0 && !in_pool(ptr as usize) {
                System.realloc(ptr, layout, new)
            } else {
                let nl = Layout::from_size_align_unchecked(new, layout.align());
                let q = raw_alloc(m, nl);
                if !q.is_null() {
                    // Copy what the caller claims the old block holds; a wrong claim is reported
                    // by pool_free (layout) and must not fault here.
                    let mut n = layout.size().min(new);
                    if in_pool(ptr as usize) {
                        if let Some(s) = slot_of(ptr as usize) {
                            n = n.min(s.size);
                        }
                    }
                    if m & FAKE != 0 {
                        n = n.min(FAKE_LEN);
                    }
                    std::ptr::copy_nonoverlapping(ptr, q, n);
                    if m & FAKE != 0 && is_fake(ptr as usize) {
                        free_fake(ptr as usize, layout);
                    } else if in_pool(ptr as usize) {
                        pool_free(ptr, layout);
                    } else if m & ARENA == 0 {
                        System.dealloc(ptr, layout);
                    }
                }
                q
            }
        };
        IN_ALLOC.set(false);
        out
    }
}
