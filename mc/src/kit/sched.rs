//! A scheduler for real threads of this process. Scheduling points are the accesses to writable
//! static memory of the binary (found by making it inaccessible: an access faults before it
//! happens); everything else a thread touches while it runs an operation is its own (stack,
//! thread-local storage, private heap arena), so switching elsewhere cannot be observed. Exactly one
//! thread runs at a time; after a granted access the memory is closed again (single step).
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};

pub const MAX_POINTS: usize = 4096;
pub const MAX_THREADS: usize = 4;
const OUT: usize = 4096;

#[repr(C)]
pub struct Shared {
    turn: AtomicU32,
    done: [AtomicU32; MAX_THREADS],
    n: AtomicU32,
    nthreads: AtomicU32,
    prefix_len: AtomicU32,
    prefix: [AtomicU32; MAX_POINTS],
    /// what happened: thread chosen, set of threads that could have been chosen, thread that was running
    pub chosen: [AtomicU32; MAX_POINTS],
    pub enabled: [AtomicU32; MAX_POINTS],
    pub running: [AtomicU32; MAX_POINTS],
    pub addr: [AtomicU64; MAX_POINTS],
    pub forced: [AtomicU32; MAX_POINTS],
    pub diverged: AtomicU32,
    pub overflow: AtomicU32,
    /// granules (8 bytes) of shared memory that some explored execution writes
    pub written: [AtomicU64; 512],
    pub nwritten: AtomicU32,
    spins: AtomicU32,
    spin_rip: AtomicU64,
    pub out_len: [AtomicU32; MAX_THREADS],
    pub out: [[u8; OUT]; MAX_THREADS],
}

pub const NOBODY: u32 = 99;

thread_local! {
    static ME: Cell<u32> = const { Cell::new(NOBODY) };
    static SH: Cell<*mut Shared> = const { Cell::new(std::ptr::null_mut()) };
    static LO: Cell<usize> = const { Cell::new(0) };
    static HI: Cell<usize> = const { Cell::new(0) };
}

pub fn new_shared() -> *mut Shared {
    unsafe {
        let m = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(m != libc::MAP_FAILED);
        m as *mut Shared
    }
}

pub fn reset(s: &Shared, nthreads: usize, prefix: &[u32]) {
    assert!(prefix.len() < MAX_POINTS);
    s.turn.store(NOBODY, SeqCst);
    for i in 0..MAX_THREADS {
        s.done[i].store(0, SeqCst);
        s.out_len[i].store(u32::MAX, SeqCst);
    }
    s.n.store(0, SeqCst);
    s.nthreads.store(nthreads as u32, SeqCst);
    s.prefix_len.store(prefix.len() as u32, SeqCst);
    for (i, p) in prefix.iter().enumerate() {
        s.prefix[i].store(*p, SeqCst);
    }
    s.diverged.store(0, SeqCst);
    s.overflow.store(0, SeqCst);
    s.spins.store(0, SeqCst);
    s.spin_rip.store(0, SeqCst);
}

pub fn points(s: &Shared) -> usize {
    s.n.load(SeqCst) as usize
}

#[inline(always)]
unsafe fn syscall4(n: usize, a: usize, b: usize, c: usize, d: usize) -> isize {
    let r: isize;
    core::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

#[inline(always)]
unsafe fn protect(on: bool) {
    let prot = if on { libc::PROT_NONE } else { libc::PROT_READ | libc::PROT_WRITE };
    syscall4(libc::SYS_mprotect as usize, LO.get(), HI.get() - LO.get(), prot as usize, 0);
}

#[inline(always)]
unsafe fn wait_turn(s: *const Shared, me: u32) {
    loop {
        let t = (*s).turn.load(SeqCst);
        if t == me {
            return;
        }
        syscall4(libc::SYS_futex as usize, &(*s).turn as *const _ as usize, libc::FUTEX_WAIT as usize, t as usize, 0);
    }
}

#[inline(always)]
unsafe fn give(s: *const Shared, to: u32) {
    (*s).turn.store(to, SeqCst);
    syscall4(libc::SYS_futex as usize, &(*s).turn as *const _ as usize, libc::FUTEX_WAKE as usize, 64, 0);
}

/// One scheduling decision. `me` is running (NOBODY for the first decision); `alive` says whether
/// it can continue. Must not touch static memory.
#[inline(always)]
unsafe fn decide(s: *const Shared, me: u32, alive: bool, rip: u64, addr: u64) -> u32 {
    let n = (*s).n.load(SeqCst) as usize;
    let nt = (*s).nthreads.load(SeqCst);
    let mut enabled = 0u32;
    let mut k = 0;
    while k < nt {
        if (*s).done[k as usize].load(SeqCst) == 0 {
            enabled |= 1 << k;
        }
        k += 1;
    }
    if enabled == 0 {
        return NOBODY;
    }
    // A thread that keeps polling the same place gives way.
    let mut forced = false;
    if alive && (*s).spin_rip.load(SeqCst) == rip << 2 | me as u64 {
        if (*s).spins.load(SeqCst) > 40 {
            forced = enabled & !(1 << me) != 0;
            (*s).spins.store(0, SeqCst);
        } else {
            (*s).spins.store((*s).spins.load(SeqCst) + 1, SeqCst);
        }
    } else {
        (*s).spin_rip.store(rip << 2 | me as u64, SeqCst);
        (*s).spins.store(0, SeqCst);
    }
    // default: go on with the running thread, else the lowest
    let mut choice = if alive { me } else { enabled.trailing_zeros() };
    if forced {
        let mut k = (me + 1) % nt;
        while enabled >> k & 1 == 0 || k == me {
            k = (k + 1) % nt;
        }
        choice = k;
    }
    if n < (*s).prefix_len.load(SeqCst) as usize {
        choice = (*s).prefix[n].load(SeqCst);
        if enabled >> choice & 1 == 0 {
            (*s).diverged.store(1, SeqCst);
            choice = enabled.trailing_zeros();
        }
    }
    if n < MAX_POINTS {
        (*s).chosen[n].store(choice, SeqCst);
        (*s).enabled[n].store(enabled, SeqCst);
        (*s).running[n].store(if alive { me } else { NOBODY }, SeqCst);
        (*s).addr[n].store(addr, SeqCst);
        (*s).forced[n].store(forced as u32, SeqCst);
        (*s).n.store(n as u32 + 1, SeqCst);
    } else {
        (*s).overflow.store(1, SeqCst);
    }
    choice
}

/// Is the granule (or a neighbour: accesses can straddle) in the written set? A write puts it there.
#[inline(always)]
unsafe fn relevant(s: *const Shared, granule: u64, write: bool) -> bool {
    let n = (*s).nwritten.load(SeqCst) as usize;
    let mut i = 0;
    let mut near = false;
    while i < n {
        let w = (&(*s).written)[i].load(SeqCst);
        if w == granule {
            return true;
        }
        near |= w + 3 >= granule && w <= granule + 3;
        i += 1;
    }
    if write {
        if n < 512 {
            (&(*s).written)[n].store(granule, SeqCst);
            (*s).nwritten.store(n as u32 + 1, SeqCst);
        } else {
            (*s).overflow.store(1, SeqCst);
        }
    }
    near || write
}

unsafe extern "C" fn on_segv(sig: i32, info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let me = ME.get();
    let a = (*info).si_addr() as usize;
    if me == NOBODY || a < LO.get() || a >= HI.get() {
        // a real fault: die from it
        protect_off_and_die(sig);
        return;
    }
    let s = SH.get();
    let g = &mut (*(uc as *mut libc::ucontext_t)).uc_mcontext.gregs;
    let write = *g.as_ptr().add(libc::REG_ERR as usize) & 2 != 0;
    if !relevant(s, a as u64 >> 3, write) {
        // nobody ever writes this: reading it commutes with everything
        protect(false);
        *g.as_mut_ptr().add(libc::REG_EFL as usize) |= 0x100;
        return;
    }
    let next = decide(s, me, true, *g.as_ptr().add(libc::REG_RIP as usize) as u64, a as u64);
    if next != me {
        give(s, next);
        wait_turn(s, me);
    }
    protect(false);
    *g.as_mut_ptr().add(libc::REG_EFL as usize) |= 0x100;
}

unsafe extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let g = &mut (*(uc as *mut libc::ucontext_t)).uc_mcontext.gregs;
    *g.as_mut_ptr().add(libc::REG_EFL as usize) &= !0x100;
    if ME.get() != NOBODY {
        protect(true);
    }
}

#[cold]
unsafe fn protect_off_and_die(sig: i32) {
    if HI.get() != 0 {
        protect(false);
    }
    let mut sa: libc::sigaction = std::mem::zeroed();
    sa.sa_sigaction = libc::SIG_DFL;
    libc::sigaction(sig, &sa, std::ptr::null_mut());
}

fn statics() -> (usize, usize) {
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    let exe = std::fs::read_link("/proc/self/exe").unwrap();
    let exe = exe.to_string_lossy();
    let (mut lo, mut hi) = (0, 0);
    for l in maps.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        let (a, b) = f[0].split_once('-').unwrap();
        let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
        let mine = f.len() > 5 && f[5] == exe;
        if mine && f[1].starts_with("rw") {
            if lo == 0 {
                lo = a;
            }
            hi = b;
        } else if hi == a && f[1].starts_with("rw") && f.len() == 5 {
            hi = b; // .bss
        }
    }
    assert!(lo != 0, "HARNESS: no writable static memory found");
    (lo, hi)
}

/// Runs the operations on one thread each under the schedule in `s`. Each operation returns its
/// output. Called in a child process; `s` is shared with the parent.
pub fn run(s: *mut Shared, ops: &[fn() -> laby_common::internal::Buffer]) {
    let (lo, hi) = statics();
    unsafe {
        for (sig, h) in [(libc::SIGSEGV, on_segv as *const () as usize), (libc::SIGTRAP, on_trap as *const () as usize)] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = h;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
            libc::sigemptyset(&mut sa.sa_mask);
            assert!(libc::sigaction(sig, &sa, std::ptr::null_mut()) == 0);
        }
    }
    let ready = std::sync::Arc::new(AtomicU32::new(0));
    let sp = s as usize;
    let mut hs = Vec::new();
    for (i, &op) in ops.iter().enumerate() {
        let ready = ready.clone();
        hs.push(std::thread::spawn(move || unsafe {
            let s = sp as *mut Shared;
            let arena = libc::mmap(std::ptr::null_mut(), 1 << 20, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            super::alloc::set_arena(arena as usize, 1 << 20);
            SH.set(s);
            LO.set(lo);
            HI.set(hi);
            ME.set(i as u32);
            ready.fetch_add(1, SeqCst);
            wait_turn(s, i as u32);
            // from here on only one thread runs at a time, and statics are closed
            protect(true);
            super::alloc::set_mode(super::alloc::ARENA);
            let b = op();
            super::alloc::set_mode(0);
            let t = b.as_str().as_bytes();
            let n = t.len().min(OUT);
            std::ptr::copy_nonoverlapping(t.as_ptr(), (*s).out[i].as_mut_ptr(), n);
            (*s).out_len[i].store(t.len() as u32, SeqCst);
            std::mem::forget(b);
            (*s).done[i].store(1, SeqCst);
            ME.set(NOBODY);
            let next = decide(s, i as u32, false, 0, 0);
            protect(false);
            give(s, next);
            // nothing below may run while others are scheduled: park until all are done
            while (&*s).done[..ops_len(s)].iter().any(|d| d.load(SeqCst) == 0) {
                let r: libc::timespec = libc::timespec { tv_sec: 0, tv_nsec: 200_000 };
                syscall4(libc::SYS_nanosleep as usize, &r as *const _ as usize, 0, 0, 0);
            }
        }));
    }
    while ready.load(SeqCst) < ops.len() as u32 {
        std::thread::yield_now();
    }
    unsafe {
        let first = decide(s, NOBODY, false, 0, 0);
        give(s, first);
        // wait without touching statics
        while (&*s).done[..ops.len()].iter().any(|d| d.load(SeqCst) == 0) {
            let r: libc::timespec = libc::timespec { tv_sec: 0, tv_nsec: 100_000 };
            syscall4(libc::SYS_nanosleep as usize, &r as *const _ as usize, 0, 0, 0);
        }
    }
    for h in hs {
        let _ = h.join();
    }
}

unsafe fn ops_len(s: *const Shared) -> usize {
    (*s).nthreads.load(SeqCst) as usize
}
