//! Instruction-by-instruction execution of a piece of code on the real processor (trap flag), with
//! the answers of CPUID and XGETBV supplied by the harness and every executed instruction of this
//! binary checked against the instruction sets that the simulated configuration provides.
use std::cell::Cell;

// Instruction set requirements.
pub const SSE3: u32 = 1;
pub const SSSE3: u32 = 2;
pub const SSE41: u32 = 4;
pub const SSE42: u32 = 8;
pub const POPCNT: u32 = 16;
pub const LZCNT: u32 = 32;
pub const BMI1: u32 = 64;
pub const BMI2: u32 = 128;
pub const AVX: u32 = 256;
pub const AVX2: u32 = 512;
pub const FMA: u32 = 1024;
pub const F16C: u32 = 2048;
pub const AVX512: u32 = 4096;
pub const OTHER: u32 = 8192; // AES, SHA, PCLMUL, MOVBE, ADX, XOP, ...
pub const OSXSAVE: u32 = 16384; // XGETBV itself

pub fn names(m: u32) -> String {
    let t = [
        (SSE3, "SSE3"), (SSSE3, "SSSE3"), (SSE41, "SSE4.1"), (SSE42, "SSE4.2"), (POPCNT, "POPCNT"),
        (LZCNT, "LZCNT"), (BMI1, "BMI1"), (BMI2, "BMI2"), (AVX, "AVX"), (AVX2, "AVX2"), (FMA, "FMA"),
        (F16C, "F16C"), (AVX512, "AVX-512"), (OTHER, "other extension"), (OSXSAVE, "XGETBV (OSXSAVE)"),
    ];
    t.iter().filter(|x| m & x.0 != 0).map(|x| x.1).collect::<Vec<_>>().join("+")
}

/// The extensions an instruction needs beyond x86-64 with SSE2.
pub fn requires(c: &[u8]) -> u32 {
    let mut i = 0;
    let (mut p66, mut pf2, mut pf3) = (false, false, false);
    loop {
        match c[i] {
            0x66 => p66 = true,
            0xF2 => pf2 = true,
            0xF3 => pf3 = true,
            0x2E | 0x36 | 0x3E | 0x26 | 0x64 | 0x65 | 0x67 | 0xF0 => {}
            _ => break,
        }
        i += 1;
        if i > 10 {
            return 0;
        }
    }
    if c[i] & 0xF0 == 0x40 {
        i += 1;
    }
    match c[i] {
        0x62 => AVX512,
        0xC5 => {
            let (l, pp) = ((c[i + 1] >> 2) & 1, c[i + 1] & 3);
            vex(1, c[i + 2], c[i + 3], l == 1, pp)
        }
        0xC4 => {
            let (map, l, pp) = (c[i + 1] & 0x1F, (c[i + 2] >> 2) & 1, c[i + 2] & 3);
            vex(map, c[i + 3], c[i + 4], l == 1, pp)
        }
        0x8F if (c[i + 1] >> 3) & 7 != 0 => OTHER,
        0x0F => match c[i + 1] {
            0x38 => match c[i + 2] {
                0x00..=0x0B | 0x1C..=0x1E => SSSE3,
                0x37 => SSE42,
                0x10..=0x41 => SSE41,
                0xF0 | 0xF1 if pf2 => SSE42,
                _ => OTHER,
            },
            0x3A => match c[i + 2] {
                0x0F => SSSE3,
                0x60..=0x63 => SSE42,
                0x08..=0x42 => SSE41,
                _ => OTHER,
            },
            0x01 if c[i + 2] == 0xD0 => OSXSAVE,
            0xB8 if pf3 => POPCNT,
            0xBD if pf3 => LZCNT,
            0xF0 if pf2 => SSE3,
            0x12 | 0x16 if pf3 => SSE3,
            0x12 if pf2 => SSE3,
            0x7C | 0x7D | 0xD0 if p66 || pf2 => SSE3,
            _ => 0,
        },
        _ => 0,
    }
}

fn vex(map: u8, op: u8, modrm: u8, l: bool, pp: u8) -> u32 {
    let int = if l { AVX | AVX2 } else { AVX };
    match map {
        1 => match op {
            0x41 | 0x42 | 0x44..=0x47 | 0x4A | 0x4B | 0x90..=0x93 | 0x98 | 0x99 => AVX512,
            0x60..=0x6D | 0x70..=0x76 if pp != 0 => int,
            0xD1..=0xD5 | 0xD7..=0xE5 | 0xE8..=0xEF | 0xF1..=0xF6 | 0xF8..=0xFE if pp == 1 && op != 0xD6 => int,
            _ => AVX,
        },
        2 => match op {
            0x0C..=0x0F | 0x17 | 0x1A | 0x2C..=0x2F => AVX,
            0x13 => AVX | F16C,
            0x18 | 0x19 => if modrm >> 6 == 3 { AVX | AVX2 } else { AVX },
            0x16 | 0x36 | 0x45..=0x47 | 0x58..=0x5A | 0x78 | 0x79 | 0x8C | 0x8E | 0x90..=0x93 => AVX | AVX2,
            0x96..=0x9F | 0xA6..=0xAF | 0xB6..=0xBF => AVX | FMA,
            0xF2 | 0xF3 => BMI1,
            0xF7 if pp == 0 => BMI1,
            0xF5..=0xF7 => BMI2,
            0x00..=0x0B | 0x1C..=0x1E | 0x20..=0x41 => int,
            _ => AVX | OTHER,
        },
        3 => match op {
            0x00 | 0x01 | 0x02 | 0x38 | 0x39 | 0x46 => AVX | AVX2,
            0x0E | 0x0F | 0x42 | 0x4C => int,
            0x1D => AVX | F16C,
            0xF0 => BMI2,
            0x04..=0x63 => AVX,
            _ => AVX | OTHER,
        },
        _ => AVX512,
    }
}

/// A simulated processor: which bits of the real one are visible.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Cpu {
    pub max_leaf: u32,
    pub leaf1_ecx: u32, // and-mask
    pub leaf1_edx: u32,
    pub leaf7_ebx: u32,
    pub ext_ecx: u32, // leaf 0x80000001
    pub xcr0: u64,    // replaces the real value
}

pub const C_SSE3: u32 = 1;
pub const C_FMA: u32 = 1 << 12;
pub const C_SSSE3: u32 = 1 << 9;
pub const C_SSE41: u32 = 1 << 19;
pub const C_SSE42: u32 = 1 << 20;
pub const C_POPCNT: u32 = 1 << 23;
pub const C_XSAVE: u32 = 1 << 26;
pub const C_OSXSAVE: u32 = 1 << 27;
pub const C_AVX: u32 = 1 << 28;
pub const C_F16C: u32 = 1 << 29;
pub const D_SSE2: u32 = 1 << 26;
pub const B_BMI1: u32 = 1 << 3;
pub const B_AVX2: u32 = 1 << 5;
pub const B_BMI2: u32 = 1 << 8;
pub const B_AVX512: u32 = 0xDC23_0000;

fn native(leaf: u32, sub: u32) -> [u32; 4] {
    let r = core::arch::x86_64::__cpuid_count(leaf, sub);
    [r.eax, r.ebx, r.ecx, r.edx]
}

impl Cpu {
    pub fn native() -> Cpu {
        Cpu { max_leaf: u32::MAX, leaf1_ecx: !0, leaf1_edx: !0, leaf7_ebx: !0, ext_ecx: !0, xcr0: native_xcr0() }
    }

    pub fn cpuid(&self, leaf: u32, sub: u32) -> [u32; 4] {
        let ext = leaf >= 0x8000_0000;
        if !ext && leaf > native(0, 0)[0].min(self.max_leaf) {
            return [0; 4];
        }
        let mut r = native(leaf, sub);
        match leaf {
            0 => r[0] = r[0].min(self.max_leaf),
            1 => {
                r[2] &= self.leaf1_ecx;
                r[3] &= self.leaf1_edx;
            }
            7 if sub == 0 => {
                r[1] &= self.leaf7_ebx;
                if self.leaf7_ebx & B_AVX512 != B_AVX512 {
                    r[2] &= !0x5B42;
                    r[3] &= !0x80_010C;
                }
            }
            7 if self.leaf7_ebx & B_AVX512 != B_AVX512 => r[0] = 0,
            0x8000_0001 => r[2] &= self.ext_ecx,
            _ => {}
        }
        r
    }

    /// The instruction sets that software may use on this processor.
    pub fn provides(&self) -> u32 {
        let l1 = self.cpuid(1, 0);
        let l7 = self.cpuid(7, 0);
        let ext = self.cpuid(0x8000_0001, 0);
        let mut m = 0;
        let mut on = |c: bool, b: u32| if c { m |= b };
        on(l1[2] & C_SSE3 != 0, SSE3);
        on(l1[2] & C_SSSE3 != 0, SSSE3);
        on(l1[2] & C_SSE41 != 0, SSE41);
        on(l1[2] & C_SSE42 != 0, SSE42);
        on(l1[2] & C_POPCNT != 0, POPCNT);
        on(ext[2] & 32 != 0, LZCNT);
        on(l7[1] & B_BMI1 != 0, BMI1);
        on(l7[1] & B_BMI2 != 0, BMI2);
        on(l1[2] & C_OSXSAVE != 0, OSXSAVE);
        let avx = l1[2] & C_AVX != 0 && l1[2] & C_OSXSAVE != 0 && self.xcr0 & 6 == 6;
        on(avx, AVX);
        on(avx && l7[1] & B_AVX2 != 0, AVX2);
        on(avx && l1[2] & C_FMA != 0, FMA);
        on(avx && l1[2] & C_F16C != 0, F16C);
        on(avx && l7[1] & (1 << 16) != 0 && self.xcr0 & 0xE6 == 0xE6, AVX512);
        m
    }
}

pub fn native_xcr0() -> u64 {
    if native(1, 0)[2] & C_OSXSAVE == 0 {
        return 0;
    }
    let (lo, hi): (u32, u32);
    unsafe { core::arch::asm!("xgetbv", in("ecx") 0, out("eax") lo, out("edx") hi) };
    (hi as u64) << 32 | lo as u64
}

pub fn native_has_avx2() -> bool {
    Cpu::native().provides() & AVX2 != 0
}

/// What the stepper saw.
#[derive(Clone, Copy, Debug, Default)]
pub struct Seen {
    pub steps: u64,
    pub in_binary: u64,
    pub cpuid: u64,
    pub xgetbv: u64,
    pub needs: u32,
    pub movmsk: bool,
    /// first instruction that the processor does not provide
    pub bad: Option<([u8; 15], u32, u64)>,
    /// instruction at which another thread is let in
    pub path: u64,
}

struct Step {
    cpu: Option<(Cpu, u32)>,
    seen: Seen,
    lo: u64,
    hi: u64,
    /// calls `at` before the instruction with this number (allocator internals do not count)
    stop_at: u64,
    at: Option<fn()>,
}

thread_local! {
    static STEP: Cell<*mut Step> = const { Cell::new(std::ptr::null_mut()) };
}

extern "C" {
    static __executable_start: u8;
    static etext: u8;
}

pub fn text_range() -> (u64, u64) {
    unsafe { (&__executable_start as *const u8 as u64, &etext as *const u8 as u64) }
}

unsafe extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let p = STEP.get();
    if p.is_null() {
        return;
    }
    let s = &mut *p;
    let uc = &mut *(uc as *mut libc::ucontext_t);
    let g = &mut uc.uc_mcontext.gregs;
    loop {
        let rip = g[libc::REG_RIP as usize] as u64;
        s.seen.steps += 1;
        if super::alloc::IN_ALLOC.get() {
            return;
        }
        let inside = rip >= s.lo && rip < s.hi;
        if s.seen.in_binary == s.stop_at {
            if let Some(f) = s.at.take() {
                f();
                // the rest runs natively
                g[libc::REG_EFL as usize] &= !0x100;
                return;
            }
        }
        if !inside {
            return;
        }
        s.seen.in_binary += 1;
        s.seen.path = (s.seen.path ^ rip).wrapping_mul(0x100000001b3);
        let c = std::slice::from_raw_parts(rip as *const u8, 15);
        let need = requires(c);
        s.seen.needs |= need;
        if c[0] == 0x66 && (c[1..4].starts_with(&[0x0F, 0xD7]) || c[2..5].starts_with(&[0x0F, 0xD7])) {
            s.seen.movmsk = true;
        }
        let Some((cpu, provides)) = s.cpu else { return };
        if need & !provides != 0 && s.seen.bad.is_none() {
            s.seen.bad = Some((c.try_into().unwrap(), need & !provides, rip - s.lo));
        }
        if c[0] == 0x0F && c[1] == 0xA2 {
            let r = cpu.cpuid(g[libc::REG_RAX as usize] as u32, g[libc::REG_RCX as usize] as u32);
            g[libc::REG_RAX as usize] = r[0] as i64;
            g[libc::REG_RBX as usize] = r[1] as i64;
            g[libc::REG_RCX as usize] = r[2] as i64;
            g[libc::REG_RDX as usize] = r[3] as i64;
            g[libc::REG_RIP as usize] += 2;
            s.seen.cpuid += 1;
            continue;
        }
        if c[0] == 0x0F && c[1] == 0x01 && c[2] == 0xD0 {
            let x = if g[libc::REG_RCX as usize] as u32 == 0 { cpu.xcr0 } else { 0 };
            g[libc::REG_RAX as usize] = (x & 0xFFFF_FFFF) as i64;
            g[libc::REG_RDX as usize] = (x >> 32) as i64;
            g[libc::REG_RIP as usize] += 3;
            s.seen.xgetbv += 1;
            continue;
        }
        return;
    }
}

pub fn install() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigemptyset(&mut sa.sa_mask);
        assert!(libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut()) == 0);
    }
}

fn stepped(s: &mut Step, f: impl FnOnce()) {
    let (lo, hi) = text_range();
    s.lo = lo;
    s.hi = hi;
    STEP.set(s);
    unsafe {
        core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
    f();
    unsafe {
        core::arch::asm!("pushfq", "and qword ptr [rsp], 0xfffffffffffffeff", "popfq");
    }
    STEP.set(std::ptr::null_mut());
}

/// Runs `f` instruction by instruction on the simulated processor.
pub fn on(cpu: Cpu, f: impl FnOnce()) -> Seen {
    let mut s = Step { cpu: Some((cpu, cpu.provides())), seen: Seen::default(), lo: 0, hi: 0, stop_at: u64::MAX, at: None };
    stepped(&mut s, f);
    s.seen
}

/// Runs `f` instruction by instruction on the real processor.
pub fn trace(f: impl FnOnce()) -> Seen {
    let mut s = Step { cpu: None, seen: Seen::default(), lo: 0, hi: 0, stop_at: u64::MAX, at: None };
    stepped(&mut s, f);
    s.seen
}

/// As `trace`, calling `at` before the instruction with number `stop_at`.
pub fn trace_until(stop_at: u64, at: fn(), f: impl FnOnce()) -> Seen {
    let mut s = Step { cpu: None, seen: Seen::default(), lo: 0, hi: 0, stop_at, at: Some(at) };
    stepped(&mut s, f);
    s.seen
}

pub const BACKENDS: [&str; 3] = ["avx2", "sse2", "fallback"];

pub fn backend_cpu(backend: &str) -> Cpu {
    let mut c = Cpu::native();
    match backend {
        "avx2" => {}
        "sse2" => {
            c.leaf1_ecx &= !(C_AVX | C_FMA | C_F16C);
            c.leaf7_ebx &= !(B_AVX2 | B_AVX512);
        }
        "fallback" => {
            c.leaf1_ecx &= !(C_AVX | C_FMA | C_F16C | C_SSE3 | C_SSSE3 | C_SSE41 | C_SSE42);
            c.leaf1_edx &= !D_SSE2;
            c.leaf7_ebx &= !(B_AVX2 | B_AVX512);
        }
        _ => panic!("HARNESS: unknown backend {backend}"),
    }
    c
}

/// Makes this process's escape routine believe it runs on the given kind of processor. Must come
/// before the first escape of the process.
pub fn force(backend: &str) {
    install();
    on(backend_cpu(backend), || {
        let mut b = laby_common::internal::Buffer::with_capacity(256);
        laby_common::internal::escape("0123456789abcdef0123456789abcdef0123456789", &mut b);
    });
}
