//! C03: on every simulated processor configuration the escape routine executes only instructions
//! that the configuration provides, and the output is right. One child process per configuration
//! (the routine caches its choice per process); the first calls run instruction by instruction with
//! CPUID and XGETBV answered by the harness, then the same process escapes a bulk of texts natively
//! with the routine it has chosen.
use crate::kit::{cpu::*, fork, input::Region, model::*, run::Ctx};
use laby_common::internal::{escape, Buffer};
use std::fmt::Write as _;

/// Groups of feature bits that a hypervisor, firmware or OS can hide together.
const GROUPS: usize = 8;

fn config(i: usize, xcr0: u64, max_leaf: u32) -> Cpu {
    let on = |b: usize| i >> b & 1 == 1;
    let mut c = Cpu { max_leaf, leaf1_ecx: !0, leaf1_edx: !0, leaf7_ebx: !0, ext_ecx: !0, xcr0 };
    if !on(0) {
        c.leaf1_edx &= !D_SSE2;
    }
    if !on(1) {
        c.leaf1_ecx &= !C_AVX;
    }
    if !on(2) {
        c.leaf7_ebx &= !B_AVX2;
    }
    if !on(3) {
        c.leaf1_ecx &= !C_OSXSAVE;
    }
    if !on(4) {
        c.leaf1_ecx &= !(C_SSE3 | C_SSSE3 | C_SSE41 | C_SSE42 | C_POPCNT);
        c.ext_ecx &= !32;
    }
    if !on(5) {
        c.leaf7_ebx &= !(B_BMI1 | B_BMI2);
    }
    if !on(6) {
        c.leaf7_ebx &= !B_AVX512;
    }
    if !on(7) {
        c.leaf1_ecx &= !(C_FMA | C_F16C | C_XSAVE);
    }
    c
}

fn describe(i: usize, xcr0: u64, max_leaf: u32) -> String {
    let n = ["SSE2", "AVX", "AVX2", "OSXSAVE", "SSE3..SSE4.2+POPCNT", "BMI", "AVX-512", "FMA+F16C+XSAVE"];
    let on: Vec<&str> = (0..GROUPS).filter(|b| i >> b & 1 == 1).map(|b| n[b]).collect();
    format!("processor reporting {{{}}}, XCR0 = {xcr0:#x}, highest CPUID leaf {max_leaf:#x}", on.join(", "))
}

pub fn run(c: &mut Ctx) {
    install();
    let th = c.thorough;
    let native = Cpu::native();
    let have = native.provides();
    let region = Region::new(1 << 16);
    // Texts that drive every loop of every routine: all length classes, specials in every part.
    let mut first: Vec<String> = Vec::new();
    let lens: &[usize] = if th { &[0, 1, 8, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 100, 129] } else { &[15, 16, 31, 32, 75] };
    for &len in lens {
        for pat in if th { 0..4 } else { 1..3 } {
            let t: String = (0..len)
                .map(|i| {
                    let s = match pat {
                        0 => false,
                        1 => i == 0 || i + 1 == len || i == len / 2,
                        2 => true,
                        _ => i % 7 == 3,
                    };
                    if s { SPECIALS[(i + pat) % 5] as char } else { (b'a' + (i % 26) as u8) as char }
                })
                .collect();
            first.push(t);
        }
    }
    let xcr0s: &[u64] = if th { &[0, 1, 3, 5, 7, 0x1f, 0xe7, 0xe3] } else { &[1, 3, 5, 7, 0xe7] };
    let leaves: &[u32] = if th { &[0, 1, 6, 7, 0xd, u32::MAX] } else { &[1, 6, u32::MAX] };
    for &max_leaf in leaves {
        for &xcr0 in xcr0s {
            for i in 0..1usize << GROUPS {
                // quick: all combinations of the four deciding groups, with the others all present,
                // all absent, or all but one present
                let others = (i >> 4).count_ones();
                if !th && (others == 1 || others == 2) {
                    continue;
                }
                // what the process escapes first decides nothing, but exercises detection from
                // different callers
                for start in 0..if th { 4usize } else { 1 } {
                    if !c.take() {
                        continue;
                    }
                    let cfg = config(i, xcr0, max_leaf);
                    if cfg.provides() & !have != 0 {
                        c.count("configurations skipped because this machine lacks an extension", 1);
                        continue;
                    }
                    c.describe(|| describe(i, xcr0, max_leaf));
                    let firsts = &first;
                    let reg = &region;
                    let end = fork::run(60_000, false, |w| {
                        let mut steps = 0;
                        let mut cpuid = 0;
                        let mut needs = 0;
                        let mut movmsk = false;
                        let mut path = 0u64;
                        let mut n = 0u64;
                        for k in 0..firsts.len() {
                            let t = &firsts[(k + start * 21 + 3) % firsts.len()];
                            let mut b = Buffer::with_capacity(1024);
                            let want = crate::kit::model::escape(t);
                            let s = on(cfg, || escape(t, &mut b));
                            steps += s.in_binary;
                            cpuid += s.cpuid;
                            needs |= s.needs;
                            movmsk |= s.movmsk;
                            path ^= s.path;
                            n += 1;
                            if let Some((code, lack, at)) = s.bad {
                                let _ = write!(w, "BAD escaping {t:?} executes an instruction that needs {} (bytes {code:02x?} at text offset {at:#x})", names(lack));
                                return 3;
                            }
                            if b.as_str() != want {
                                let _ = write!(w, "BAD escape of {t:?} gave {:?}, expected {want:?}", b.as_str());
                                return 3;
                            }
                        }
                        // bulk, natively, with whatever routine was chosen
                        let top = if th { 160usize } else { 70 };
                        let mut want = Vec::new();
                        for len in 0..=top {
                            for al in [0usize, 1, 16, 31] {
                                for p in 0..len.max(1) {
                                    for q in [p, len.saturating_sub(1 + p), len / 2] {
                                        let bytes = &mut reg.b()[al..al + len];
                                        bytes.fill(b'#');
                                        if len > 0 {
                                            bytes[p] = SPECIALS[(p + len) % 5];
                                            bytes[q.min(len - 1)] = SPECIALS[(q + p) % 5];
                                        }
                                        let t = reg.t(al, len);
                                        want.clear();
                                        escape_bytes(t.as_bytes(), &mut want);
                                        let mut b = Buffer::with_capacity(8);
                                        escape(t, &mut b);
                                        n += 1;
                                        if b.as_str().as_bytes() != &want[..] {
                                            let _ = write!(w, "BAD escape of {t:?} gave {:?}, expected {:?}", b.as_str(), String::from_utf8_lossy(&want));
                                            return 3;
                                        }
                                    }
                                }
                            }
                        }
                        let _ = write!(w, "OK {steps} {cpuid} {n} {} {path}", if needs & AVX2 != 0 { "avx2" } else if movmsk { "sse2" } else { "scalar" });
                        0
                    });
                    match end {
                        fork::End::Exit(0, s) => {
                            let f: Vec<&str> = s.split(' ').collect();
                            if f.len() != 6 {
                                panic!("HARNESS: bad report {s:?}");
                            }
                            c.states += 1;
                            c.transitions += f[1].parse::<u64>().unwrap();
                            c.traces += f[3].parse::<u64>().unwrap();
                            c.outcome(f[5].as_bytes());
                            c.count(
                                match f[4] {
                                    "avx2" => "configurations that ran AVX2 code",
                                    "sse2" => "configurations that ran SSE2 vector code",
                                    _ => "configurations that ran scalar code",
                                },
                                1,
                            );
                            c.count("CPUID instructions answered", f[2].parse().unwrap());
                        }
                        fork::End::Exit(3, s) => c.fail(format!("on a {}: {}", describe(i, xcr0, max_leaf), s.trim_start_matches("BAD "))),
                        e => c.fail(format!("on a {}: escaping ended with {e:?}", describe(i, xcr0, max_leaf))),
                    }
                }
            }
        }
    }
}
