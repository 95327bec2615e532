//! C06: ownership of heap blocks over every history of buffer operations, with every possible
//! allocation failure and with panics in between.
use crate::kit::{alloc, bufops::*, fork, run::Ctx};
use laby_common::internal::Buffer;
use laby_common::Render;

/// Renders some text, then panics.
struct Bomb(usize);
impl Render for Bomb {
    fn render(self, b: &mut Buffer) {
        for _ in 0..self.0 {
            b.push_str("<partial> ");
        }
        std::panic::resume_unwind(Box::new(7u8))
    }
}

fn history(seq: &[usize], end: usize) -> Result<(), String> {
    let mut w = alloc::off(World::new);
    for &i in seq {
        (OPS[i].1)(&mut w);
    }
    let World { a, b, ma, mb, .. } = w;
    let r = alloc::off(|| {
        if a.as_str() != ma || b.as_str() != mb {
            Err(format!("contents {:?} and {:?}, expected {ma:?} and {mb:?}", a.as_str(), b.as_str()))
        } else {
            Ok(())
        }
    });
    match end {
        0 => drop((a, b)),
        1 => {
            let s = a.into_string();
            drop(b);
            drop(s);
        }
        2 => {
            // the buffer is abandoned by a panic inside rendering
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                let mut a = a;
                let b = b;
                Bomb(3).render(&mut a);
                drop(b);
            }));
        }
        3 => {
            // shared boxes and vectors: conversion hands the block over, its new owner frees it
            let v = a.into_string().into_bytes().into_boxed_slice();
            let s = b.clone();
            drop(b);
            drop(v);
            drop(s);
        }
        _ => {
            // a template holding the converted strings is dropped unrendered / rendered
            let t = laby::div!(a.into_string(), title = b.into_string());
            let mut out = Buffer::new();
            if seq.len() % 2 == 0 {
                t.render(&mut out);
            } else {
                drop(t);
            }
            drop(out);
        }
    }
    alloc::off(|| drop((ma, mb)));
    r
}

pub fn run(c: &mut Ctx) {
    let n = OPS.len();
    // histories without failures
    let max = if c.thorough { 5 } else { 4 };
    for depth in 0..=max {
        let head = depth.min(2);
        let mut seq = vec![0usize; depth];
        loop {
            if c.take() {
                c.describe(|| format!("all histories of {depth} operations starting with: {}", names(&seq[..head])));
                loop {
                    for end in 0..5 {
                        for left in [0, alloc::LEFT] {
                            alloc::reset_counts();
                            let r = alloc::with(alloc::GUARD | left, || history(&seq, end));
                            c.traces += 1;
                            c.transitions += depth as u64 + 1;
                            if let Err(e) = r {
                                c.fail(format!("after {}: {e}", names(&seq)));
                            }
                            let what = || format!("after {} and ending {end}", names(&seq));
                            c.check_alloc(what);
                            let k = alloc::counts();
                            if k.live != 0 || k.bytes != 0 {
                                c.fail(format!("{}: {} heap blocks ({} bytes) not released", what(), k.live, k.bytes));
                            }
                            c.outcome_hash(k.alloc << 32 | k.realloc << 16 | k.dealloc);
                        }
                    }
                    c.states += 1;
                    if !next_seq(&mut seq, head, n) {
                        break;
                    }
                }
                alloc::check_released();
                c.check_alloc(|| format!("some time after histories starting with {}", names(&seq[..head])));
                if alloc::live_guarded_blocks() != 0 {
                    c.fail(format!("heap blocks stay behind after histories starting with {}", names(&seq[..head])));
                }
                seq[head..].fill(0);
            }
            if head == 0 || !next_seq(&mut seq[..head], 0, n) {
                break;
            }
        }
    }
    c.count("histories without failures", c.states);

    // every allocation failure of every history
    let max = if c.thorough { 3 } else { 2 };
    let mut fails = 0;
    for depth in 1..=max {
        let mut seq = vec![0usize; depth];
        loop {
            if c.take() {
                c.describe(|| format!("every allocation failure in: {}", names(&seq)));
                for k in 0.. {
                    let s = &seq;
                    let end = fork::run_stderr(20_000, |_| {
                        alloc::fail_at(k);
                        let r = alloc::with(alloc::GUARD | alloc::FAIL, || history(s, 0));
                        if alloc::take_error().is_some() {
                            return 5;
                        }
                        if r.is_ok() { 0 } else { 6 }
                    });
                    c.traces += 1;
                    c.transitions += depth as u64;
                    match end {
                        // no allocation was refused: all failure points of this history are done
                        fork::End::Exit(0, _) => {
                            let total = {
                                alloc::reset_counts();
                                let _ = alloc::with(alloc::GUARD, || history(s, 0));
                                alloc::counts().events()
                            };
                            c.check(k >= total, || format!("history {}: allocation request number {k} of {total} was refused, but the program went on", names(s)));
                            break;
                        }
                        fork::End::Signal(libc::SIGABRT, m) if m.contains("memory allocation of") => fails += 1,
                        e => c.fail(format!("history {} with allocation request number {k} refused: {e:?}, expected the allocation-error path", names(s))),
                    }
                    if k > 200 {
                        panic!("HARNESS: too many allocations");
                    }
                }
                c.states += 1;
            }
            if !next_seq(&mut seq, 0, n) {
                break;
            }
        }
    }
    c.count("allocation failures injected", fails);
}
