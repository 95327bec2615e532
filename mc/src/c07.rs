//! C07: every (buffer state, request) pair of a boundary grid and every short history of
//! requests, with an allocator that grants any legal size (huge grants have no memory behind
//! them; only a few bytes of such a block are ever used).
use crate::kit::{alloc, bufops::next_seq, run::Ctx};
use laby_common::internal::Buffer;
use std::panic::{catch_unwind, AssertUnwindSafe};

const MAX: usize = isize::MAX as usize;
const MODE: u8 = alloc::GUARD | alloc::FAKE;

fn sizes(cap: usize, len: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=300).collect();
    let mut around = |x: usize, r: usize| {
        for d in 0..=r {
            v.push(x.wrapping_add(d));
            v.push(x.wrapping_sub(d));
        }
    };
    for k in 3..64 {
        around(1usize << k, 3);
    }
    around(MAX, 70);
    around(0, 70); // and the top of the range
    for x in [cap, len, cap - len] {
        around(x, 3);
        around(MAX - x, 3);
        around(0usize.wrapping_sub(x), 3);
        around(MAX.wrapping_sub(2 * x), 3);
        around((MAX / 2).wrapping_sub(x), 2);
        around(2usize.wrapping_mul(x), 2);
    }
    v.sort();
    v.dedup();
    v
}

/// The text of a buffer state.
fn text(len: usize) -> String {
    (0..len).map(|i| (b'a' + (i % 26) as u8) as char).collect()
}

/// The room in a buffer that its allocation really has, as far as the allocator knows.
fn honest(c: &mut Ctx, b: &Buffer, what: &dyn Fn() -> String) {
    let granted = if b.capacity() == 0 { 0 } else { alloc::block_size(b.as_mut_ptr()).unwrap_or(0) };
    c.check(b.capacity() <= granted, || format!("{}: capacity {} but only {granted} bytes were allocated", what(), b.capacity()));
}

fn build(kind: usize, cap: usize, len: usize) -> Option<Buffer> {
    let t = text(len);
    let b = match kind {
        0 => {
            let mut b = Buffer::with_capacity(cap);
            b.push_str(&t);
            b
        }
        1 if len <= cap => {
            let mut b = Buffer::new();
            b.reserve(cap);
            b.push_str(&t);
            b
        }
        2 if cap == len => Buffer::from(t),
        3 if cap == len => Buffer::from(t.as_str()),
        4 if cap == len && cap < 10000 => {
            let mut b = Buffer::with_capacity(cap + 9);
            b.push_str(&t);
            b.clone()
        }
        5 if cap < 10000 => {
            // filled beyond, then cleared
            let mut b = Buffer::with_capacity(cap);
            b.push_str(&text(cap));
            b.clear();
            b.push_str(&t);
            b
        }
        _ => return None,
    };
    Some(b)
}

fn one(c: &mut Ctx, kind: usize, cap: usize, len: usize, size: usize, small: bool) {
    c.states += 1;
    alloc::with(MODE, || {
        alloc::reset_counts();
        let Some(mut b) = build(kind, cap, len) else { return };
        let what = || format!("buffer {kind} with capacity {cap} and {len} bytes, {}({size})", if small { "reserve_small" } else { "reserve" });
        let cap0 = b.capacity();
        honest(c, &b, &what);
        let n0 = alloc::counts().events();
        c.transitions += 3; // build, request, further use
        let r = catch_unwind(AssertUnwindSafe(|| if small { unsafe { b.reserve_small(size) } } else { b.reserve(size) })).is_ok();
        let n1 = alloc::counts().events();
        alloc::off(|| {
            c.outcome_hash((r as u64) << 40 | (n1 - n0) << 32 | (b.capacity() - b.len()).leading_zeros() as u64);
            // `size` more bytes than the contents are possible iff they fit one object
            let possible = len.checked_add(size).map_or(false, |t| t <= MAX);
            let grow = cap0.saturating_add(size.max(cap0));
            if r {
                c.check(possible, || format!("{} returned although {size} more bytes cannot exist", what()));
                c.check(b.capacity() >= b.len() && b.capacity() - b.len() >= size, || format!("{} returned with room for {} bytes only", what(), b.capacity().wrapping_sub(b.len())));
            } else {
                c.check(!possible || grow > MAX, || format!("{} panicked at {} although the request can be satisfied", what(), *crate::kit::run::LAST_PANIC.lock().unwrap()));
                c.check(b.capacity() == cap0, || format!("{} panicked and changed the capacity to {}", what(), b.capacity()));
            }
            honest(c, &b, &what);
            c.check(b.len() == len && b.as_str() == text(len), || format!("{}: contents changed", what()));
        });
        if r && size <= 5000 {
            // the promised room is usable without another allocation
            let fill = alloc::off(|| text(size));
            b.push_str(&fill);
            let more = alloc::counts().events() - n1;
            c.check(more == 0, || format!("{}: appending {size} bytes then needed {more} allocation(s)", what()));
            alloc::off(|| {
                c.check(b.as_str() == text(len) + &fill, || format!("{}: contents wrong after filling the room", what()));
                drop(fill);
            });
        } else {
            b.push_str("tail");
            b.push('!');
            alloc::off(|| c.check(b.as_str() == text(len) + "tail!", || format!("{}: contents wrong after a further append", what())));
            b.clear();
            b.push_str("x");
            c.check(b.as_str() == "x", || format!("{}: contents wrong after clear and append", what()));
        }
        drop(b);
        c.check_alloc(what);
    });
}

pub fn run(c: &mut Ctx) {
    let thorough = c.thorough;
    let mut caps: Vec<usize> = vec![0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 255, 256, 257, 4095, 4096, 4097, 16384];
    if thorough {
        caps.extend(0..300);
    }
    caps.extend([1 << 26, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 61) + 1, (1 << 62) - 1, 1 << 62, (1 << 62) + 1, MAX - 300, MAX - 1, MAX]);
    caps.sort();
    caps.dedup();
    for &cap in &caps {
        let mut lens = vec![0, 1, 5, 100, cap / 2, cap.saturating_sub(1), cap];
        lens.retain(|&l| l <= cap && l <= 20000);
        lens.sort();
        lens.dedup();
        for &len in &lens {
            let sz = sizes(cap, len);
            for kind in 0..6 {
                if (kind == 2 || kind == 3 || kind == 4) && cap != len || kind >= 4 && cap >= 10000 {
                    continue;
                }
                if !c.take() {
                    continue;
                }
                c.describe(|| format!("{} request sizes on buffer kind {kind} with capacity {cap} and {len} bytes", sz.len()));
                for &s in &sz {
                    one(c, kind, cap, len, s, false);
                    if s <= MAX {
                        one(c, kind, cap, len, s, true);
                    }
                }
            }
        }
    }
    c.count("buffer state x request pairs", c.states);

    // creating a buffer
    let before = c.states;
    if c.take() {
        c.describe(|| "with_capacity(every boundary size)".into());
        for s in sizes(0, 0).into_iter().chain(sizes(16384, 77)) {
            c.states += 1;
            c.transitions += 2;
            alloc::with(MODE, || {
                alloc::reset_counts();
                match catch_unwind(|| Buffer::with_capacity(s)) {
                    Ok(mut b) => {
                        c.check(s <= MAX, || format!("with_capacity({s}) returned although so much cannot exist"));
                        c.check(b.capacity() >= s && b.len() == 0 && b.as_str() == "", || format!("with_capacity({s}) returned a buffer of capacity {} and length {}", b.capacity(), b.len()));
                        honest(c, &b, &|| format!("with_capacity({s})"));
                        let n = alloc::counts().events();
                        if s <= 5000 {
                            let fill = alloc::off(|| text(s));
                            b.push_str(&fill);
                            let m = alloc::counts().events();
                            c.check(m == n && b.as_str() == fill, || format!("with_capacity({s}): appending {s} bytes needed {} allocation(s) or gave wrong contents", m - n));
                            alloc::off(|| drop(fill));
                        } else {
                            b.push_str("abc");
                            c.check(b.as_str() == "abc", || format!("with_capacity({s}): contents wrong after an append"));
                        }
                        drop(b);
                    }
                    Err(_) => c.check(s > MAX, || format!("with_capacity({s}) panicked although the request can be satisfied")),
                }
                c.check_alloc(|| format!("with_capacity({s})"));
            });
        }
    }
    c.count("creations", c.states - before);

    // histories of requests, granted and refused, with appends in between
    let reqs: &[usize] = &[0, 1, 5, 16, 17, 100, 1 << 26, 1 << 32, 1 << 62, MAX - 64, MAX - 1, MAX, MAX + 1, MAX + 64, usize::MAX - 16, usize::MAX - 1, usize::MAX];
    let nops = reqs.len() * 2 + 4;
    let max = if thorough { 4 } else { 3 };
    let before = c.states;
    for depth in 2..=max {
        let mut seq = vec![0usize; depth];
        let head = depth.min(2);
        loop {
            if c.take() {
                let name = |i: usize| {
                    if i < reqs.len() {
                        format!("reserve({})", reqs[i])
                    } else if i < 2 * reqs.len() {
                        format!("= with_capacity({})", reqs[i - reqs.len()])
                    } else {
                        ["push_str(7 bytes)", "push('é')", "clear()", "= clone()"][i - 2 * reqs.len()].to_string()
                    }
                };
                let names = |s: &[usize]| s.iter().map(|&i| name(i)).collect::<Vec<_>>().join("; ");
                c.describe(|| format!("all request histories of {depth} steps starting with {}", names(&seq[..head])));
                loop {
                    c.states += 1;
                    alloc::with(MODE, || {
                        let mut b = Buffer::new();
                        let mut m = alloc::off(String::new);
                        for (k, &i) in seq.iter().enumerate() {
                            c.transitions += 1;
                            let (cap0, len0) = (b.capacity(), b.len());
                            let what = |s: &str| format!("history {}: {s}", names(&seq[..=k]));
                            let n = reqs.len();
                            if i < n {
                                let s = reqs[i];
                                let ok = catch_unwind(AssertUnwindSafe(|| b.reserve(s))).is_ok();
                                let possible = len0.checked_add(s).map_or(false, |t| t <= MAX);
                                let grow = cap0.saturating_add(s.max(cap0));
                                alloc::off(|| {
                                    if ok {
                                        c.check(possible && b.capacity() - b.len() >= s, || what("request neither honoured nor refused"));
                                    } else {
                                        c.check(!possible || grow > MAX, || what("refused although it can be satisfied"));
                                    }
                                })
                            } else if i < 2 * n {
                                let s = reqs[i - n];
                                match catch_unwind(|| Buffer::with_capacity(s)) {
                                    Ok(n) => {
                                        c.check(s <= MAX && n.capacity() >= s, || what("request neither honoured nor refused"));
                                        drop(std::mem::replace(&mut b, n));
                                        m.clear();
                                    }
                                    Err(_) => c.check(s > MAX, || what("refused although it can be satisfied")),
                                }
                            } else {
                                match i - 2 * n {
                                    0 => {
                                        b.push_str("seven b");
                                        alloc::off(|| m.push_str("seven b"));
                                    }
                                    1 => {
                                        b.push('é');
                                        alloc::off(|| m.push('é'));
                                    }
                                    2 => {
                                        b.clear();
                                        m.clear();
                                    }
                                    _ => b = b.clone(),
                                }
                            }
                            alloc::off(|| {
                                c.check(b.as_str() == m, || what(&format!("contents {:?}, expected {m:?}", b.as_str())));
                                honest(c, &b, &|| what(""));
                            });
                        }
                        alloc::off(|| drop(m));
                        drop(b);
                        c.check_alloc(|| format!("history {}", names(&seq)));
                    });
                    if !next_seq(&mut seq, head, nops) {
                        break;
                    }
                }
                seq[head..].fill(0);
            }
            if !next_seq(&mut seq[..head], 0, nops) {
                break;
            }
        }
    }
    c.count("request histories", c.states - before);
}
