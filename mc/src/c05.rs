//! C05: every sequence of buffer operations up to a depth, on two buffers, against ordinary strings
//! after every operation.
use crate::kit::{alloc, bufops::*, run::Ctx};

pub fn run(c: &mut Ctx) {
    let n = OPS.len();
    let max = if c.thorough { 6 } else { 5 };
    for depth in 1..=max {
        let head = depth.min(3);
        let mut seq = vec![0usize; depth];
        loop {
            // one case: a fixed head, all tails
            if c.take() {
                c.describe(|| format!("all sequences of {depth} operations starting with: {}", names(&seq[..head])));
                let mut tail_more = true;
                while tail_more {
                    c.states += 1;
                    let bad = alloc::with(alloc::GUARD | if c.states % 2 == 0 { alloc::LEFT } else { 0 }, || {
                        let mut w = alloc::off(World::new);
                        let mut bad = None;
                        for (k, &i) in seq.iter().enumerate() {
                            (OPS[i].1)(&mut w);
                            // shorter prefixes were compared when they were enumerated
                            if k + 1 == seq.len() || depth == max {
                                if let Some(m) = alloc::off(|| w.mismatch()) {
                                    bad = Some((k, m));
                                    break;
                                }
                            }
                        }
                        if bad.is_none() {
                            let d = alloc::off(|| format!("{:?}", w.a));
                            let e = alloc::off(|| format!("{:?}", w.ma));
                            alloc::off(|| {
                                if d != e {
                                    bad = Some((seq.len() - 1, format!("Debug output {d}, expected {e}")));
                                }
                                c.outcome(w.ma.as_bytes());
                            });
                            // the converted string is the same text
                            let s = std::mem::take(&mut w.a).into_string();
                            if s != w.ma {
                                bad = Some((seq.len() - 1, alloc::off(|| format!("into_string gave {s:?}, expected {:?}", w.ma))));
                            }
                        }
                        let World { ma, mb, .. } = w;
                        alloc::off(|| drop((ma, mb)));
                        bad
                    });
                    c.transitions += depth as u64;
                    if let Some((k, m)) = bad {
                        c.fail(format!("after {}: {m}", names(&seq[..=k])));
                    }
                    c.check_alloc(|| format!("after {}", names(&seq)));
                    tail_more = next_seq(&mut seq, head, n);
                }
                seq[head..].fill(0);
            }
            if !next_seq(&mut seq[..head], 0, n) {
                break;
            }
        }
    }

    // Long histories: contents stay right through every growth step.
    for step in [1usize, 2, 3, 7, 15, 16, 17, 63, 64, 65, 1000, 4096] {
        for kind in 0..4usize {
            if !c.take() {
                continue;
            }
            c.describe(|| format!("appending pieces of {step} bytes up to 300000 bytes, way {kind}"));
            use laby_common::internal::Buffer;
            use std::fmt::Write;
            let mut b = if kind == 3 { Buffer::with_capacity(100) } else { Buffer::new() };
            let mut m = String::new();
            let mut k = 0usize;
            while m.len() < 300_000 {
                let piece: String = (0..step).map(|i| (b'a' + ((i + k) % 26) as u8) as char).collect();
                match kind {
                    0 | 3 => b.push_str(&piece),
                    1 => piece.chars().for_each(|x| b.push(x)),
                    _ => {
                        let _ = b.write_str(&piece);
                    }
                }
                m.push_str(&piece);
                k += 1;
                c.transitions += 1;
                let ok = b.len() == m.len() && b.capacity() >= b.len() && (k % 64 != 0 && m.len() > 4096 || b.as_str() == m);
                c.check(ok, || format!("after {k} pieces of {step} bytes the buffer differs from the string"));
            }
            c.check(b.as_str() == m && b.clone().as_str() == m && b.into_string() == m, || format!("pieces of {step} bytes: final contents differ"));
            c.states += 1;
            c.outcome(m.as_bytes());
        }
    }
}
