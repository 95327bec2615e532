//! C04: concurrent rendering equals sequential rendering, under every explored interleaving.
//!  1. all interleavings of the accesses to writable static memory (everything the threads can
//!     share), 2 and 3 threads, from a fresh process and from a warmed one;
//!  2. all single preemptions at instruction granularity: thread A stopped before every one of its
//!     instructions while thread B runs a whole operation;
//!  3. (thorough) all double preemptions at instruction granularity of the two shortest operations.
use crate::kit::{cpu, fork, run::Ctx, sched};
use laby::*;
use laby_common::internal::{escape, Buffer};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::time::{Duration, Instant};

type Op = fn() -> Buffer;

fn esc(t: &str) -> Buffer {
    let mut b = Buffer::with_capacity(256);
    escape(t, &mut b);
    b
}
fn op_a() -> Buffer {
    esc("A<abcdefghijklm&")
}
fn op_b() -> Buffer {
    esc("BBBBBBBBBBBBBBBB\"BBBBBBBBBBBBBBBBBBBBBBBBB'BBBBBB>")
}
fn op_c() -> Buffer {
    esc("c&c")
}
fn op_d() -> Buffer {
    let mut b = Buffer::with_capacity(16);
    laby::Render::render(
        div!(class = classes!("x", 7u8), title = "a longer <title> for d", hidden = bool!(true), "d&d", 1.5f32, -40i64, iter!(",", ["<", "2"])),
        &mut b,
    );
    b
}
fn op_e() -> Buffer {
    let mut b = Buffer::new();
    let v = "a value that is formatted & long";
    laby::Render::render(frag!(DocType::HTML5, p!(format_args!("{v:>40}|{:?}", '"'), raw!("<r>"), 'c', "e < f and some more text")), &mut b);
    b
}
fn op_f() -> Buffer {
    let mut b = Buffer::with_capacity(2);
    for i in 0..3u32 {
        laby::Render::render(li!("item number > ", i, "&&&&&&&&&&&&&&&&&&&&"), &mut b);
    }
    b
}

/// Every kind of renderable value into buffers of every amount of free room that makes a
/// difference; `k` tells the threads' texts apart.
fn into_rooms(k: u8, f: &dyn Fn(&mut Buffer)) -> Buffer {
    let mut all = Buffer::new();
    for cap in [0usize, 1, 4, 12, 40, 100] {
        let mut b = Buffer::with_capacity(cap);
        if k % 2 == 1 || cap > 1 {
            b.push_str("-");
        }
        f(&mut b);
        all.push_str(b.as_str());
        all.push_str(";");
    }
    all
}
fn texts(k: u8) -> Buffer {
    let c = (b'a' + k) as char;
    let t: Vec<String> = [1usize, 3, 7, 15, 16, 33].iter().map(|&n| (0..n).map(|i| if i % 5 == 2 { '<' } else { c }).collect()).collect();
    into_rooms(k, &|b| {
        for t in &t {
            t.as_str().render(b);
        }
    })
}
fn chars(k: u8) -> Buffer {
    into_rooms(k, &|b| {
        ((b'a' + k) as char).render(b);
        '<'.render(b);
        '\u{e9}'.render(b);
        '\u{1f600}'.render(b);
        (k == 0).render(b);
    })
}
fn ints(k: u8) -> Buffer {
    let d = (k + 1) as i8;
    into_rooms(k, &|b| {
        (-d).render(b);
        (d as u8 * 17).render(b);
        (d as i16 * -1111).render(b);
        (d as u16 * 1111).render(b);
        (d as i32 * -11111111).render(b);
        (d as u32 * 11111111).render(b);
        (d as i64 * -1111111111111).render(b);
        (d as u64 * 1111111111111).render(b);
        (d as i128 * -11111111111111111111111).render(b);
        (d as u128 * 11111111111111111111111).render(b);
        (d as usize * 3).render(b);
        (d as isize * -3).render(b);
        (d as f32 * 1.5).render(b);
        (d as f64 * -1.25e40).render(b);
        f32::NAN.render(b);
        f64::NEG_INFINITY.render(b);
    })
}
fn shown(k: u8) -> Buffer {
    let c = (b'a' + k) as char;
    into_rooms(k, &|b| {
        format_args!("{c}{:?}<{:>4}", c, k).render(b);
        RenderDisplay(c).render(b);
        RenderDisplay(format_args!("{}&", k)).render(b);
        raw!("q\"").render(b);
        raw!(c.to_string()).render(b);
    })
}
fn composed(k: u8) -> Buffer {
    let c = ((b'a' + k) as char).to_string();
    let (c, d) = (c.as_str(), c.repeat(20));
    into_rooms(k, &|b| {
        iter!(c, [c, "<"].iter().copied()).render(b);
        div!(class = classes!(c, k, None::<u8>, Some("&")), title = c, { c } = k, hidden = bool!(k == 0), k == 1, Some(c), c.to_string(), (), None::<u8>, "'", d.as_str()).render(b);
    })
}

const OPS: [(&str, Op, &str); 16] = [
    ("escape of 16 bytes", op_a, "A&lt;abcdefghijklm&amp;"),
    ("escape of 50 bytes", op_b, "BBBBBBBBBBBBBBBB&quot;BBBBBBBBBBBBBBBBBBBBBBBBB&#39;BBBBBB&gt;"),
    ("escape of 3 bytes", op_c, "c&amp;c"),
    ("element with attributes, numbers and a list", op_d, "<div class=\"x 7\" title=\"a longer &lt;title&gt; for d\" hidden>d&amp;d1.5-40&lt;,2</div>"),
    ("document with formatted text", op_e, "<!DOCTYPE html><p>        a value that is formatted &amp; long|&#39;&quot;&#39;<r>ce &lt; f and some more text</p>"),
    ("three items into a growing buffer", op_f, "<li>item number &gt; 0&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;</li><li>item number &gt; 1&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;</li><li>item number &gt; 2&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;&amp;</li>"),
    // "": compared with what the operation gives alone
    ("texts into little room", || texts(0), ""),
    ("other texts into little room", || texts(1), ""),
    ("characters", || chars(0), ""),
    ("other characters", || chars(1), ""),
    ("numbers", || ints(0), ""),
    ("other numbers", || ints(1), ""),
    ("displayed values", || shown(0), ""),
    ("other displayed values", || shown(1), ""),
    ("composed values", || composed(0), ""),
    ("other composed values", || composed(1), ""),
];

static mut WANT: Vec<String> = Vec::new();

#[allow(static_mut_refs)]
fn want(i: usize) -> &'static str {
    unsafe { &WANT[i] }
}

fn warm() {
    for o in &OPS {
        o.1();
    }
}

// ------------------------------------------------------------------ 1. static-access interleavings

struct Expl {
    runs: u64,
    points: u64,
    capped: bool,
    max_points: usize,
}

/// Explores all schedules with at most `bound` preemptions (u32::MAX: all), depth first, stateless.
fn explore(c: &mut Ctx, ops: &[usize], warmed: bool, bound: u32, cap: u64, sh: *mut sched::Shared) -> Expl {
    let s = unsafe { &*sh };
    let mut x = Expl { runs: 0, points: 0, capped: false, max_points: 0 };
    let mut stack: Vec<Vec<u32>> = vec![vec![]];
    s.nwritten.store(0, SeqCst);
    let mut known = 0;
    while let Some(prefix) = stack.pop() {
        if x.runs >= cap {
            x.capped = true;
            break;
        }
        sched::reset(s, ops.len(), &prefix);
        let fs: Vec<Op> = ops.iter().map(|&i| OPS[i].1).collect();
        let end = fork::run(10_000, false, |_| {
            if warmed {
                warm();
            }
            sched::run(sh, &fs);
            0
        });
        c.tick();
        x.runs += 1;
        let grown = s.nwritten.load(SeqCst);
        let restart = grown > known;
        let n = sched::points(s);
        x.points += n as u64;
        x.max_points = x.max_points.max(n);
        let sched: Vec<u32> = (0..n).map(|i| s.chosen[i].load(SeqCst)).collect();
        let what = |sched: &[u32]| {
            format!(
                "threads [{}]{}, order of accesses to shared memory {:?}",
                ops.iter().map(|&i| OPS[i].0).collect::<Vec<_>>().join("; "),
                if warmed { " after earlier use" } else { " as the first use in the process" },
                sched
            )
        };
        match end {
            fork::End::Exit(0, _) => {}
            fork::End::Timeout => c.fail(format!("{}: the threads do not finish", what(&sched))),
            e => c.fail(format!("{}: process ended with {e:?}", what(&sched))),
        }
        if s.diverged.load(SeqCst) != 0 && !restart {
            panic!("HARNESS: schedule {:?} could not be replayed", prefix);
        }
        if s.overflow.load(SeqCst) != 0 {
            x.capped = true;
        }
        for (k, &o) in ops.iter().enumerate() {
            let len = s.out_len[k].load(SeqCst) as usize;
            let got = &s.out[k][..len.min(s.out[k].len())];
            let want = want(o);
            if got != want.as_bytes() {
                let w = what(&sched);
                c.fail(format!("{w}: thread {k} ({}) obtained {:?}, expected {want:?}", OPS[o].0, String::from_utf8_lossy(got)));
            }
        }
        c.traces += 1;
        c.transitions += n as u64;
        c.outcome(&sched.iter().zip(0..n).flat_map(|(t, i)| [*t as u8, (s.addr[i].load(SeqCst) >> 3) as u8]).collect::<Vec<_>>());
        if restart {
            // More of the shared memory is written than was known: its readers are scheduling
            // points too. Start over with that knowledge.
            known = grown;
            stack = vec![vec![]];
            continue;
        }
        // alternatives at every later decision
        let mut cost = 0u32;
        for i in 0..n {
            let (run, en, ch) = (s.running[i].load(SeqCst), s.enabled[i].load(SeqCst), s.chosen[i].load(SeqCst));
            let forced = s.forced[i].load(SeqCst) != 0;
            if i >= prefix.len() && i + 1 < sched::MAX_POINTS {
                for alt in 0..ops.len() as u32 {
                    if alt == ch || en >> alt & 1 == 0 {
                        continue;
                    }
                    let extra = (run != sched::NOBODY && alt != run && !forced) as u32;
                    if bound != u32::MAX && cost + extra > bound {
                        continue;
                    }
                    let mut p = sched[..i].to_vec();
                    p.push(alt);
                    stack.push(p);
                }
            }
            cost += (run != sched::NOBODY && ch != run && !forced) as u32;
        }
    }
    x
}

// ------------------------------------------------------------------ 2. instruction granularity

#[repr(C)]
struct Pair {
    b_go: AtomicU32,
    b_done: AtomicU32,
    a_done: AtomicU32,
    b_stopped: AtomicU32,
    b_resume: AtomicU32,
    a_total: AtomicU32,
    b_total: AtomicU32,
    ok: [AtomicU32; 2],
}

static mut PAIR: *mut Pair = std::ptr::null_mut();

fn wait(a: &AtomicU32, ms: u64) -> bool {
    let t = Instant::now();
    let mut n = 0u32;
    while a.load(SeqCst) == 0 {
        n += 1;
        if n > 200 {
            std::thread::yield_now();
        }
        if n % 256 == 0 && t.elapsed() > Duration::from_millis(ms) {
            return false;
        }
    }
    true
}

/// A is stopped here; B runs (to its end, or to its own stop), or cannot go on because A holds
/// something it waits for.
fn a_stopped() {
    let p = unsafe { &*PAIR };
    p.b_go.store(1, SeqCst);
    let t = Instant::now();
    while p.b_done.load(SeqCst) == 0 && p.b_stopped.load(SeqCst) == 0 && t.elapsed() < Duration::from_millis(150) {
        std::hint::spin_loop();
    }
}

fn b_stopped() {
    let p = unsafe { &*PAIR };
    p.b_stopped.store(1, SeqCst);
    let t = Instant::now();
    while p.a_done.load(SeqCst) == 0 && t.elapsed() < Duration::from_millis(150) {
        std::hint::spin_loop();
    }
}

/// One execution: A stopped before its instruction `i`, B (stopped before its instruction `j`).
/// Returns the instruction counts of A and B as far as they were stepped.
fn pair_run(c: &mut Ctx, a: usize, b: usize, warmed: bool, i: u64, j: Option<u64>, pp: *mut Pair) -> (u64, u64) {
    let p = unsafe { &*pp };
    for x in [&p.b_go, &p.b_done, &p.a_done, &p.b_stopped, &p.b_resume, &p.a_total, &p.b_total, &p.ok[0], &p.ok[1]] {
        x.store(0, SeqCst);
    }
    let end = fork::run(20_000, false, |_| {
        unsafe { PAIR = pp };
        cpu::install();
        if warmed {
            warm();
        }
        let ready = std::sync::Arc::new(AtomicU32::new(0));
        let r2 = ready.clone();
        let h = std::thread::spawn(move || {
            let p = unsafe { &*PAIR };
            let op = OPS[b].1;
            r2.store(1, SeqCst);
            wait(&p.b_go, 15_000);
            let mut out = None;
            match j {
                None => out = Some(op()),
                Some(j) => {
                    let s = cpu::trace_until(j, b_stopped, || out = Some(op()));
                    p.b_total.store(s.in_binary as u32, SeqCst);
                }
            }
            let good = out.unwrap().as_str() == want(b);
            p.ok[1].store(good as u32, SeqCst);
            p.b_done.store(1, SeqCst);
        });
        wait(&ready, 15_000);
        let op = OPS[a].1;
        let mut out = None;
        let s = cpu::trace_until(i, a_stopped, || out = Some(op()));
        p.a_total.store(s.in_binary as u32, SeqCst);
        p.a_done.store(1, SeqCst);
        p.b_go.store(1, SeqCst);
        p.ok[0].store((out.unwrap().as_str() == want(a)) as u32, SeqCst);
        if !wait(&p.b_done, 15_000) {
            return 4;
        }
        let _ = h.join();
        0
    });
    c.tick();
    let what = || {
        format!(
            "thread A ({}) stopped before its instruction {i}, thread B ({}) {}{}",
            OPS[a].0, OPS[b].0,
            match j { None => "run to its end".into(), Some(j) => format!("stopped before its instruction {j}, A run to its end, then B") },
            if warmed { ", after earlier use" } else { ", first use in the process" }
        )
    };
    match end {
        fork::End::Exit(0, _) => {}
        e => c.fail(format!("{}: ended with {e:?}", what())),
    }
    for k in 0..2 {
        c.check(p.ok[k].load(SeqCst) == 1, || format!("{}: thread {} did not obtain its sequential output", what(), ["A", "B"][k]));
    }
    c.traces += 1;
    (p.a_total.load(SeqCst) as u64, p.b_total.load(SeqCst) as u64)
}

pub fn run(c: &mut Ctx) {
    let th = c.thorough;
    for o in &OPS {
        // the sequential outputs themselves, in a process of their own
        let f = o.1;
        match fork::run(5000, false, |w| {
            let _ = w.write_all(f().as_str().as_bytes());
            0
        }) {
            fork::End::Exit(0, s) => {
                c.check(o.2.is_empty() || s == o.2, || format!("{} alone gave {s:?}, expected {:?}", o.0, o.2));
                #[allow(static_mut_refs)]
                unsafe {
                    WANT.push(s)
                }
            }
            e => c.fail(format!("{} alone ended with {e:?}", o.0)),
        }
    }

    let sh = sched::new_shared();
    // two threads: all pairs, all interleavings; three threads: all triples of the interesting ones
    let mut sets: Vec<Vec<usize>> = Vec::new();
    for a in 0..6 {
        for b in a..6 {
            sets.push(vec![a, b]);
        }
    }
    for a in [6, 8, 10, 12, 14] {
        sets.push(vec![a, a + 1]);
        if th {
            sets.extend((0..OPS.len()).map(|b| vec![a, b]));
        }
    }
    for t in [[0, 0, 0], [0, 1, 3], [1, 1, 1], [0, 1, 2], [3, 4, 5], [1, 3, 4]] {
        sets.push(t.to_vec());
    }
    if th {
        for t in [[0, 0, 0, 0], [0, 1, 3, 4]] {
            sets.push(t.to_vec());
        }
    }
    for set in &sets {
        for warmed in [false, true] {
            if !c.take() {
                continue;
            }
            c.describe(|| format!("all interleavings of shared accesses of {set:?} ({})", if warmed { "warmed" } else { "first use" }));
            // a case with few shared accesses is explored completely; otherwise up to 2 preemptions
            let cap = if th { 60_000 } else { 3000 };
            let mut x = explore(c, set, warmed, u32::MAX, cap, sh);
            if x.capped {
                c.count("thread sets too large for all interleavings: explored by preemption bound", 1);
                for bound in 0..=if th { 3 } else { 2 } {
                    let y = explore(c, set, warmed, bound, cap, sh);
                    if y.capped {
                        c.count("preemption-bounded explorations cut off by the run limit", 1);
                        break;
                    }
                    x.max_points = x.max_points.max(y.max_points);
                }
            } else {
                c.count("thread sets with all interleavings explored", 1);
                c.count("complete interleavings", x.runs);
            }
            c.states += x.runs;
            c.count("scheduling points", x.points);
        }
    }

    // every instruction of A as preemption point
    let pp = unsafe {
        let m = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(m != libc::MAP_FAILED);
        m as *mut Pair
    };
    let pairs: &[(usize, usize, bool)] = if th {
        &[(0, 0, false), (0, 1, false), (1, 0, false), (1, 1, false), (0, 3, false), (3, 0, false), (3, 1, false), (4, 3, false), (5, 4, false), (3, 3, false), (0, 1, true), (1, 3, true), (3, 3, true), (4, 5, true), (5, 3, true), (2, 0, true)]
    } else {
        &[(0, 0, false), (0, 1, false), (1, 0, false), (3, 1, false), (4, 3, false), (0, 3, true), (3, 3, true), (5, 4, true)]
    };
    for &(a, b, warmed) in pairs {
        let (total, _) = pair_run(c, a, b, warmed, u64::MAX - 1, None, pp);
        // chunks, so that the work is dealt evenly
        let chunk = 16;
        for base in (0..total).step_by(chunk) {
            if !c.take() {
                continue;
            }
            c.describe(|| format!("{} preempted before each of its instructions {base}..{} of {total} by {}", OPS[a].0, (base + chunk as u64).min(total), OPS[b].0));
            for i in base..(base + chunk as u64).min(total) {
                pair_run(c, a, b, warmed, i, None, pp);
                c.states += 1;
                c.transitions += i;
                c.count("single preemptions at instruction granularity", 1);
            }
        }
    }
    if th {
        for &(a, b) in &[(0usize, 0usize), (0, 1)] {
            let (ta, _) = pair_run(c, a, b, false, u64::MAX - 1, None, pp);
            let (tb, _) = pair_run(c, b, a, false, u64::MAX - 1, None, pp);
            for i in 0..ta {
                if !c.take() {
                    continue;
                }
                c.describe(|| format!("{} stopped before instruction {i}, {} stopped before each of its {tb} instructions", OPS[a].0, OPS[b].0));
                for j in 0..tb {
                    pair_run(c, a, b, false, i, Some(j), pp);
                    c.states += 1;
                    c.transitions += i + j;
                    c.count("double preemptions at instruction granularity", 1);
                }
            }
        }
    }
}
