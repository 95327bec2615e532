//! Exhaustive enumeration driver: a property module enumerates its cases in a fixed order; the
//! cases are dealt to forked workers by index. A worker that finds a mismatch reports the case
//! and stops; a worker that dies from a memory fault, abort or hang is itself a finding, and the
//! case it was executing is known from shared memory.
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

pub static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

pub struct Opts {
    pub prop: String,
    pub thorough: bool,
    pub profile: String,
    /// escape implementation that the workers are made to select
    pub backend: Option<String>,
    pub dir: String,
    pub workers: u64,
    pub only: Option<u64>,
    pub stall_s: u64,
}

#[repr(C)]
struct Shared {
    idx: AtomicU64,
    ticks: AtomicU64,
}

pub struct Ctx {
    pub thorough: bool,
    pub checked_profile: bool,
    pub backend: String,
    idx: u64,
    shard: u64,
    nshards: u64,
    only: Option<u64>,
    shared: *const Shared,
    pub verbose: bool,
    taken: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    counters: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    sample_at: u64,
    outcomes: HashSet<u64>,
    outcome_cap: bool,
    out_path: String,
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

impl Ctx {
    /// Moves to the next case; true if this worker executes it.
    #[inline]
    pub fn take(&mut self) -> bool {
        let i = self.idx;
        self.idx += 1;
        let mine = match self.only {
            None => i % self.nshards == self.shard,
            Some(o) => o == i,
        };
        if mine {
            self.taken += 1;
            unsafe { (*self.shared).idx.store(i, Relaxed) };
        }
        mine
    }

    /// For long cases: tells the watchdog that work is going on.
    pub fn tick(&self) {
        unsafe { (*self.shared).ticks.fetch_add(1, Relaxed) };
    }

    /// Description of the current case; evaluated for replays and samples only.
    #[inline]
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let d = f();
            println!("case: {d}");
        } else if self.only.is_none() && self.idx > self.sample_at && self.samples.len() < 6 {
            self.sample_at = self.sample_at * 9 + self.nshards * 50;
            self.samples.push(f());
        }
    }

    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.counters.entry(name).or_insert(0) += n;
    }

    /// Records an observed outcome (for the number of distinct outcomes).
    #[inline]
    pub fn outcome(&mut self, b: &[u8]) {
        if self.outcomes.len() < 2_000_000 {
            self.outcomes.insert(fnv(b));
        } else {
            self.outcome_cap = true;
        }
    }

    pub fn outcome_hash(&mut self, h: u64) {
        if self.outcomes.len() < 2_000_000 {
            self.outcomes.insert(h);
        } else {
            self.outcome_cap = true;
        }
    }

    #[cold]
    pub fn fail(&mut self, what: String) -> ! {
        self.flush(Some(&what));
        unsafe { libc::_exit(11) }
    }

    #[inline]
    pub fn check(&mut self, ok: bool, what: impl FnOnce() -> String) {
        if !ok {
            crate::kit::alloc::set_mode(0);
            let w = what();
            self.fail(w)
        }
    }

    /// Fails if the instrumented allocator saw an error.
    #[inline]
    pub fn check_alloc(&mut self, what: impl FnOnce() -> String) {
        if let Some(e) = crate::kit::alloc::take_error() {
            crate::kit::alloc::set_mode(0);
            let w = what();
            self.fail(format!("{w}: {e}"))
        }
    }

    fn flush(&mut self, violation: Option<&str>) {
        let mut o = String::new();
        let cur = unsafe { (*self.shared).idx.load(Relaxed) };
        o += &format!("states {}\ntransitions {}\ntraces {}\n", self.states, self.transitions, if self.traces == 0 { self.taken } else { self.traces });
        for (k, v) in &self.counters {
            o += &format!("counter {k} {v}\n");
        }
        for s in &self.samples {
            o += &format!("sample {}\n", s.replace('\n', "\\n"));
        }
        if self.outcome_cap {
            o += "outcomecap\n";
        }
        if let Some(v) = violation {
            o += &format!("violation {cur} {}\n", v.replace('\n', "\\n"));
        }
        o += &format!("end {}\n", self.idx);
        std::fs::write(&self.out_path, o).expect("write worker report");
        let mut b = Vec::with_capacity(self.outcomes.len() * 8);
        for h in &self.outcomes {
            b.extend_from_slice(&h.to_le_bytes());
        }
        std::fs::write(format!("{}.h", self.out_path), b).expect("write worker report");
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

/// Runs all cases of `f`; writes `<dir>/<prop>.<profile>.json`; returns the process exit code.
pub fn run(o: &Opts, f: fn(&mut Ctx)) -> i32 {
    let t0 = Instant::now();
    let n = if o.only.is_some() { 1 } else { o.workers };
    let shared = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            4096 * n as usize,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        )
    };
    assert!(shared != libc::MAP_FAILED);
    let sh = |i: u64| (shared as usize + 4096 * i as usize) as *const Shared;
    let tag = match &o.backend {
        Some(b) => format!("{}-{}", o.profile, b),
        None => o.profile.clone(),
    };
    let path = |i: u64| format!("{}/{}.{}.w{}", o.dir, o.prop, tag, i);
    let mut pids = Vec::new();
    for i in 0..n {
        let _ = std::fs::remove_file(path(i));
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &rl);
                if o.profile != "asan" {
                    let as_ = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
                    libc::setrlimit(libc::RLIMIT_AS, &as_);
                }
            }
            let mut c = Ctx {
                thorough: o.thorough,
                checked_profile: o.profile == "checked",
                backend: o.backend.clone().unwrap_or_else(|| "native".into()),
                idx: 0,
                shard: i,
                nshards: n,
                only: o.only,
                shared: sh(i),
                verbose: o.only.is_some(),
                taken: 0,
                states: 0,
                transitions: 0,
                traces: 0,
                counters: BTreeMap::new(),
                samples: Vec::new(),
                sample_at: 0,
                outcomes: HashSet::new(),
                outcome_cap: false,
                out_path: path(i),
            };
            std::panic::set_hook(Box::new(|i| {
                // Harness code is compiled with relative paths, everything else is not.
                let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                crate::kit::alloc::off(|| {
                    *LAST_PANIC.lock().unwrap() = l.clone();
                });
            }));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                if let Some(b) = &o.backend {
                    crate::kit::cpu::force(b);
                }
                f(&mut c)
            }));
            crate::kit::alloc::set_mode(0);
            let code = match r {
                Ok(()) => {
                    c.flush(None);
                    0
                }
                Err(e) => {
                    let m = e
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    let at = LAST_PANIC.lock().unwrap().clone();
                    if m.starts_with("HARNESS:") || at.starts_with("src/") {
                        eprintln!("harness panic at {at}, case {}: {m}", unsafe { (*sh(i)).idx.load(Relaxed) });
                        12
                    } else {
                        c.flush(Some(&format!("panic at {at}: {m}")));
                        11
                    }
                }
            };
            unsafe { libc::_exit(code) }
        }
        pids.push(Some(pid));
    }
    // watch
    let mut last: Vec<(u64, u64, Instant)> = vec![(0, 0, Instant::now()); n as usize];
    let mut violations: Vec<(u64, String)> = Vec::new();
    let mut errors: Vec<String> = Vec::new();
    while pids.iter().any(|p| p.is_some()) {
        std::thread::sleep(Duration::from_millis(20));
        for i in 0..n {
            let Some(pid) = pids[i as usize] else { continue };
            let mut st = 0;
            let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
            let (idx, ticks) = unsafe { ((*sh(i)).idx.load(Relaxed), (*sh(i)).ticks.load(Relaxed)) };
            if r == pid {
                pids[i as usize] = None;
                if libc::WIFSIGNALED(st) {
                    let s = libc::WTERMSIG(st);
                    let name = match s {
                        libc::SIGSEGV | libc::SIGBUS => "invalid memory access",
                        libc::SIGABRT => "abort",
                        libc::SIGILL => "illegal instruction",
                        libc::SIGFPE => "arithmetic trap",
                        _ => "",
                    };
                    if name.is_empty() {
                        errors.push(format!("worker {i} ended by signal {s}"));
                    } else {
                        violations.push((idx, format!("process stopped: {name} (signal {s})")));
                    }
                } else {
                    match libc::WEXITSTATUS(st) {
                        0 | 11 => {}
                        c => errors.push(format!("worker {i} exit code {c}")),
                    }
                }
                continue;
            }
            let l = &mut last[i as usize];
            if (l.0, l.1) != (idx, ticks) {
                *l = (idx, ticks, Instant::now());
            } else if l.2.elapsed() > Duration::from_secs(o.stall_s) {
                unsafe { libc::kill(pid, libc::SIGKILL) };
                unsafe { libc::waitpid(pid, &mut st, 0) };
                pids[i as usize] = None;
                violations.push((idx, format!("no progress for {} s: does not terminate", o.stall_s)));
            }
        }
    }
    // merge
    let (mut states, mut transitions, mut traces, mut total) = (0u64, 0u64, 0u64, 0u64);
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = Vec::new();
    let mut outcomes: HashSet<u64> = HashSet::new();
    let mut cap = false;
    for i in 0..n {
        let Ok(t) = std::fs::read_to_string(path(i)) else { continue };
        for l in t.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "states" => states += v.parse::<u64>().unwrap(),
                "transitions" => transitions += v.parse::<u64>().unwrap(),
                "traces" => traces += v.parse::<u64>().unwrap(),
                "counter" => {
                    let (a, b) = v.rsplit_once(' ').unwrap();
                    *counters.entry(a.into()).or_insert(0) += b.parse::<u64>().unwrap();
                }
                "sample" if samples.len() < 12 => samples.push(v.to_string()),
                "violation" => {
                    let (a, b) = v.split_once(' ').unwrap_or((v, ""));
                    violations.push((a.parse().unwrap(), b.into()));
                }
                "outcomecap" => cap = true,
                "end" => total = total.max(v.parse::<u64>().unwrap()),
                _ => {}
            }
        }
        if let Ok(b) = std::fs::read(format!("{}.h", path(i))) {
            for c in b.chunks_exact(8) {
                outcomes.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        let _ = std::fs::remove_file(path(i));
        let _ = std::fs::remove_file(format!("{}.h", path(i)));
    }
    violations.sort();
    let mut j = String::from("{");
    j += &format!("\"prop\":\"{}\",\"profile\":\"{}\",\"cases\":{},\"states\":{},\"transitions\":{},\"traces\":{},", o.prop, tag, total, states, transitions, traces);
    j += &format!("\"distinct_outcomes\":{},\"outcome_cap\":{},\"wall_s\":{:.3},", outcomes.len(), cap, t0.elapsed().as_secs_f64());
    j += "\"counters\":{";
    j += &counters.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(",");
    j += "},\"samples\":[";
    j += &samples.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",");
    j += "],\"violations\":[";
    j += &violations.iter().map(|(i, s)| format!("{{\"case\":{},\"what\":\"{}\"}}", i, esc(s))).collect::<Vec<_>>().join(",");
    j += "],\"errors\":[";
    j += &errors.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",");
    j += "]}\n";
    std::fs::write(format!("{}/{}.{}.json", o.dir, o.prop, tag), j).expect("write report");
    if !violations.is_empty() {
        for (i, s) in violations.iter().take(3) {
            println!("  case {i}: {s}");
        }
        1
    } else if !errors.is_empty() {
        for e in &errors {
            eprintln!("error: {e}");
        }
        2
    } else {
        0
    }
}
