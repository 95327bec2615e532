//! C02 under AddressSanitizer: catches accesses outside a text or a buffer that stay inside a page
//! (and so do not touch the inaccessible pages of the main harness).
#![allow(dead_code)]

mod kit;

use kit::{model::*, run::Ctx};
use laby_common::internal::{escape, Buffer};
use laby_common::Render;

extern "C" {
    fn __asan_poison_memory_region(p: *const u8, n: usize);
    fn __asan_unpoison_memory_region(p: *const u8, n: usize);
}

struct Arena(*mut u8);
const LEN: usize = 16384;
impl Arena {
    fn new() -> Arena {
        Arena(Box::leak(vec![0u64; LEN / 8].into_boxed_slice()).as_mut_ptr() as *mut u8)
    }
    /// Only the bytes of the text are accessible. (For texts that do not start at a multiple of 8,
    /// up to 7 bytes before the start stay accessible: a limit of the sanitizer.)
    fn put(&self, off: usize, t: &[u8]) -> &'static str {
        unsafe {
            __asan_unpoison_memory_region(self.0, LEN);
            std::slice::from_raw_parts_mut(self.0, LEN).fill(b'<');
            std::ptr::copy_nonoverlapping(t.as_ptr(), self.0.add(off), t.len());
            __asan_poison_memory_region(self.0, off & !7);
            let e = off + t.len();
            __asan_poison_memory_region(self.0.add(e), LEN - e);
            std::str::from_utf8_unchecked(std::slice::from_raw_parts(self.0.add(off), t.len()))
        }
    }
}

fn go<R: Render>(c: &mut Ctx, r: R, spare: usize, want: &str, what: &dyn Fn() -> String) {
    let mut b = Buffer::with_capacity(spare);
    r.render(&mut b);
    c.traces += 1;
    c.transitions += want.len() as u64;
    c.check(b.as_str() == want, || format!("{} with {spare} bytes free gave {:?}, expected {want:?}", what(), b.as_str()));
}

struct Esc<'a>(&'a str);
impl Render for Esc<'_> {
    fn render(self, b: &mut Buffer) {
        escape(self.0, b)
    }
}

fn plain<R: Render>(r: R) -> String {
    let mut b = Buffer::with_capacity(4096);
    r.render(&mut b);
    b.into_string()
}

fn explore(c: &mut Ctx) {
    let th = c.thorough;
    let a = Arena::new();
    for len in 0..=if th { 300usize } else { 150 } {
        for pat in 0..8usize {
            if !c.take() {
                continue;
            }
            let text: Vec<u8> = (0..len)
                .map(|i| {
                    let s = match pat {
                        0 => false,
                        1 => true,
                        2 => i == 0,
                        3 => i + 1 == len,
                        4 => i % 2 == 0,
                        5 => i == len / 2,
                        6 => i + 17 >= len,
                        _ => i < 17,
                    };
                    if s { SPECIALS[(i + pat) % 5] } else { b'a' + (i % 26) as u8 }
                })
                .collect();
            let mut want = String::new();
            escape_into(std::str::from_utf8(&text).unwrap(), &mut want);
            c.describe(|| format!("text {:?} in poisoned memory, every alignment, every amount of free space", String::from_utf8_lossy(&text)));
            for al in 0..32usize {
                for base in [0usize, 1024, 4096 - 512 + 8 * al] {
                    let t = a.put(base + al, &text);
                    let n = want.len();
                    for spare in [0, 1, n.saturating_sub(1), n, n + 1, len, 6 * len] {
                        go(c, Esc(t), spare, &want, &|| format!("escape of {t:?} at address mod 64 = {}", t.as_ptr() as usize % 64));
                        c.states += 1;
                    }
                }
            }
            let t = a.put(8, &text);
            for spare in 0..=want.len() + 20 {
                go(c, t, spare, &want, &|| format!("&str {t:?}"));
                c.states += 1;
            }
            c.outcome(want.as_bytes());
        }
    }
    macro_rules! ints {
        ($($t:ident)*) => {$({
            let mut vals: Vec<$t> = vec![<$t>::MIN, <$t>::MAX];
            let mut p: $t = 1;
            loop {
                for d in 0..3 as $t {
                    vals.push(p.saturating_add(d));
                    vals.push((0 as $t).wrapping_sub(p).wrapping_sub(d));
                }
                match p.checked_mul(10) { Some(q) => p = q, None => break }
            }
            for v in vals {
                if !c.take() { continue; }
                c.describe(|| format!("{v}{} into buffers with 0..=48 bytes free", stringify!($t)));
                let want = v.to_string();
                for spare in 0..=48 { go(c, v, spare, &want, &|| format!("{v}{}", stringify!($t))); c.states += 1; }
                c.outcome(want.as_bytes());
            }
        })*};
    }
    ints!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
    for e in (0..=2047u64).step_by(if th { 1 } else { 3 }) {
        if !c.take() {
            continue;
        }
        c.describe(|| format!("f64 and f32 values with biased exponent {e} into buffers with 0..=30 bytes free"));
        for m in [0u64, 1, 0xFFFFFFFFFFFFF, 0x8000000000000, 0x123456789ABCD] {
            for s in 0..2u64 {
                let v = f64::from_bits(s << 63 | e << 52 | m);
                let want = plain(v);
                for spare in 0..=30 {
                    go(c, v, spare, &want, &|| format!("{v:e}f64"));
                    c.states += 1;
                }
                c.outcome(want.as_bytes());
                let v = f32::from_bits((s << 31 | (e & 255) << 23 | m >> 29) as u32);
                let want = plain(v);
                for spare in 0..=30 {
                    go(c, v, spare, &want, &|| format!("{v:e}f32"));
                    c.states += 1;
                }
                c.outcome(want.as_bytes());
            }
        }
    }
    for ch in (0..0x110000u32).step_by(if th { 1 } else { 7 }).filter_map(char::from_u32) {
        if !c.take() {
            continue;
        }
        c.describe(|| format!("{ch:?} into buffers with 0..=7 bytes free"));
        let mut want = String::new();
        escape_char(ch, &mut want);
        for spare in 0..=7 {
            go(c, ch, spare, &want, &|| format!("{ch:?}"));
            go(c, format_args!("{ch}"), spare, &want, &|| format!("format_args of {ch:?}"));
            c.states += 2;
        }
        c.outcome(want.as_bytes());
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut o = kit::run::Opts {
        prop: a[1].to_lowercase(),
        thorough: false,
        profile: "asan".into(),
        backend: None,
        dir: ".".into(),
        workers: 8,
        only: None,
        stall_s: 120,
    };
    for kv in &a[2..] {
        let (k, v) = kv.split_once('=').expect("key=value");
        match k {
            "tier" => o.thorough = v == "thorough",
            "profile" => o.profile = v.into(),
            "backend" => o.backend = Some(v.into()),
            "dir" => o.dir = v.into(),
            "workers" => o.workers = v.parse().unwrap(),
            "only" => o.only = Some(v.parse().unwrap()),
            "stall" => o.stall_s = v.parse().unwrap(),
            _ => panic!("unknown option {k}"),
        }
    }
    std::process::exit(kit::run::run(&o, explore));
}
