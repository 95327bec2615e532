//! C01: escaping is exact for every text.
use crate::kit::{input::Region, model::*, run::Ctx};
use laby_common::internal::{escape, escape_str, Buffer};
use laby_common::Render;

struct Rig {
    r: Region,
    want: Vec<u8>,
}

impl Rig {
    /// Escapes a text that is already placed, at every given fill state, and compares.
    #[inline]
    fn one(&mut self, c: &mut Ctx, t: &str, fills: &[(usize, usize)], what: &str) {
        self.want.clear();
        escape_bytes(t.as_bytes(), &mut self.want);
        for &(prefix, spare) in fills {
            let mut b = Buffer::with_capacity(prefix + spare);
            for _ in 0..prefix {
                b.push_str("<");
            }
            escape(t, &mut b);
            let got = b.as_str().as_bytes();
            let ok = got.len() == prefix + self.want.len()
                && got[prefix..] == self.want[..]
                && got[..prefix].iter().all(|&x| x == b'<');
            c.traces += 1;
            c.transitions += t.len() as u64;
            if !ok {
                self.bad(c, t, prefix, spare, got, what)
            }
        }
    }

    #[cold]
    fn bad(&self, c: &mut Ctx, t: &str, prefix: usize, spare: usize, got: &[u8], what: &str) -> ! {
        c.fail(format!(
            "{what}: escape of {:?} (length {}, address mod 64 = {}) into a buffer with {prefix} bytes of content and {spare} bytes free gave {:?}, expected {:?} after the prefix",
            t, t.len(), t.as_ptr() as usize % 64,
            String::from_utf8_lossy(got), String::from_utf8_lossy(&self.want)
        ))
    }
}

const FILLER: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .";

fn fill(b: &mut [u8]) {
    for (i, x) in b.iter_mut().enumerate() {
        *x = FILLER[i % FILLER.len()];
    }
}

pub fn run(c: &mut Ctx) {
    let th = c.thorough;
    let mut g = Rig { r: Region::new(4 << 20), want: Vec::new() };
    let roomy = [(0usize, 16384usize)];
    let tight = [(0usize, 0usize)];

    // A: every (length, alignment, position, character): one character differs from the filler.
    // '#', ' ', '%', '?', ';', '=', 0 are neighbours of the five in the bit patterns SIMD code compares.
    let max_len = if th { 520 } else { 300 };
    let kinds: &[u8] = b"\"&'<>#%?;=\0\x7f";
    for len in 0..=max_len {
        for al in 0..64usize {
            if !c.take() {
                continue;
            }
            let bytes = g.r.b();
            fill(&mut bytes[al..al + len]);
            c.describe(|| format!("all single characters of {kinds:?} at all positions of a {len}-byte text at address mod 64 = {al}"));
            let ks = if al < 32 { kinds } else { &kinds[..6] };
            for p in 0..len.max(1) {
                for &k in ks {
                    let mut old = 0u8;
                    if len > 0 {
                        old = g.r.b()[al + p];
                        g.r.b()[al + p] = k;
                    }
                    let t = g.r.t(al, len);
                    g.one(c, t, &roomy, "single");
                    c.states += 1;
                    if len > 0 {
                        g.r.b()[al + p] = old;
                    }
                    if len == 0 {
                        break;
                    }
                }
            }
            c.outcome(&g.want);
        }
    }
    c.count("texts with one interesting character", c.states);

    // B: every pair of positions and kinds.
    let lens: Vec<usize> = if th { (2..=140).collect() } else { (2..=100).chain([127, 128, 129, 160]).collect() };
    for &len in &lens {
        for al in [0usize, 1, 15, 16, 31] {
            for p in 0..len {
                if !c.take() {
                    continue;
                }
                c.describe(|| format!("all pairs with the first of the five at position {p} of a {len}-byte text at address mod 64 = {al}"));
                let t = g.r.t(al, len);
                fill({ &mut g.r.b()[al..al + len] });
                for q in p + 1..len {
                    let (o1, o2) = (g.r.b()[al + p], g.r.b()[al + q]);
                    for &k1 in &SPECIALS {
                        for &k2 in &SPECIALS {
                            {
                                g.r.b()[al + p] = k1;
                                g.r.b()[al + q] = k2;
                            }
                            g.one(c, t, &roomy, "pair");
                            c.states += 1;
                        }
                    }
                    {
                        g.r.b()[al + p] = o1;
                        g.r.b()[al + q] = o2;
                    }
                }
                c.outcome(&g.want);
            }
        }
    }

    // C: every subset of positions of short texts, and every subset of every window of longer ones.
    let mlen = if th { 20 } else { 17 };
    for len in 0..=mlen as usize {
        for hi in 0..(1u32 << len.min(6)) {
            if !c.take() {
                continue;
            }
            let low = if len > 6 { len - 6 } else { 0 };
            c.describe(|| format!("all position subsets of a {len}-byte text with top bits {hi:b}"));
            for lo in 0..(1u32 << low) {
                let m = hi << low | lo;
                let t = g.r.t(3, len);
                for i in 0..len {
                    { g.r.b()[3 + i] = if m >> i & 1 == 1 { SPECIALS[(i + m as usize) % 5] } else { FILLER[i] } };
                }
                g.one(c, t, &tight, "subset");
                c.states += 1;
            }
            c.outcome(&g.want);
        }
    }
    let w = if th { 12 } else { 9 };
    for &len in &[24usize, 31, 32, 33, 40, 47, 48, 63, 64, 65, 70, 96, 100] {
        for off in 0..=len - w {
            if !c.take() {
                continue;
            }
            c.describe(|| format!("all position subsets of the {w}-byte window at {off} of a {len}-byte text"));
            let t = g.r.t(0, len);
            fill({ &mut g.r.b()[..len] });
            for m in 0..(1u32 << w) {
                for i in 0..w {
                    { g.r.b()[off + i] = if m >> i & 1 == 1 { SPECIALS[(i + m as usize) % 5] } else { FILLER[i] } };
                }
                g.one(c, t, &tight, "window");
                c.states += 1;
            }
            c.outcome(&g.want);
        }
    }

    // D: every Unicode scalar value, alone, as char, and inside texts around the block sizes.
    let offs: &[usize] = if th { &[0, 1, 7, 8, 13, 14, 15, 16, 29, 30, 31, 32, 33, 60, 61, 62, 63, 64] } else { &[0, 13, 15, 16, 30, 32, 61] };
    for block in 0..0x110000 / 256 {
        if !c.take() {
            continue;
        }
        c.describe(|| format!("all characters U+{:04X}..U+{:04X} alone and at offsets {offs:?}", block * 256, block * 256 + 255));
        for ch in (block * 256..block * 256 + 256u32).filter_map(char::from_u32) {
            let mut e = [0u8; 4];
            let s: &str = ch.encode_utf8(&mut e);
            let t = g.r.put(5, s);
            g.one(c, t, &tight, "character");
            let mut b = Buffer::new();
            ch.render(&mut b);
            c.traces += 1;
            if b.as_str().as_bytes() != &g.want[..] {
                g.bad(c, t, 0, 0, b.as_str().as_bytes(), "char value");
            }
            c.states += 1;
            c.outcome(&g.want);
            for &o in offs {
                let bytes = g.r.b();
                fill(&mut bytes[..o]);
                bytes[o..o + s.len()].copy_from_slice(s.as_bytes());
                bytes[o + s.len()] = b'<';
                let tail = [0usize, 1, 2, 17, 40][(o + ch as usize) % 5];
                fill(&mut bytes[o + s.len() + 1..o + s.len() + 1 + tail]);
                let t = g.r.t(0, o + s.len() + 1 + tail);
                g.one(c, t, &roomy, "character in text");
                c.states += 1;
            }
        }
    }

    // E: every amount of free space.
    let max_spare = if th { 520 } else { 260 };
    for len in (0..=70).chain([95, 96, 97, 127, 128, 129, 160]) {
        for pat in 0..6usize {
            if !c.take() {
                continue;
            }
            let bytes = g.r.b();
            for i in 0..len {
                let special = match pat {
                    0 => false,
                    1 => true,
                    2 => i == 0,
                    3 => i + 1 == len,
                    4 => i % 2 == 0,
                    _ => i == len / 2,
                };
                bytes[2 + i] = if special { SPECIALS[(i + pat) % 5] } else { FILLER[i % 64] };
            }
            let t = g.r.t(2, len);
            c.describe(|| format!("{t:?} into buffers with 0..={max_spare} bytes free"));
            let mut fills = Vec::new();
            for spare in 0..=max_spare {
                for prefix in [0usize, 1, 16, 33] {
                    fills.push((prefix, spare));
                }
            }
            g.one(c, t, &fills, "free space");
            c.states += fills.len() as u64;
            c.outcome(&g.want);
        }
    }

    // F: long texts, with the five at, before and after every power of two and multiple boundaries.
    let top = if th { 22 } else { 20 };
    for e in 5..=top {
        for d in [-33i64, -32, -31, -17, -16, -1, 0, 1, 15, 16, 31, 32, 33] {
            let len = (1i64 << e) + d;
            if len < 0 {
                continue;
            }
            let len = len as usize;
            for pat in 0..6usize {
                if !c.take() {
                    continue;
                }
                c.describe(|| format!("text of {len} bytes, pattern {pat}"));
                let bytes = g.r.b();
                let len = len.min(bytes.len());
                fill(&mut bytes[..len]);
                match pat {
                    0 => {}
                    1 => bytes[..len].iter_mut().enumerate().for_each(|(i, x)| *x = SPECIALS[i % 5]),
                    2 => {
                        if len > 0 {
                            bytes[0] = b'&';
                            bytes[len - 1] = b'>';
                            bytes[len / 2] = b'"';
                        }
                    }
                    3 => (0..len).filter(|i| (i & (i + 1)) == 0).for_each(|i| bytes[i] = b'\''),
                    4 => (0..len).filter(|i| (i & (i.wrapping_sub(1))) == 0).for_each(|i| bytes[i] = b'<'),
                    _ => (0..len).filter(|i| i % 4096 == 4095 || i % 4096 == 0 || i % 1000 == 999).for_each(|i| bytes[i] = SPECIALS[i % 5]),
                }
                let t = g.r.t(0, len);
                g.one(c, t, &[(0, 0), (7, 100)], "long");
                c.states += 2;
                c.outcome(&g.want);
            }
        }
    }

    // G: the other ways to get at escaping agree: every string form over all texts of length <= L
    // over an alphabet with all five, a letter and a multi-byte character.
    let alpha = ["a", "<", "é", "&", "\"", "'", ">"];
    let deep = if th { 7 } else { 6 };
    for lead in ["", "0123456789abcdef", "0123456789abcdef0123456789abcdef"] {
        for len in 0..=deep {
            for first in 0..if len == 0 { 1 } else { 7 } {
                if !c.take() {
                    continue;
                }
                c.describe(|| format!("all texts {lead:?} + {:?} + {} more of {alpha:?} through every string form", alpha[first], len.max(1) - 1));
                let n = 7usize.pow(len.max(1) as u32 - 1);
                for k in 0..n {
                    let mut s = String::from(lead);
                    if len > 0 {
                        s.push_str(alpha[first]);
                    }
                    let mut k = k;
                    for _ in 1..len {
                        s.push_str(alpha[k % 7]);
                        k /= 7;
                    }
                    let want = crate::kit::model::escape(&s);
                    let mut chk = |c: &mut Ctx, name: &str, got: String| {
                        c.traces += 1;
                        c.check(got == want, || format!("{name} of {s:?} gave {got:?}, expected {want:?}"));
                    };
                    fn via<R: Render>(r: R) -> String {
                        let mut b = Buffer::new();
                        r.render(&mut b);
                        b.into_string()
                    }
                    chk(c, "escape_str", escape_str(&s));
                    chk(c, "&str", via(&s[..]));
                    chk(c, "String", via(s.clone()));
                    chk(c, "Some(&str)", via(Some(&s[..])));
                    c.states += 1;
                    c.outcome(want.as_bytes());
                }
            }
        }
    }

    // H: multi-byte fillers (bytes with the top bit set) with the five at every character boundary.
    for filler in ["é", "ß", "€", "\u{a6}", "\u{27}\u{3000}", "😀", "\u{7ff}\u{800}", "\u{10ffff}", "\0", "\u{226}\u{126}", "\u{3c3c}"] {
        let n = if th { 200 } else { 80 };
        for count in 0..=n {
            if !c.take() {
                continue;
            }
            c.describe(|| format!("{count} times {filler:?} with one of the five at every boundary"));
            for p in 0..=count {
                for k in SPECIALS {
                    for al in [0usize, 1] {
                        let mut at = al;
                        for i in 0..=count {
                            if i == p {
                                g.r.b()[at] = k;
                                at += 1;
                            }
                            if i < count {
                                g.r.put(at, filler);
                                at += filler.len();
                            }
                        }
                        let t = g.r.t(al, at - al);
                        g.one(c, t, &roomy, "multi-byte text");
                        c.states += 1;
                    }
                }
            }
            c.outcome(&g.want);
        }
    }

    // I: texts that look like markup or are already escaped: all sequences of tokens.
    let toks = ["&amp;", "&lt;", "&#39;", "<", "&", ";", "amp;", "a", "\n", "</script>", "<!--", " onclick=\"", "\r\n", "&#x27;", "]]>"];
    let deep = if th { 5 } else { 4 };
    for lead in ["", "0123456789", "0123456789abcdef0123456789abc"] {
        for first in 0..toks.len() * toks.len() {
            if !c.take() {
                continue;
            }
            c.describe(|| format!("all sequences of {deep} tokens from {toks:?} starting with number {first}, after {lead:?}"));
            for k in 0..toks.len().pow(deep - 2) {
                let mut s = String::from(lead);
                s.push_str(toks[first % toks.len()]);
                s.push_str(toks[first / toks.len()]);
                let mut k = k;
                for _ in 2..deep {
                    s.push_str(toks[k % toks.len()]);
                    k /= toks.len();
                }
                let t = g.r.put(9, &s);
                g.one(c, t, &tight, "markup-like text");
                c.states += 1;
            }
            c.outcome(&g.want);
        }
    }
}
