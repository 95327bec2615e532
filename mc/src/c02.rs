//! C02: no access outside the value being rendered and the memory the buffer owns. Texts lie
//! directly against inaccessible pages (before or after), buffer blocks too; every block is
//! surrounded by checked canaries. A wrong access faults the worker or breaks a canary.
use crate::kit::{alloc, input::Region, model::*, run::Ctx};
use laby::*;
use laby_common::internal::{escape, Buffer};
use laby_common::Render as _;

struct Rig {
    want: String,
}

fn go<R: laby_common::Render>(c: &mut Ctx, g: &mut Rig, spare: usize, prefix: usize, left: bool, r: R, what: &dyn Fn() -> String) {
    let mode = alloc::GUARD | if left { alloc::LEFT } else { 0 };
    let (ok, kept) = alloc::with(mode, || {
        let mut b = Buffer::with_capacity(prefix + spare);
        for _ in 0..prefix {
            b.push_str("~");
        }
        r.render(&mut b);
        let s = b.as_str();
        let ok = s.len() == prefix + g.want.len() && s[prefix..] == g.want[..] && s.as_bytes()[..prefix].iter().all(|&x| x == b'~');
        (ok, b.capacity() >= b.len())
    });
    c.traces += 1;
    c.transitions += g.want.len() as u64;
    c.check_alloc(|| format!("{} with {spare} bytes free after {prefix} bytes", what()));
    c.check(ok, || format!("{} with {spare} bytes free after {prefix} bytes did not give {:?} (bytes outside the buffer were read or written)", what(), g.want));
    c.check(kept, || format!("{} with {spare} bytes free: length exceeds capacity", what()));
}

struct Esc<'a>(&'a str);
impl laby_common::Render for Esc<'_> {
    fn render(self, b: &mut Buffer) {
        escape(self.0, b)
    }
}

pub fn run(c: &mut Ctx) {
    let th = c.thorough;
    let r = Region::new(8192);
    let mut g = Rig { want: String::new() };

    // Texts: every length, against the page on either side and at every offset from it.
    let top = if th { 600 } else { 260 };
    for len in 0..=top {
        for pat in 0..8usize {
            if !c.take() {
                continue;
            }
            let text: Vec<u8> = (0..len)
                .map(|i| {
                    let s = match pat {
                        0 => false,
                        1 => true,
                        2 => i == 0,
                        3 => i + 1 == len,
                        4 => i % 2 == 0,
                        5 => i == len / 2,
                        6 => i + 17 >= len,
                        _ => i < 17,
                    };
                    if s { SPECIALS[(i + pat) % 5] } else { b'a' + (i % 26) as u8 }
                })
                .collect();
            c.describe(|| format!("text {:?} against inaccessible pages, all amounts of free space", String::from_utf8_lossy(&text)));
            g.want.clear();
            escape_into(std::str::from_utf8(&text).unwrap(), &mut g.want);
            let max_spare = g.want.len() + 40;
            let step = if th || max_spare < 400 { 1 } else { 7 };
            for place in 0..2 {
                // the byte beyond the text on the accessible side must not influence the result
                r.b().fill(b'<');
                let t = if place == 0 { r.at_end(&text) } else { r.at_start(&text) };
                for spare in (0..=max_spare).step_by(step) {
                    for left in [false, true] {
                        go(c, &mut g, spare, 0, left, Esc(t), &|| format!("escape of {t:?} placed {}", ["before an inaccessible page", "after an inaccessible page"][place]));
                        c.states += 1;
                    }
                }
                go(c, &mut g, 3, 5, false, t, &|| format!("&str {t:?}"));
            }
            for dist in 1..=33usize {
                r.b().fill(b'&');
                for place in 0..2 {
                    let off = if place == 0 { r.len - len - dist } else { dist };
                    let t = r.put(off, std::str::from_utf8(&text).unwrap());
                    go(c, &mut g, 0, 0, false, Esc(t), &|| format!("escape of {t:?} at distance {dist} from an inaccessible page"));
                    go(c, &mut g, len, 0, true, Esc(t), &|| format!("escape of {t:?} at distance {dist} from an inaccessible page"));
                    c.states += 2;
                }
            }
            c.outcome(g.want.as_bytes());
        }
    }

    // Integers: every digit count of every type, both signs.
    macro_rules! ints {
        ($($t:ident)*) => {$({
            let mut vals: Vec<$t> = vec![<$t>::MIN, <$t>::MAX, <$t>::MAX / 2, <$t>::MIN / 2];
            let mut p: $t = 1;
            loop {
                for d in 0..3 as $t {
                    vals.push(p.saturating_add(d));
                    vals.push(p.saturating_sub(d));
                    #[allow(unused_comparisons)]
                    if <$t>::MIN < 0 { vals.push((0 as $t).wrapping_sub(p).wrapping_add(d)); vals.push((0 as $t).wrapping_sub(p).wrapping_sub(d)); }
                }
                match p.checked_mul(10) { Some(q) => p = q, None => break }
            }
            for v in vals {
                if !c.take() { continue; }
                c.describe(|| format!("{v}{} into buffers with 0..=64 bytes free", stringify!($t)));
                g.want = v.to_string();
                for spare in 0..=64 {
                    for left in [false, true] {
                        go(c, &mut g, spare, 0, left, v, &|| format!("{v}{}", stringify!($t)));
                        go(c, &mut g, spare, 5, left, v, &|| format!("{v}{}", stringify!($t)));
                        c.states += 2;
                    }
                }
                c.outcome(g.want.as_bytes());
            }
        })*};
    }
    ints!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

    // Floats: every exponent with the longest digit strings, both signs, and the non-finite ones.
    for e in 0..=2047u64 {
        if !c.take() {
            continue;
        }
        c.describe(|| format!("f64 (and f32) values with biased exponent {e} into buffers with 0..=40 bytes free"));
        let mants = [0u64, 1, 2, 0xFFFFFFFFFFFFF, 0x8000000000000, 0x7FFFFFFFFFFFF, 0x5555555555555, 0x123456789ABCD, 0xFEDCBA9876543];
        for m in mants {
            for s in 0..2u64 {
                let v = f64::from_bits(s << 63 | e << 52 | m);
                let text = crate::c02::float_text64(v);
                g.want = text;
                for spare in 0..=40 {
                    go(c, &mut g, spare, 0, spare % 2 == 1, v, &|| format!("{v:e}f64"));
                    c.states += 1;
                }
                c.outcome(g.want.as_bytes());
                if e < 256 {
                    let v = f32::from_bits((s << 31 | e << 23 | m >> 29) as u32);
                    g.want = float_text32(v);
                    for spare in 0..=40 {
                        go(c, &mut g, spare, 0, spare % 2 == 1, v, &|| format!("{v:e}f32"));
                        c.states += 1;
                    }
                    c.outcome(g.want.as_bytes());
                }
            }
        }
    }

    // Characters, booleans, and values rendered through every wrapper.
    for ch in (0..=0x2FFFu32).chain((0x3000..0x110000).step_by(1)).filter_map(char::from_u32) {
        if !c.take() {
            continue;
        }
        c.describe(|| format!("{ch:?} into buffers with 0..=9 bytes free"));
        g.want.clear();
        escape_char(ch, &mut g.want);
        for spare in 0..=9 {
            for left in [false, true] {
                go(c, &mut g, spare, 0, left, ch, &|| format!("{ch:?}"));
                go(c, &mut g, spare, 3, left, format_args!("{ch}"), &|| format!("format_args of {ch:?}"));
                c.states += 2;
            }
        }
        c.outcome(g.want.as_bytes());
    }

    // Whole templates at every amount of free space: every growth point falls in every piece.
    for k in 0..8u32 {
        for spare in 0..=700usize {
            if !c.take() {
                continue;
            }
            c.describe(|| format!("template with {k} items into a buffer with {spare} bytes free"));
            let txt = &"x<y & 'z' \"quoted\" and a longer piece of text"[..(k as usize * 6)];
            let list: String = (0..k).map(|i| format!("<li class=\"n{i} {}\">{i}: {}</li>", i % 2 == 0, escape_s(txt))).collect();
            g.want = format!(
                "<!DOCTYPE html><div id=\"{}\" data-x=\"{}\"{}><ul>{list}</ul>{txt}<br>{}, {}|{}</div>",
                escape_s(txt), 1.5, if k % 2 == 0 { " hidden" } else { "" }, k, k + 1, escape_s(&format!("{:>9}&", txt))
            );
            for left in [false, true] {
                let t = frag!(
                    DocType::HTML5,
                    div!(
                        id = txt,
                        "data-x" = 1.5,
                        hidden = bool!(k % 2 == 0),
                        ul!(iter!((0..k).map(|i| li!(class = classes!(format!("n{i}"), i % 2 == 0), i, ": ", txt)))),
                        raw!(txt),
                        br!(),
                        iter!(", ", [k, k + 1]),
                        "|",
                        format_args!("{txt:>9}&"),
                    )
                );
                go(c, &mut g, spare, 0, left, t, &|| format!("template with {k} items"));
                c.states += 1;
            }
            c.outcome(g.want.as_bytes());
        }
    }
}

fn escape_s(s: &str) -> String {
    crate::kit::model::escape(s)
}

pub fn float_text64(v: f64) -> String {
    plain(v)
}

pub fn float_text32(v: f32) -> String {
    plain(v)
}

/// The text is not this property's business (see C08, C09): render it once into ample space.
fn plain<R: laby_common::Render>(r: R) -> String {
    let mut b = Buffer::with_capacity(4096);
    r.render(&mut b);
    b.into_string()
}
