//! C23: heap allocations. Every template of a set and every value kind, over text lengths and
//! special-character densities, under an allocator that counts: construction and rendering into a
//! roomy buffer make no request at all; output built by appending makes logarithmically many.
use crate::kit::{alloc, run::Ctx};
use laby::*;
use laby_common::internal::{escape, Buffer};

/// Text of `n` bytes in which every `gap`-th byte is special (0: none, 1: all).
fn text(n: usize, gap: usize) -> String {
    (0..n).map(|i| if gap > 0 && i % gap == 0 { ['<', '&', '"', '\'', '>'][i / gap % 5] } else { (b'a' + (i % 26) as u8) as char }).collect()
}

fn bound(n: usize) -> u64 {
    4 * (usize::BITS - n.leading_zeros()) as u64 + 16
}

#[laby]
fn card<'a>(title: impl Render + 'a, #[default] extra: Option<&'a str>, #[rest] body: impl Render + 'a) -> impl Render + 'a {
    section!(class = "card", h2!(title), p!(extra), body)
}

#[laby]
fn page(#[default(3)] n: usize, name: &str) -> impl Render + '_ {
    main!(n, ": ", name, card!(title = name, b!("x"), i!("y")))
}

fn branch<'a>(k: usize, s: &'a str) -> impl Render + 'a {
    frag_match!(match k % 4 {
        0 => s,
        1 => b!(s),
        2 => raw!(s),
        _ => k,
    })
}

/// One template, constructed and rendered under the counting allocator.
macro_rules! templates {
    ($c:expr, $what:expr, $out:expr, $cap:expr, $($name:literal => $e:expr),* $(,)?) => {$(
        {
            // sizes are learnt from a first run
            let mut b = Buffer::new();
            ($e).render(&mut b);
            let want = b.into_string();
            let mut roomy = Buffer::with_capacity(8 * want.len() + 4096);
            roomy.push_str("head");
            alloc::reset_counts();
            let (k1, k2, k3);
            {
                let t = alloc::with(alloc::COUNT, || $e);
                k1 = alloc::counts();
                alloc::with(alloc::COUNT, || t.render(&mut roomy));
                k2 = alloc::counts();
            }
            $c.check(k1.events() == 0 && k1.dealloc == 0, || format!("{}, {}: construction made {} heap requests", $name, $what, k1.events() + k1.dealloc));
            $c.check(k2.events() == 0 && k2.dealloc == 0, || format!("{}, {}: rendering into a buffer with enough room made {} heap requests", $name, $what, k2.events() + k2.dealloc));
            $c.check(roomy.as_str().strip_prefix("head") == Some(&want[..]), || format!("{}: {:?}, expected {want:?}", $name, roomy.as_str()));
            // from an empty buffer, and through render!
            alloc::reset_counts();
            let s = alloc::with(alloc::COUNT, || {
                let mut b = Buffer::new();
                ($e).render(&mut b);
                b.into_string()
            });
            k3 = alloc::counts();
            $c.check(k3.events() <= bound(want.len()), || format!("{}, {}: {} heap requests for an output of {} bytes", $name, $what, k3.events(), want.len()));
            $c.check(s == want && k3.live <= 1, || format!("{}, {}: {} blocks live after rendering", $name, $what, k3.live));
            alloc::reset_counts();
            let s = alloc::with(alloc::COUNT, || laby::render!($e));
            let k4 = alloc::counts();
            let limit = if want.len() < 1024 { 1 } else { bound(want.len()) };
            $c.check(k4.events() <= limit, || format!("{}, {}: render! made {} heap requests for an output of {} bytes", $name, $what, k4.events(), want.len()));
            $c.check(s == want, || format!("{}: render! gave {s:?}, expected {want:?}", $name));
            $c.check(k4.live == 1, || format!("{}, {}: {} blocks live after render!", $name, $what, k4.live));
            $c.states += 1;
            $c.traces += 4;
            $c.transitions += k3.events() + k4.events() + 4;
            $c.outcome(want.as_bytes());
            $c.outcome_hash(k3.events() << 16 | k4.events());
        }
    )*};
}

fn one(c: &mut Ctx, n: usize, gap: usize) {
    let s = text(n, gap);
    let s = s.as_str();
    let what = format!("text of {n} bytes with a special character every {gap}");
    templates!(c, what, out, cap,
        "text" => s,
        "optional text" => Some(s),
        "raw" => raw!(s),
        "display" => RenderDisplay(s),
        "div" => div!(s),
        "attribute" => div!(title = s),
        "attributes" => a!(href = s, s = s, "data-x" = 1, {s} = s, hidden = bool!(true), s, class = classes!(s, "y", s)),
        "input" => input!(r#type = "text", value = s, disabled = bool!(n % 2 == 0)),
        "nested" => html!(head!(title!(s), meta!(charset = "utf-8")), body!(class = "b", div!(div!(div!(s, div!(s), s))), footer!(s))),
        "fragment" => frag!(s, "x", 1, 'c', true, (), None::<&str>, frag!(s, frag!(), s)),
        "classes" => classes!(s, "a", classes!(s, s), None::<&str>),
        "document" => frag!(DocType::HTML5, html!(s)),
        "iterator" => ul!(iter!((0..n.min(50)).map(|i| li!(i, s)))),
        "delimited" => p!(iter!(", ", s.split('b'))),
        "lines" => pre!(iter_lines!(s.chars())),
        "delimited iterator in attribute" => td!(title = iter!(s, [s, s, s])),
        "branch 0" => branch(0, s),
        "branch 1" => div!(branch(1, s), branch(2, s), branch(3, s)),
        "if" => div!(frag_match!(if n % 2 == 0 { s } else { br!() })),
        "component" => card!(title = s, extra = Some(s), s, s, p!(s)),
        "component with defaults" => page!(name = s),
        "component in component" => card!(title = page!(name = s, n = 5), page!(name = s)),
        "numbers" => frag!(n, n as u8, n as i64, -(n as i128), n as f32, n as f64 / 3.0, f64::NAN, u128::MAX, std::num::NonZeroUsize::new(n), i8::MIN),
        "characters" => frag!('<', 'é', '\u{1F600}'),
        "eight columns" => tr!(td!(s), td!(s), td!(s), td!(s), td!(s), td!(s), td!(s), td!(s)),
    );
    // format_args! needs its temporaries in one expression
    let mut b = Buffer::with_capacity(64 * n + 4096);
    alloc::reset_counts();
    alloc::with(alloc::COUNT, || {
        div!(title = format_args!("{s}-{n:>5}"), format_args!("{s:&>50}{:?}", s)).render(&mut b);
        escape(s, &mut b);
    });
    let k = alloc::counts();
    c.check(k.events() + k.dealloc == 0, || format!("format_args! and escape, {what}: {} heap requests", k.events()));
    c.states += 1;
}

pub fn run(c: &mut Ctx) {
    let (lmax, gaps): (usize, &[usize]) = if c.thorough { (700, &[0, 1, 2, 3, 4, 7, 8, 13, 15, 16, 17, 31, 32, 33, 64]) } else { (200, &[0, 1, 2, 3, 16, 17, 33]) };
    let mut lens: Vec<usize> = (0..=lmax).collect();
    lens.extend([1000, 1023, 1024, 1025, 2047, 2048, 2730, 2731, 4095, 4096, 5461, 5462, 8191, 8192, 8193, 16383, 16384, 16385, 32768, 65536, 100_000, 1 << 20]);
    for &n in &lens {
        for &gap in gaps {
            if !c.take() {
                continue;
            }
            c.describe(|| format!("all templates over a text of {n} bytes, special every {gap}"));
            one(c, n, gap);
        }
    }
    let a = c.states;
    c.count("template x text", a);

    // appending piece by piece: logarithmically many requests at every point on the way
    let totals = if c.thorough { 1 << 24 } else { 1 << 21 };
    for start in [0usize, 1, 3, 16, 100, 1000, 16384] {
        for kind in 0..10usize {
            for piece in [1usize, 2, 3, 5, 8, 15, 16, 17, 31, 33, 64, 100, 1000, 4097, 70_000] {
                let fixed = matches!(kind, 2 | 4 | 5 | 7);
                if fixed && piece != 1 {
                    continue;
                }
                if !c.take() {
                    continue;
                }
                let s = text(piece, if kind == 1 { 3 } else { 0 });
                let s = s.as_str();
                c.describe(|| format!("appending pieces of {piece} bytes in way {kind} from capacity {start} up to {totals} bytes"));
                alloc::reset_counts();
                alloc::with(alloc::COUNT, || {
                    let mut b = if start == 0 { Buffer::new() } else { Buffer::with_capacity(start) };
                    let mut caps = b.capacity();
                    while b.len() < totals {
                        match kind {
                            0 => b.push_str(s),
                            1 => s.render(&mut b),
                            2 => b.push('é'),
                            3 => {
                                b.reserve(s.len());
                                b.push_str(s);
                            }
                            4 => 12345678u64.render(&mut b),
                            5 => 1.25f64.render(&mut b),
                            6 => li!(class = s, s, '<').render(&mut b),
                            7 => '<'.render(&mut b),
                            8 => {
                                use std::fmt::Write;
                                let _ = b.write_str(s);
                            }
                            _ => RenderDisplay(s).render(&mut b),
                        }
                        c.transitions += 1;
                        if b.capacity() != caps {
                            caps = b.capacity();
                            let k = alloc::counts();
                            let n = b.len().max(start);
                            c.check(k.events() <= bound(n), || format!("way {kind}, pieces of {piece} bytes, from capacity {start}: {} heap requests for {n} bytes", k.events()));
                        }
                    }
                    let k = alloc::counts();
                    c.check(k.events() <= bound(b.len()), || format!("way {kind}, pieces of {piece} bytes, from capacity {start}: {} heap requests for {} bytes", k.events(), b.len()));
                    c.outcome_hash(k.events());
                });
                c.states += 1;
                c.traces += 1;
            }
        }
    }
    c.count("append histories", c.states - a);
}
