//! C22: formatted values. Every sequence of write_str / write_char / write_fmt pieces of a menu up
//! to a depth, literal pieces, padding, and the argument machinery, against the escaped result of
//! ordinary formatting.
use crate::kit::{bufops::next_seq, model, run::Ctx};
use laby::{div, frag, RenderDisplay};
use laby_common::internal::Buffer;
use laby_common::Render;
use std::fmt::{self, Display, Write};

/// One way to hand a piece of text to a formatter.
#[derive(Clone, Copy, Debug)]
enum Piece {
    Str(&'static str),
    Char(char),
    Fmt(&'static str),
    Pad(&'static str),
    Nested(&'static str, char),
}
use Piece::*;

const MENU: &[Piece] = &[
    Str("a"),
    Str(""),
    Str("<"),
    Str("\"&'>"),
    Str("exactly sixteen."),
    Str("seventeen & more "),
    Str("thirty-three bytes of <text> here"),
    Str("é"),
    Char('x'),
    Char('&'),
    Char('"'),
    Char('\''),
    Char('<'),
    Char('>'),
    Char('€'),
    Char('\u{1F600}'),
    Char('\0'),
    Fmt("<i>"),
    Pad("&p"),
    Nested("'n'", '>'),
];

struct Pieces<'a>(&'a [usize]);
impl Display for Pieces<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for &i in self.0 {
            match MENU[i] {
                Str(s) => f.write_str(s)?,
                Char(c) => f.write_char(c)?,
                Fmt(s) => f.write_fmt(format_args!("[{s}|{:>3}]", '&'))?,
                Pad(s) => f.pad(s)?,
                Nested(s, c) => write!(f, "{}{}", s, c)?,
            }
        }
        Ok(())
    }
}

fn rendered(r: impl Render, cap: usize) -> String {
    let mut b = Buffer::with_capacity(cap);
    r.render(&mut b);
    b.into_string()
}

const WRAPS: usize = 12;
/// The value in one of the supported ways, its expected text being `t` (unescaped).
fn forms(i: usize, d: &(impl Display + ?Sized)) -> (String, String) {
    let t = d.to_string();
    let e = model::escape;
    match i {
        0 => (rendered(format_args!("{d}"), 0), e(&t)),
        1 => (rendered(RenderDisplay(d), 0), e(&t)),
        2 => (rendered(RenderDisplay::from(d), 64), e(&t)),
        3 => (rendered(format_args!("<{d}&{d}>"), 16), e(&format!("<{d}&{d}>"))),
        4 => (rendered(format_args!("{d:*^40}"), 0), e(&format!("{d:*^40}"))),
        5 => (rendered(format_args!("{d:&<30}'{d:.2}"), 5), e(&format!("{d:&<30}'{d:.2}"))),
        6 => (rendered(format_args!("{:?} {:?}", t, Some(&t)), 0), e(&format!("{:?} {:?}", t, Some(&t)))),
        7 => (rendered(Some(format_args!("{}", format_args!("({d})"))), 1), e(&format!("({d})"))),
        8 => {
            let mut b = Buffer::new();
            div!(title = RenderDisplay(d), RenderDisplay(d)).render(&mut b);
            (b.into_string(), format!("<div title=\"{0}\">{0}</div>", e(&t)))
        }
        9 => {
            let mut b = Buffer::with_capacity(30);
            div!(title = format_args!("{d}"), laby::iter!(",", [RenderDisplay(d), RenderDisplay(d)])).render(&mut b);
            (b.into_string(), format!("<div title=\"{0}\">{0},{0}</div>", e(&t)))
        }
        10 => (rendered(frag!("<", RenderDisplay(d), 1), 40), format!("&lt;{}1", e(&t))),
        _ => {
            #[allow(deprecated)]
            let s = rendered(laby::disp!(d), 3);
            (s, e(&t))
        }
    }
}

pub fn run(c: &mut Ctx) {
    let max = if c.thorough { 6 } else { 5 };
    for len in 0..=max {
        let head = len.min(2);
        let mut seq = vec![0usize; len];
        loop {
            if c.take() {
                c.describe(|| format!("all sequences of {len} pieces starting with {:?}", seq[..head].iter().map(|&i| MENU[i]).collect::<Vec<_>>()));
                loop {
                    for w in 0..WRAPS {
                        if len == max && w > 3 && w != 8 && !c.thorough {
                            continue;
                        }
                        let (got, want) = forms(w, &Pieces(&seq));
                        c.check(got == want, || format!("pieces {:?} in form {w}: {got:?}, expected {want:?}", seq.iter().map(|&i| MENU[i]).collect::<Vec<_>>()));
                        c.states += 1;
                        c.transitions += len as u64;
                        if w == 0 {
                            c.outcome(got.as_bytes());
                        }
                    }
                    if !next_seq(&mut seq, head, MENU.len()) {
                        break;
                    }
                }
                seq[head..].fill(0);
            }
            if head == 0 || !next_seq(&mut seq[..head], 0, MENU.len()) {
                break;
            }
        }
    }
    let a = c.states;
    c.count("piece sequences x forms", a);

    // every character through write_char
    for block in 0..0x110u32 {
        if !c.take() {
            continue;
        }
        c.describe(|| format!("characters {:#x}..{:#x} written one by one", block << 12, (block + 1) << 12));
        struct One(char);
        impl Display for One {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_char(self.0)
            }
        }
        let mut b = Buffer::with_capacity(64);
        for x in block << 12..(block + 1) << 12 {
            let Some(ch) = char::from_u32(x) else { continue };
            b.clear();
            format_args!("{}", One(ch)).render(&mut b);
            format_args!("{:?}", ch).render(&mut b);
            let want = model::escape(&format!("{ch}{ch:?}"));
            c.check(b.as_str() == want, || format!("character {x:#x}: {:?}, expected {want:?}", b.as_str()));
            c.states += 1;
            c.transitions += 2;
        }
    }
    c.count("characters", c.states - a);
    let a = c.states;

    // std types, literal pieces and format specifications
    if c.take() {
        c.describe(|| "std types and format specifications".into());
        macro_rules! t {
            ($($arg:tt)*) => {{
                let got = rendered(format_args!($($arg)*), 0);
                let want = model::escape(&format!($($arg)*));
                c.check(got == want, || format!("format_args!({}): {got:?}, expected {want:?}", stringify!($($arg)*)));
                c.states += 1;
            }};
        }
        let s = "<it's \"q\" & more>";
        t!("");
        t!("no arguments");
        t!("special & literal <without> \"arguments\" 'at' all");
        t!("&");
        t!("{{<}}");
        t!("a literal that is long enough for the vector path & some, without any argument <>");
        t!("{}", "");
        t!("{}", '"');
        t!("{}", 'é');
        t!("{s}");
        t!("{s:?}");
        t!("{s:#?}");
        t!("<{s}>");
        t!("{s}{s}");
        t!("{s:>40}");
        t!("{s:&^60}");
        t!("{s:<<50}");
        t!("{s:\">5}");
        t!("{s:.3}");
        t!("{s:é<30.4}");
        t!("{0} {0:?} {1} {name}", s, '&', name = "n<");
        t!("{:?}", vec![s, "&"]);
        t!("{:#?}", vec![Some(s), None]);
        t!("{:?}", ('\'', "\"", '\n', "\u{7f}"));
        t!("{:#?}", std::collections::BTreeMap::from([("<k>", '&')]));
        t!("{:?}", std::time::Duration::from_micros(1500));
        t!("{}", 1.5f32);
        t!("{:e} {:08.3} {:+}", 1.5f64, -2.25f64, 0.0);
        t!("{:#x} {:#b} {:o} {:+} {:05}", 255, 5, 8, 3, -7);
        t!("{}", u128::MAX);
        t!("{} {:?}", true, ());
        t!("{:?}", ..5);
        t!("{}", String::from(s));
        t!("{}", std::borrow::Cow::from(s));
        t!("{}", Box::new(s));
        t!("{}", std::net::Ipv4Addr::LOCALHOST);
        t!("{}", std::path::Path::new("/a&b").display());
        t!("{:?}", std::path::Path::new("/a&'b"));
        t!("{}", s.escape_debug());
        t!("{}", s.escape_unicode());
        t!("{}", '<'.escape_default());
        t!("{}", "x".parse::<i32>().unwrap_err());
        t!("{:?}", std::str::from_utf8(b"a<b").unwrap());
        t!("{}", char::REPLACEMENT_CHARACTER);
        t!("{:p}", std::ptr::null::<u8>());
        t!("{:>1$}", s, 30);
        t!("{:.*}", 2, s);
        t!("{:>w$.p$}", s, w = 20, p = 7);
        // text directly in a template
        let mut b = Buffer::new();
        div!(title = format_args!("<{}", "&"), format_args!("'{}'", '<')).render(&mut b);
        c.check(b.as_str() == "<div title=\"&lt;&amp;\">&#39;&lt;&#39;</div>", || format!("format_args! in a template: {:?}", b.as_str()));
        c.states += 1;
    }
    c.count("format specifications", c.states - a);
    let a = c.states;

    // widths, precisions and fills over lengths: padding is written piece by piece
    let wmax = if c.thorough { 130 } else { 70 };
    for w in 0..wmax {
        if !c.take() {
            continue;
        }
        c.describe(|| format!("text of every short length padded to width {w}, every alignment"));
        for len in 0..40usize {
            let s: String = (0..len).map(|i| ['a', '<', 'é', '&'][i % 4]).collect();
            let v = [
                (rendered(format_args!("{s:>w$}"), 0), format!("{s:>w$}")),
                (rendered(format_args!("{s:&<w$}"), 7), format!("{s:&<w$}")),
                (rendered(format_args!("{s:'^w$}|"), 0), format!("{s:'^w$}|")),
                (rendered(format_args!("{s:.w$}"), 0), format!("{s:.w$}")),
                (rendered(format_args!("{:<>w$}", len), 0), format!("{:<>w$}", len)),
            ];
            for (k, (got, raw)) in v.iter().enumerate() {
                let want = model::escape(raw);
                c.check(*got == want, || format!("width {w}, text {s:?}, variant {k}: {got:?}, expected {want:?}"));
                c.states += 1;
                c.transitions += w as u64;
            }
        }
    }
    c.count("paddings", c.states - a);
    let a = c.states;

    // texts of every length split at every two positions
    let lmax = if c.thorough { 80 } else { 48 };
    for len in 0..=lmax {
        if !c.take() {
            continue;
        }
        c.describe(|| format!("a text of {len} bytes handed over in three parts, all splits"));
        let s: String = (0..len).map(|i| if i % 7 == 3 { model::SPECIALS[(i / 7) % 5] as char } else { (b'a' + (i % 26) as u8) as char }).collect();
        let want = model::escape(&s);
        for i in 0..=len {
            for j in i..=len {
                struct Split<'a>(&'a str, usize, usize);
                impl Display for Split<'_> {
                    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                        f.write_str(&self.0[..self.1])?;
                        f.write_str(&self.0[self.1..self.2])?;
                        f.write_str(&self.0[self.2..])
                    }
                }
                let got = rendered(RenderDisplay(Split(&s, i, j)), len);
                c.check(got == want, || format!("text {s:?} split at {i} and {j}: {got:?}"));
                c.states += 1;
                c.transitions += 3;
            }
        }
    }
    c.count("splits", c.states - a);
}
