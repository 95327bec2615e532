//! C27: raw and escaped parts. Every sequence of part kinds up to a length in every position; every
//! short raw text and raw texts of every length, as every kind of string; delimiters; the doctype.
use crate::kit::{bufops::next_seq, model, run::Ctx};
use laby::*;
use laby_common::internal::Buffer;
use std::borrow::Cow;
use std::rc::Rc;
use std::sync::Arc;

fn out(r: impl Render) -> String {
    let mut b = Buffer::new();
    r.render(&mut b);
    b.into_string()
}

#[derive(Clone, Copy)]
struct Part(usize);

struct Own([u8; 12]);
impl AsRef<str> for Own {
    fn as_ref(&self) -> &str {
        std::str::from_utf8(&self.0).unwrap()
    }
}

#[laby]
fn c27comp<'a>(a: impl Render + 'a, #[rest] r: impl Render + 'a) -> impl Render + 'a {
    i!(title = a, r)
}

const MIX: &str = "<b id='x' class=\"y\">&amp;</b>";
const EMIX: &str = "&lt;b id=&#39;x&#39; class=&quot;y&quot;&gt;&amp;amp;&lt;/b&gt;";

macro_rules! parts {
    ($($e:expr => $t:expr),* $(,)?) => {
        impl Render for Part {
            fn render(self, b: &mut Buffer) {
                let mut k = self.0;
                $( if k == 0 { return ($e).render(b); } k -= 1; )*
                let _ = k;
                panic!("HARNESS: no such part")
            }
        }
        const NAMES: &[&str] = &[$(stringify!($e)),*];
        fn texts() -> Vec<String> { vec![$(($t).to_string()),*] }
    };
}
parts!(
    MIX => EMIX,
    raw!(MIX) => MIX,
    "&" => "&amp;",
    raw!("&") => "&",
    raw!("") => "",
    '<' => "&lt;",
    raw!(String::from("\"")) => "\"",
    raw!(Own(*b"<own>&'\"</ow")) => "<own>&'\"</ow",
    String::from("amp;") => "amp;",
    raw!(Cow::from("lt;<")) => "lt;<",
    DocType::HTML5 => "<!DOCTYPE html>",
    iter!("<&>", ["<", "&"]) => "&lt;<&>&amp;",
    iter!("'\"", [raw!("<"), raw!("&")]) => "<'\"&",
    iter_lines!(["<", ">"]) => "&lt;\n&gt;",
    format_args!("<{}>", '&') => "&lt;&amp;&gt;",
    RenderDisplay("'") => "&#39;",
    Some(raw!("<o>")) => "<o>",
    frag!(raw!("<"), "<", raw!("&")) => "<&lt;&",
    classes!("<", raw!("<"), "&") => "&lt; < &amp;",
    u!(title = raw!("<&'"), raw!("</u>"), "</u>") => "<u title=\"<&'\"></u>&lt;/u&gt;</u>",
    u!(title = "<&'\"", "x", '"') => "<u title=\"&lt;&amp;&#39;&quot;\">x&quot;</u>",
    br!(alt = "<", id = raw!("<")) => "<br alt=\"&lt;\" id=\"<\">",
    c27comp!(a = "<", raw!("<"), a = raw!("&"), "<") => "<i title=\"&\"><&lt;</i>",
    frag_match!(if true { raw!("<") } else { "<" }) => "<",
    frag_match!(if false { raw!("<") } else { "<" }) => "&lt;",
    RenderRaw::from("'<'") => "'<'",
    raw!(&String::from("<ref>")) => "<ref>",
    raw!("a raw <text> that is longer than thirty-two bytes & 'quoted' \"twice\"") => "a raw <text> that is longer than thirty-two bytes & 'quoted' \"twice\"",
    "an escaped <text> that is longer than thirty-two bytes & 'quoted'" => "an escaped &lt;text&gt; that is longer than thirty-two bytes &amp; &#39;quoted&#39;",
);

fn raw_text(c: &mut Ctx, s: &str) {
    c.states += 1;
    let e = model::escape(s);
    macro_rules! p {
        ($t:expr, $fmt:literal) => {{
            let got = out($t);
            let want = format!($fmt, s = s, e = e);
            c.check(got == want, || format!("raw text {s:?} as {}: {got:?}, expected {want:?}", stringify!($t)));
            c.transitions += 1;
        }};
    }
    p!(raw!(s), "{s}{e:.0}");
    p!(raw!(s.to_string()), "{s}{e:.0}");
    p!(raw!(&s.to_string()), "{s}{e:.0}");
    p!(raw!(Box::<str>::from(s)), "{s}{e:.0}");
    p!(raw!(Cow::Borrowed(s)), "{s}{e:.0}");
    p!(raw!(Rc::<str>::from(s)), "{s}{e:.0}");
    p!(raw!(Arc::<str>::from(s)), "{s}{e:.0}");
    p!(raw!({ s }), "{s}{e:.0}");
    p!(RenderRaw(s).clone(), "{s}{e:.0}");
    p!(RenderRaw::from(s), "{s}{e:.0}");
    p!(Some(raw!(s)), "{s}{e:.0}");
    p!(u!(raw!(s)), "<u>{s}</u>{e:.0}");
    p!(u!(s, raw!(s), s), "<u>{e}{s}{e}</u>");
    p!(u!(raw!(s), s, raw!(s)), "<u>{s}{e}{s}</u>");
    p!(u!(t = raw!(s), v = s, w = raw!(s)), "<u t=\"{s}\" v=\"{e}\" w=\"{s}\"></u>");
    p!(u!({ raw!(s) } = s, { s } = raw!(s)), "<u {s}=\"{e}\" {e}=\"{s}\"></u>");
    p!(u!({ raw!(s) } = bool!(true), { s } = bool!(true)), "<u {s} {e}></u>");
    p!(br!(t = raw!(s)), "<br t=\"{s}\">{e:.0}");
    p!(frag!(raw!(s), s, raw!(s), raw!(s), s), "{s}{e}{s}{s}{e}");
    p!(classes!(raw!(s), s, raw!(s)), "{s} {e} {s}");
    p!(iter!([raw!(s), raw!(s)]), "{s}{s}{e:.0}");
    p!(iter!(s, [s, s, s]), "{e}{s}{e}{s}{e}");
    p!(iter!(s.to_string(), [raw!(s), raw!(s)]), "{s}{s}{s}{e:.0}");
    p!(iter_lines!([s, s]), "{e}\n{e}{s:.0}");
    p!(u!(t = iter!(s, [1, 2]), iter!(s, ['<', '>'])), "<u t=\"1{s}2\">&lt;{s}&gt;</u>{e:.0}");
    p!(c27comp!(a = raw!(s), s, raw!(s)), "<i title=\"{s}\">{e}{s}</i>");
    p!(frag!(DocType::HTML5, s, DocType::HTML5, raw!(s)), "<!DOCTYPE html>{e}<!DOCTYPE html>{s}");
    p!(frag_match!(match 0 { 0 => raw!(s), _ => s }), "{s}{e:.0}");
    p!(u!(RenderDisplay(s), raw!(s), RenderDisplay(s), t = RenderDisplay(s)), "<u t=\"{e}\">{e}{s}{e}</u>");
    c.outcome(s.as_bytes());
}

pub fn run(c: &mut Ctx) {
    let n = NAMES.len();
    let t = texts();
    let max = if c.thorough { 5 } else { 4 };
    for len in 1..=max {
        let head = len.min(2);
        let mut seq = vec![0usize; len];
        loop {
            if c.take() {
                c.describe(|| format!("all sequences of {len} parts starting with {}", seq[..head].iter().map(|&i| NAMES[i]).collect::<Vec<_>>().join(", ")));
                let mut b = Buffer::with_capacity(1000);
                loop {
                    c.states += 1;
                    let want: String = seq.iter().map(|&i| t[i].as_str()).collect();
                    b.clear();
                    macro_rules! p {
                        ($t:expr, $w:expr) => {{
                            b.clear();
                            ($t).render(&mut b);
                            let w: &str = &$w;
                            c.check(b.as_str() == w, || format!("[{}] as {}: {:?}, expected {w:?}", seq.iter().map(|&i| NAMES[i]).collect::<Vec<_>>().join(", "), stringify!($t), b.as_str()));
                            c.transitions += 1;
                        }};
                    }
                    match *seq {
                        [x] => {
                            p!(Part(x), want);
                            p!(u!(Part(x)), format!("<u>{want}</u>"));
                            p!(u!(t = Part(x)), format!("<u t=\"{want}\"></u>"));
                            p!(u!({ Part(x) } = 1), format!("<u {want}=\"1\"></u>"));
                            p!(br!({ Part(x) } = Part(x)), format!("<br {want}=\"{want}\">"));
                        }
                        [x, y] => {
                            p!(frag!(Part(x), Part(y)), want);
                            p!(u!(t = Part(x), Part(y)), format!("<u t=\"{}\">{}</u>", t[x], t[y]));
                            p!(u!({ Part(x) } = Part(y), Part(x)), format!("<u {}=\"{}\">{}</u>", t[x], t[y], t[x]));
                            p!(classes!(Part(x), Part(y)), format!("{} {}", t[x], t[y]));
                            p!(iter!(",", [Part(x), Part(y)]), format!("{},{}", t[x], t[y]));
                            p!(iter!(t[x].as_str(), [Part(y), Part(y)]), format!("{}{}{}", t[y], t[x], t[y]));
                        }
                        [x, y, z] => {
                            p!(frag!(Part(x), Part(y), Part(z)), want);
                            p!(u!(t = Part(x), v = Part(y), Part(z)), format!("<u t=\"{}\" v=\"{}\">{}</u>", t[x], t[y], t[z]));
                            p!(frag!(u!(Part(x)), Part(y), br!(t = Part(z))), format!("<u>{}</u>{}<br t=\"{}\">", t[x], t[y], t[z]));
                        }
                        _ => p!(iter!(seq.iter().map(|&i| Part(i))), want),
                    }
                    if !next_seq(&mut seq, head, n) {
                        break;
                    }
                }
                seq[head..].fill(0);
            }
            if !next_seq(&mut seq[..head], 0, n) {
                break;
            }
        }
    }
    let a = c.states;
    c.count("part sequences", a);
    // every short raw text
    let al = ['"', '&', '\'', '<', '>', 'a', 'é', '\0', '\n', ';', '%', '{'];
    let max = if c.thorough { 5 } else { 4 };
    for len in 0..=max {
        let head = len.min(2);
        let mut seq = vec![0usize; len];
        loop {
            if c.take() {
                c.describe(|| format!("all raw texts of {len} characters starting with {:?}", seq[..head].iter().map(|&i| al[i]).collect::<String>()));
                loop {
                    let s: String = seq.iter().map(|&i| al[i]).collect();
                    raw_text(c, &s);
                    if !next_seq(&mut seq, head, al.len()) {
                        break;
                    }
                }
                seq[head..].fill(0);
            }
            if head == 0 || !next_seq(&mut seq[..head], 0, al.len()) {
                break;
            }
        }
    }
    for len in 0..if c.thorough { 1000usize } else { 200 } {
        for gap in [0usize, 1, 3, 7, 16, 32] {
            if !c.take() {
                continue;
            }
            c.describe(|| format!("raw text of {len} bytes, special every {gap}"));
            let s: String = (0..len).map(|i| if gap > 0 && i % gap == gap - 1 { ['<', '&', '"', '\'', '>'][i / gap % 5] } else { (b'a' + (i % 26) as u8) as char }).collect();
            raw_text(c, &s);
        }
    }
    for len in [4096usize, 16383, 16384, 16385, 100_000, 1 << 20] {
        if !c.take() {
            continue;
        }
        let s: String = (0..len).map(|i| if i % 37 == 5 { '<' } else { 'q' }).collect();
        c.describe(|| format!("raw text of {len} bytes"));
        raw_text(c, &s);
    }
    c.count("raw texts x positions", c.states - a);
}
