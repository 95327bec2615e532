//! C25: every value kind into every buffer state of a grid (prefix length x free room), and every
//! sequence of kinds up to a length in every nesting of wrappers.
use crate::kit::{bufops::next_seq, run::Ctx};
use laby::*;
use laby_common::internal::{escape, Buffer};

#[derive(Clone, Copy)]
struct V(usize);

const TEXTS: [&str; 10] = [
    "plain",
    "",
    "<",
    "fifteen <bytes>",
    "sixteen & bytes.",
    "seventeen \"bytes\"",
    "thirty-one bytes, no specials..",
    "'thirty-two bytes' with > specials",
    "a text of some more than sixty-four bytes without any specials at all in it",
    "é€😀<&>\"'ß",
];

#[laby]
fn c25comp<'a>(a: impl Render + 'a, #[default("dflt")] b: &'a str, #[rest] r: impl Render + 'a) -> impl Render + 'a {
    b!(title = a, b, r)
}

macro_rules! kinds {
    ($($e:expr),* $(,)?) => {
        impl Render for V {
            fn render(self, buf: &mut Buffer) {
                #[allow(unused_mut)]
                let mut fs: Vec<fn(&mut Buffer)> = Vec::new();
                let _ = &mut fs;
                let mut k = self.0;
                $( if k == 0 { return ($e).render(buf); } k -= 1; )*
                let _ = k;
                panic!("HARNESS: no such value")
            }
        }
        const NAMES: &[&str] = &[$(stringify!($e)),*];
    };
}

kinds!(
    TEXTS[0], TEXTS[1], TEXTS[2], TEXTS[3], TEXTS[4], TEXTS[5], TEXTS[6], TEXTS[7], TEXTS[8], TEXTS[9],
    TEXTS[7].to_string(), Some(TEXTS[5]), None::<&str>, (), true, false, 'x', '&', 'é', '\u{1F600}',
    0u8, 255u8, -128i8, u32::MAX, i64::MIN, u128::MAX, i128::MIN, usize::MAX, std::num::NonZeroI16::MIN,
    0.0f32, -0.0f64, 1e-40f32, f32::MIN, f64::MIN_POSITIVE, -1.2345678901234567e-300f64, 1e300f64, f64::NAN, f32::INFINITY, f64::NEG_INFINITY,
    format_args!("{:>9}|{}", '<', TEXTS[4]), RenderDisplay(TEXTS[7]), raw!("<raw>&"), raw!(String::from("")), raw!(TEXTS[8]), DocType::HTML5,
    iter!([1, 2, 3]), iter!(", <", ["a", "<", ""]), iter_lines!("xyz".chars()), iter!(Vec::<u8>::new()), iter!(TEXTS[8], [(), (), ()]),
    div!(), br!(), div!("text"), div!(title = TEXTS[5], class = "c", TEXTS[3], 1, br!(id = 1)), input!(disabled = bool!(true), value = 1.5, hidden = bool!(false)),
    section!(p!(p!(p!(TEXTS[2]))), frag!(), TEXTS[1]), frag!(), frag!("a", 1, "<"), classes!("a", "b", "<"), classes!(), div!(class = classes!("x", None::<&str>, "y")),
    frag_match!(match 2 { 1 => "one", 2 => b!("two"), _ => () }), frag_match!(if false { 1 }), c25comp!(a = 1), c25comp!(b = "<b>", "r1", a = TEXTS[3], "r2"),
);

fn alone(v: V) -> String {
    let mut b = Buffer::with_capacity(1 << 16);
    v.render(&mut b);
    b.into_string()
}

fn filler(n: usize) -> String {
    (0..n).map(|i| if i % 5 == 2 { '<' } else { (b'A' + (i % 26) as u8) as char }).collect()
}

pub fn run(c: &mut Ctx) {
    let n = NAMES.len();
    let al: Vec<String> = (0..n).map(|i| alone(V(i))).collect();
    let mut pres: Vec<usize> = (0..if c.thorough { 150 } else { 48 }).collect();
    pres.extend([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 16300, 16320, 16383, 16384, 16385, 32768, 65535]);
    pres.sort();
    pres.dedup();
    let spares: Vec<usize> = (0..if c.thorough { 300 } else { 100 }).chain([127, 128, 200, 255, 256, 1000]).collect();
    for v in 0..n {
        for &p in &pres {
            if !c.take() {
                continue;
            }
            c.describe(|| format!("{} after {p} bytes with every amount of room", NAMES[v]));
            let pre = filler(p);
            let want = format!("{pre}{}", al[v]);
            c.outcome(want.as_bytes());
            for &sp in &spares {
                for cleared in [false, true] {
                    let mut b = Buffer::with_capacity(p + sp);
                    if cleared {
                        b.push_str(&filler(p + sp));
                        b.clear();
                    }
                    b.push_str(&pre);
                    V(v).render(&mut b);
                    c.check(b.as_str() == want, || format!("{} rendered after {p} bytes with room for {sp}: {:?}, expected {:?} appended", NAMES[v], &b.as_str()[p.min(b.len())..], al[v]));
                    c.states += 1;
                    c.transitions += 1;
                    // and again
                    if sp % 16 == 0 {
                        V(v).render(&mut b);
                        c.check(b.as_str() == format!("{want}{}", al[v]), || format!("{} rendered twice after {p} bytes with room for {sp}: {:?}", NAMES[v], b.as_str()));
                        c.transitions += 1;
                    }
                }
            }
            // a buffer of its own block size (from a string), and a clone
            let mut b = Buffer::from(pre.clone());
            V(v).render(&mut b);
            let mut d = Buffer::from(pre.as_str()).clone();
            V(v).render(&mut d);
            c.check(b.as_str() == want && d.as_str() == want, || format!("{} rendered into a buffer made from a string of {p} bytes: {:?}", NAMES[v], b.as_str()));
            c.states += 2;
        }
    }
    let a = c.states;
    c.count("value x buffer state", a);

    // text of every length, after every prefix
    let lmax = if c.thorough { 140 } else { 72 };
    for len in 0..=lmax {
        for gap in [0usize, 1, 2, 5, 16, 17] {
            if !c.take() {
                continue;
            }
            c.describe(|| format!("text of {len} bytes, special every {gap}, after every prefix and with every room"));
            let t: String = (0..len).map(|i| if gap > 0 && i % gap == gap - 1 { ['<', '&', '"', '\'', '>'][i / gap % 5] } else { (b'a' + (i % 26) as u8) as char }).collect();
            let mut b = Buffer::with_capacity(2048);
            escape(&t, &mut b);
            let e = b.into_string();
            for p in 0..40 {
                for sp in 0..70 {
                    let mut b = Buffer::with_capacity(p + sp);
                    b.push_str(&filler(p));
                    t.as_str().render(&mut b);
                    escape(&t, &mut b);
                    c.check(b.as_str() == format!("{}{e}{e}", filler(p)), || format!("text {t:?} after {p} bytes with room for {sp}: {:?}", b.as_str()));
                    c.states += 1;
                    c.transitions += 2;
                }
            }
        }
    }
    c.count("texts x buffer state", c.states - a);
    let a = c.states;

    // concatenation
    let max = if c.thorough { 4 } else { 3 };
    for len in 1..=max {
        let mut seq = vec![0usize; len];
        loop {
            if len < 3 || seq[1..].iter().all(|&x| x == 0) {
                // one case per head
                let head = len.min(1);
                if c.take() {
                    c.describe(|| format!("sequences of {len} values starting with {}", NAMES[seq[0]]));
                    loop {
                        concat(c, &seq, &al);
                        if len < 3 || !next_seq(&mut seq, head, n) {
                            break;
                        }
                    }
                    if len >= 3 {
                        seq[1..].fill(0);
                    }
                }
                if len >= 3 {
                    seq[1..].fill(n - 1);
                }
            }
            if !next_seq(&mut seq, 0, n) {
                break;
            }
        }
    }
    c.count("concatenations", c.states - a);
}

fn concat(c: &mut Ctx, seq: &[usize], al: &[String]) {
    let want: String = seq.iter().map(|&i| al[i].as_str()).collect();
    let spaced: String = seq.iter().map(|&i| al[i].as_str()).collect::<Vec<_>>().join(" ");
    let name = || seq.iter().map(|&i| NAMES[i]).collect::<Vec<_>>().join(", ");
    let mut b = Buffer::new();
    for &i in seq {
        V(i).render(&mut b);
    }
    c.check(b.as_str() == want, || format!("[{}] rendered one after another: {:?}, expected {want:?}", name(), b.as_str()));
    c.transitions += seq.len() as u64;
    c.outcome(want.as_bytes());
    macro_rules! r {
        ($e:expr, $w:expr) => {{
            b.clear();
            ($e).render(&mut b);
            let w: &str = &$w;
            c.check(b.as_str() == w, || format!("[{}] as {}: {:?}, expected {w:?}", name(), stringify!($e), b.as_str()));
            c.states += 1;
        }};
    }
    r!(iter!(seq.iter().map(|&i| V(i))), want);
    r!(Some(iter!("", seq.iter().map(|&i| Some(V(i))))), want);
    match *seq {
        [x] => {
            r!(frag!(V(x)), want);
            r!(Some(Some(V(x))), want);
            r!(iter!([frag!(iter!([V(x)]))]), want);
            r!(classes!(V(x)), want);
            r!(u!(V(x)), format!("<u>{want}</u>"));
            r!(frag!(u!(t = V(x)), V(x)), format!("<u t=\"{want}\"></u>{want}"));
            let s = laby::render!(V(x));
            c.check(s == want, || format!("render!({}) = {s:?}", name()));
            r!(frag_match!(if true { V(x) } else { V(x) }), want);
            r!(c25comp!(a = V(x), V(x)), format!("<b title=\"{want}\">dflt{want}</b>"));
        }
        [x, y] => {
            r!(frag!(V(x), V(y)), want);
            r!(frag!(frag!(V(x)), frag!(Some(V(y)), frag!())), want);
            r!(classes!(V(x), V(y)), spaced);
            r!(u!(V(x), V(y)), format!("<u>{want}</u>"));
            r!(u!(t = frag!(V(x), V(y)), V(x)), format!("<u t=\"{want}\">{}</u>", al[x]));
            let s = laby::render!(V(x), V(y));
            c.check(s == want, || format!("render!({}) = {s:?}", name()));
            r!(c25comp!(a = (), V(x), V(y)), format!("<b title=\"\">dflt{want}</b>"));
        }
        [x, y, z] => {
            r!(frag!(V(x), frag!(V(y), V(z))), want);
            r!(classes!(V(x), V(y), V(z)), spaced);
            r!(u!(V(x), u!(V(y)), V(z)), format!("<u>{}<u>{}</u>{}</u>", al[x], al[y], al[z]));
            r!(frag!(br!(t = V(x)), u!(t = V(y), V(z))), format!("<br t=\"{}\"><u t=\"{}\">{}</u>", al[x], al[y], al[z]));
        }
        _ => {}
    }
}
