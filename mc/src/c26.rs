//! C26: scalars and wrappers. Every nesting of {present optional, absent optional, owned, borrowed}
//! up to a depth around every scalar kind, in every template position.
use crate::kit::{model, run::Ctx};
use laby::*;
use laby_common::internal::Buffer;
use std::borrow::{Borrow, Cow};
use std::num::*;

/// A user type for the borrowed-or-owned wrapper (which needs a type that renders by reference).
#[derive(Clone)]
struct User<T>(T);
impl<T: Render> Render for User<T> {
    fn render(self, b: &mut Buffer) {
        self.0.render(b)
    }
}
impl<T: Render + Clone> Render for &User<T> {
    fn render(self, b: &mut Buffer) {
        self.0.clone().render(b)
    }
}

/// An unsized user type.
#[repr(transparent)]
struct Text(str);
struct TextBuf(String);
impl ToOwned for Text {
    type Owned = TextBuf;
    fn to_owned(&self) -> TextBuf {
        TextBuf(self.0.to_owned())
    }
}
impl Borrow<Text> for TextBuf {
    fn borrow(&self) -> &Text {
        Text::new(&self.0)
    }
}
impl Text {
    fn new(s: &str) -> &Text {
        unsafe { &*(s as *const str as *const Text) }
    }
}
#[derive(Clone)]
struct Holder<'a>(Cow<'a, str>);
impl Render for Holder<'_> {
    fn render(self, b: &mut Buffer) {
        match self.0 {
            Cow::Borrowed(s) => s.render(b),
            Cow::Owned(s) => s.render(b),
        }
    }
}
impl Render for &Holder<'_> {
    fn render(self, b: &mut Buffer) {
        (&*self.0).render(b)
    }
}

#[laby]
fn c26comp<'a>(a: impl Render + 'a, #[default] b: Option<u8>, #[rest] r: impl Render + 'a) -> impl Render + 'a {
    i!(title = a, b, r)
}

fn out(r: impl Render) -> String {
    let mut b = Buffer::new();
    r.render(&mut b);
    b.into_string()
}

/// `v` must be the value to render `e` in every position.
fn positions<T: Render + Clone>(c: &mut Ctx, name: &dyn Fn() -> String, v: T, e: &str) {
    macro_rules! p {
        ($t:expr, $fmt:literal) => {{
            let got = out($t);
            let want = format!($fmt, e = e);
            if got != want {
                c.fail(format!("{} in position {}: {got:?}, expected {want:?}", name(), stringify!($t)));
            }
            c.transitions += 1;
        }};
    }
    c.states += 1;
    let v = || v.clone();
    p!(v(), "{e}");
    p!(s!(v()), "<s>{e}</s>");
    p!(s!(v(), "x"), "<s>{e}x</s>");
    p!(s!("x", v()), "<s>x{e}</s>");
    p!(s!("x", v(), v(), "y"), "<s>x{e}{e}y</s>");
    p!(s!(t = v()), "<s t=\"{e}\"></s>");
    p!(s!(a = 1, t = v(), b = v(), v()), "<s a=\"1\" t=\"{e}\" b=\"{e}\">{e}</s>");
    p!(s!({ v() } = 1), "<s {e}=\"1\"></s>");
    p!(s!({ v() } = v(), b = "c"), "<s {e}=\"{e}\" b=\"c\"></s>");
    p!(s!({ v() } = bool!(true), b = "c"), "<s {e} b=\"c\"></s>");
    p!(br!(t = v()), "<br t=\"{e}\">");
    p!(frag!(v()), "{e}");
    p!(frag!("x", v(), frag!(v(), "y")), "x{e}{e}y");
    p!(classes!("x", v(), "y"), "x {e} y");
    p!(classes!(v()), "{e}");
    p!(s!(class = classes!(v(), "x")), "<s class=\"{e} x\"></s>");
    p!(iter!([v(), v()]), "{e}{e}");
    p!(iter!("-", [v(), v(), v()]), "{e}-{e}-{e}");
    p!(iter!(std::iter::once(s!(v()))), "<s>{e}</s>");
    p!(c26comp!(a = v()), "<i title=\"{e}\"></i>");
    p!(c26comp!(b = Some(7), v(), a = v(), v()), "<i title=\"{e}\">7{e}{e}</i>");
    p!(frag_match!(if true { v() } else { "no" }), "{e}");
    p!(frag_match!(match 1 { 0 => "no", _ => s!(v()) }), "<s>{e}</s>");
    let got = laby::render!(v(), 1, v());
    let want = format!("{e}1{e}");
    c.check(got == want, || format!("{} in render!: {got:?}, expected {want:?}", name()));
    c.outcome(e.as_bytes());
}

/// The value inside every wrapper, one more level at a time.
macro_rules! level {
    ($name:ident, $next:ident) => {
        fn $name<T: Render + Clone>(c: &mut Ctx, name: &dyn Fn() -> String, v: T, e: &str) {
            positions(c, name, v.clone(), e);
            $next(c, &|| format!("Some({})", name()), Some(v.clone()), e);
            $next(c, &|| format!("None in place of Some({})", name()), None::<T>, "");
            $next(c, &|| format!("Cow::Owned({})", name()), Cow::<User<T>>::Owned(User(v.clone())), e);
            let u = User(v);
            $next(c, &|| format!("Cow::Borrowed({})", name()), Cow::Borrowed(&u), e);
        }
    };
}
level!(level1, positions);
level!(level2, level1);
level!(level3, level2);

pub fn run(c: &mut Ctx) {
    macro_rules! base {
        ($level:ident; $($e:expr => $t:expr),* $(,)?) => {$(
            if c.take() {
                c.describe(|| format!("{} in every wrapper and position", stringify!($e)));
                let t = String::from($t);
                $level(c, &|| stringify!($e).to_string(), $e, &t);
            }
        )*};
    }
    base!(level3;
        () => "",
        true => "true",
        "<x>" => "&lt;x&gt;",
    );
    base!(level2;
        false => "false",
        NonZeroU8::new(200).unwrap() => "200",
        String::from("a \"string\" of more than sixteen bytes") => "a &quot;string&quot; of more than sixteen bytes",
        '&' => "&amp;",
        -5i64 => "-5",
    );
    base!(level1;
        "" => "",
        String::new() => "",
        'x' => "x",
        '\u{1F600}' => "\u{1F600}",
        0u8 => "0", u8::MAX => "255", i8::MIN => "-128", u16::MAX => "65535", i16::MIN => "-32768", u32::MAX => "4294967295", i32::MIN => "-2147483648",
        u64::MAX => "18446744073709551615", i64::MIN => "-9223372036854775808", usize::MAX => "18446744073709551615", isize::MIN => "-9223372036854775808",
        u128::MAX => "340282366920938463463374607431768211455", i128::MIN => "-170141183460469231731687303715884105728",
        NonZeroI8::MIN => "-128", NonZeroU16::MAX => "65535", NonZeroI16::MIN => "-32768", NonZeroU32::MAX => "4294967295", NonZeroI32::MIN => "-2147483648",
        NonZeroU64::MAX => "18446744073709551615", NonZeroI64::MIN => "-9223372036854775808", NonZeroUsize::MAX => "18446744073709551615", NonZeroIsize::MIN => "-9223372036854775808",
        NonZeroU128::MAX => "340282366920938463463374607431768211455", NonZeroI128::MIN => "-170141183460469231731687303715884105728",
        1.5f32 => "1.5", -0.25f64 => "-0.25",
        raw!("<r>") => "<r>",
        iter!(",", vec![1, 2]) => "1,2",
        RenderDisplay("<d>") => "&lt;d&gt;",
    );
    // every value of the small types, through every wrapper, as a child
    macro_rules! small {
        ($($t:ident),*) => {$(
            for v in $t::MIN..=$t::MAX {
                if (v as i64) & 0xff == 0 {
                    if c.take() {
                        c.describe(|| format!("all {} values from {v}", stringify!($t)));
                    } else { continue }
                    let mut x = v;
                    loop {
                        let e = if v as i64 >= 0 { dec(x as i64) } else { dec(x as i64) };
                        let u = User(x);
                        let got = out(s!(x, Some(x), Some(Some(x)), Cow::<User<$t>>::Owned(User(x)), Some(Cow::Borrowed(&u)), t = x));
                        let want = format!("<s t=\"{e}\">{e}{e}{e}{e}{e}</s>");
                        c.check(got == want, || format!("{} {x}: {got:?}, expected {want:?}", stringify!($t)));
                        c.states += 1;
                        c.transitions += 6;
                        if (x as i64) & 0xff == 0xff || x == $t::MAX { break }
                        x += 1;
                    }
                }
            }
        )*};
    }
    small!(u8, i8, u16, i16);
    macro_rules! nz {
        ($($t:ident $n:ident),*) => {$(
            if c.take() {
                c.describe(|| format!("all {} values", stringify!($n)));
                for x in $t::MIN..=$t::MAX {
                    let Some(z) = $n::new(x) else {
                        c.check(out($n::new(x)) == "", || "an absent non-zero value renders as something".into());
                        continue;
                    };
                    let e = dec(x as i64);
                    let got = out(s!(z, Some(z), t = $n::new(x), Cow::<User<$n>>::Owned(User(z)), { z } = z));
                    let want = format!("<s t=\"{e}\" {e}=\"{e}\">{e}{e}{e}</s>");
                    c.check(got == want, || format!("{} {x}: {got:?}, expected {want:?}", stringify!($n)));
                    c.states += 1;
                    c.transitions += 6;
                }
            }
        )*};
    }
    nz!(u8 NonZeroU8, i8 NonZeroI8, u16 NonZeroU16, i16 NonZeroI16);
    // every char
    for block in 0..0x110u32 {
        if !c.take() {
            continue;
        }
        c.describe(|| format!("characters from {:#x}", block << 12));
        for x in block << 12..(block + 1) << 12 {
            let Some(ch) = char::from_u32(x) else { continue };
            let mut e = String::new();
            model::escape_char(ch, &mut e);
            let got = out(frag!(ch, Some(ch), Cow::<User<char>>::Owned(User(ch))));
            c.check(got == format!("{e}{e}{e}"), || format!("character {x:#x}: {got:?}"));
            c.states += 1;
            c.transitions += 3;
        }
    }
    // all combinations of presence over several optional values
    if c.take() {
        c.describe(|| "every presence pattern of six optional values".into());
        for m in 0..64u32 {
            let o = |i: u32, v: &'static str| (m >> i & 1 == 1).then_some(v);
            let w = |i: u32, v: &'static str| if m >> i & 1 == 1 { v } else { "" };
            let got = out(s!(a = o(0, "A"), o(1, "B"), Some(o(2, "C")), b = Some(o(3, "D")), frag!(o(4, "E"), o(5, "F")), classes!(o(1, "B"), o(2, "C"))));
            let want = format!("<s a=\"{}\" b=\"{}\">{}{}{}{}{} {}</s>", w(0, "A"), w(3, "D"), w(1, "B"), w(2, "C"), w(4, "E"), w(5, "F"), w(1, "B"), w(2, "C"));
            c.check(got == want, || format!("presence pattern {m:#b}: {got:?}, expected {want:?}"));
            c.states += 1;
        }
    }
    // unsized borrowed values
    if c.take() {
        c.describe(|| "borrowed-or-owned values of unsized and lifetime-bound user types".into());
        struct R<'a>(&'a Text);
        let _ = R(Text::new(""));
        for len in 0..60usize {
            let s: String = (0..len).map(|i| if i % 5 == 4 { '<' } else { 'b' }).collect();
            let e = model::escape(&s);
            for owned in [false, true] {
                let h = || Holder(if owned { Cow::Owned(s.clone()) } else { Cow::Borrowed(&s) });
                let hh = h();
                let got = out(s!(t = Cow::Borrowed(&hh), Cow::<Holder>::Owned(h()), Some(h())));
                c.check(got == format!("<s t=\"{e}\">{e}{e}</s>"), || format!("borrowed-or-owned text {s:?}: {got:?}"));
                c.states += 1;
            }
            let t: &Text = Text::new(&s);
            assert!(t.to_owned().0 == s);
        }
    }
}

fn dec(v: i64) -> String {
    let mut m = v.unsigned_abs();
    let mut d = vec![];
    loop {
        d.push(b'0' + (m % 10) as u8);
        m /= 10;
        if m == 0 {
            break;
        }
    }
    if v < 0 {
        d.push(b'-');
    }
    d.reverse();
    String::from_utf8(d).unwrap()
}
