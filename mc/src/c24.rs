//! C24: every interruption point of a set of templates. All values placed in a template are
//! probes that count their drops; every expression evaluation, every start, middle and end of a
//! value's rendering, every advance of an iterator, every piece written by a formatter and every
//! conversion of a delimiter or raw value is an event at which a panic can be raised.
use crate::kit::{alloc, run::Ctx};
use laby::*;
use laby_common::internal::Buffer;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static EVENTS: Cell<usize> = const { Cell::new(0) };
    static PANIC_AT: Cell<usize> = const { Cell::new(usize::MAX) };
    /// drops per probe
    static DROPS: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
    /// buffer length at every event that sees the buffer
    static LENS: RefCell<Vec<Option<usize>>> = const { RefCell::new(Vec::new()) };
    static AT_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn event(b: Option<&Buffer>) {
    let hit = alloc::off(|| {
        let k = EVENTS.get();
        EVENTS.set(k + 1);
        LENS.with_borrow_mut(|l| l.push(b.map(|b| b.len())));
        if k == PANIC_AT.get() {
            AT_PANIC.set(b.map(|b| b.as_str().to_string()));
        }
        k == PANIC_AT.get()
    });
    if hit {
        std::panic::resume_unwind(Box::new(0xABu8));
    }
}

/// A value that must be dropped exactly once.
struct P {
    id: usize,
    #[allow(dead_code)]
    heap: Box<u64>,
}

fn fresh() -> P {
    let id = alloc::off(|| {
        DROPS.with_borrow_mut(|d| {
            d.push(0);
            d.len() - 1
        })
    });
    P { id, heap: Box::new(id as u64) }
}

/// An embedded expression: may panic, else yields a new probe.
fn p() -> P {
    event(None);
    fresh()
}

impl Drop for P {
    fn drop(&mut self) {
        DROPS.with_borrow_mut(|d| d[self.id] += 1);
    }
}

impl Render for P {
    fn render(self, b: &mut Buffer) {
        event(Some(b));
        b.push_str("<p");
        event(Some(b));
        (self.id as u32).render(b);
        '>'.render(b);
        event(Some(b));
    }
}

impl AsRef<str> for P {
    fn as_ref(&self) -> &str {
        event(None);
        "<as ref>"
    }
}

impl fmt::Display for P {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        event(None);
        f.write_str("d&")?;
        event(None);
        write!(f, "{}", self.id)?;
        event(None);
        f.write_str(";")
    }
}

#[derive(Clone)]
struct User;
impl Render for User {
    fn render(self, b: &mut Buffer) {
        p().render(b)
    }
}
impl Render for &User {
    fn render(self, b: &mut Buffer) {
        p().render(b)
    }
}

/// An iterator of probes that owns further probes.
struct Items {
    left: usize,
    own: P,
    held: Vec<P>,
}
fn items(n: usize) -> Items {
    Items { left: n, own: p(), held: alloc::off(Vec::new) }
}
impl Iterator for Items {
    type Item = P;
    fn next(&mut self) -> Option<P> {
        let _ = &self.own;
        event(None);
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let h = fresh();
        alloc::off(|| self.held.push(h));
        Some(p())
    }
}
impl Drop for Items {
    fn drop(&mut self) {
        let v = std::mem::take(&mut self.held);
        for x in v.iter() {
            let _ = x;
        }
        // the vector's own block was obtained with the instrumented mode off
        let mut v = v;
        while let Some(x) = v.pop() {
            drop(x);
        }
        alloc::off(|| drop(v));
    }
}

fn flag(v: bool) -> bool {
    event(None);
    v
}
fn owned() -> String {
    event(None);
    let mut s = String::with_capacity(40);
    s.push_str("owned <text> that is longer than a block");
    s
}

#[laby]
fn comp(a: impl Render, #[default(p())] b: impl Render, #[rest] rest: impl Render) -> impl Render {
    let c = p();
    article!(title = a, b, c, rest)
}
#[laby]
fn outer(x: P, #[default] y: Option<P>) -> impl Render {
    frag!(y, comp!(a = x, p(), p()), comp!(a = p(), b = p()))
}

fn begin(at: usize) {
    EVENTS.set(0);
    PANIC_AT.set(at);
    alloc::off(|| {
        DROPS.with_borrow_mut(|d| d.clear());
        LENS.with_borrow_mut(|l| l.clear());
        AT_PANIC.set(None);
    });
    alloc::reset_counts();
}

fn drops_ok(c: &mut Ctx, what: &dyn Fn() -> String) {
    let bad = DROPS.with_borrow(|d| d.iter().enumerate().find(|(_, &n)| n != 1).map(|(i, &n)| (i, n)));
    if let Some((i, n)) = bad {
        alloc::off(|| c.fail(format!("{}: value number {i} was dropped {n} times", what())));
    }
}

fn heap_ok(c: &mut Ctx, what: &dyn Fn() -> String) {
    let k = alloc::counts();
    c.check(k.live == 0 && k.bytes == 0, || format!("{}: {} heap blocks not released", what(), k.live));
    c.check_alloc(|| what());
}

fn shape<R: Render>(c: &mut Ctx, name: &str, f: impl Fn() -> R) {
    shape2(c, name, |b| f().render(b), |_| drop(f()))
}

/// `go` constructs and renders into the buffer; `construct` constructs and drops.
fn shape2(c: &mut Ctx, name: &str, go: impl Fn(&mut Buffer), construct: impl Fn(&mut Buffer)) {
    if !c.take() {
        return;
    }
    let mode = alloc::GUARD;
    for pre in ["", "pre<>", "a prefix that is longer than the first block of the buffer is wide: 0123456789"] {
        for cap in [0usize, 1, 4096] {
            // undisturbed
            let mut full = String::new();
            let n = alloc::with(mode, || {
                begin(usize::MAX);
                {
                    let mut b = Buffer::with_capacity(cap);
                    b.push_str(pre);
                    go(&mut b);
                    alloc::off(|| full.push_str(b.as_str()));
                }
                let n = EVENTS.get();
                drops_ok(c, &|| format!("{name}, rendered"));
                heap_ok(c, &|| format!("{name}, rendered"));
                n
            });
            let lens: Vec<Option<usize>> = LENS.with_borrow(|l| l.clone());
            c.check(full.starts_with(pre), || format!("{name}: existing contents changed"));
            c.describe(|| format!("{name}: {n} interruption points, undisturbed output {full:?}"));
            c.count("interruption points", n as u64);
            c.outcome(full.as_bytes());
            // constructed and dropped, with every interruption
            alloc::with(mode, || {
                begin(usize::MAX);
                construct(&mut Buffer::new());
                let nc = EVENTS.get();
                drops_ok(c, &|| format!("{name}, dropped without rendering"));
                heap_ok(c, &|| format!("{name}, dropped without rendering"));
                for k in 0..nc {
                    begin(k);
                    let r = catch_unwind(AssertUnwindSafe(|| construct(&mut Buffer::new())));
                    let broke = r.is_err();
                    drop(r);
                    c.check(broke, || format!("{name}: the panic at event {k} of the construction did not surface"));
                    drops_ok(c, &|| format!("{name}, construction interrupted at event {k}"));
                    heap_ok(c, &|| format!("{name}, construction interrupted at event {k}"));
                    c.states += 1;
                    c.transitions += k as u64 + 1;
                }
                c.states += 1;
            });
            // interrupted at every event
            for k in 0..n {
                alloc::with(mode, || {
                    begin(k);
                    let what = |s: &str| format!("{name}, into a buffer of capacity {cap} holding {pre:?}, interrupted at event {k} of {n}: {s}");
                    {
                        let mut b = Buffer::with_capacity(cap);
                        b.push_str(pre);
                        let r = catch_unwind(AssertUnwindSafe(|| go(&mut b)));
                        let broke = r.is_err();
                        drop(r);
                        PANIC_AT.set(usize::MAX);
                        alloc::off(|| {
                            c.check(broke, || what("the panic did not surface"));
                            c.check(std::str::from_utf8(b.as_str().as_bytes()).is_ok(), || what("the buffer is not valid text"));
                            let got = b.as_str().to_string();
                            c.check(full.starts_with(&got), || what(&format!("buffer holds {got:?}, which is not a beginning of {full:?}")));
                            if name.starts_with("render!") {
                                c.check(got == pre || got == full, || what(&format!("buffer holds {got:?}")));
                            } else if let Some(s) = AT_PANIC.take() {
                                c.check(s == got, || what(&format!("buffer holds {got:?}, but {s:?} was rendered")));
                            } else {
                                let lo = lens[..k].iter().rev().flatten().next().copied().unwrap_or(pre.len());
                                let hi = lens[k..].iter().flatten().next().copied().unwrap_or(full.len());
                                c.check(lo <= got.len() && got.len() <= hi, || what(&format!("buffer holds {got:?}, but {} to {hi} bytes were rendered", lo)));
                            }
                        });
                        drops_ok(c, &|| what("after unwinding"));
                        // further use
                        let got = alloc::off(|| b.as_str().to_string());
                        if k % 3 == 0 {
                            b.push_str("<more>");
                            let d = b.clone();
                            alloc::off(|| c.check(d.as_str() == b.as_str() && d.as_str() == format!("{got}<more>"), || what(&format!("further use gave {:?}", d.as_str()))));
                        } else if k % 3 == 1 {
                            go(&mut b);
                            alloc::off(|| c.check(b.as_str().starts_with(&got) && b.len() > got.len() || full == pre, || what(&format!("rendering again gave {:?}", b.as_str()))));
                        } else {
                            let s = b.into_string();
                            alloc::off(|| c.check(s == got, || what(&format!("conversion gave {s:?}"))));
                            drop(s);
                        }
                        alloc::off(|| drop(got));
                    }
                    drops_ok(c, &|| what("after further use"));
                    heap_ok(c, &|| what("in the end"));
                });
                c.states += 1;
                c.traces += 1;
                c.transitions += k as u64 + 1;
            }
        }
    }
}

macro_rules! shapes {
    ($c:expr; $($e:expr),* $(,)?) => { $( shape($c, stringify!($e), || $e); )* };
}

pub fn run(c: &mut Ctx) {
    shapes!(c;
        p(),
        div!(),
        div!(p()),
        div!(p(), p(), p()),
        div!(title = p()),
        div!(title = p(), class = p(), p(), p()),
        div!(p(), title = p(), p(), class = p(), p()),
        div!({p()} = p()),
        div!({p()} = {p()}, (p()) = "x", p()),
        div!({p()} = bool!(flag(true)), hidden = bool!(flag(false)), "x" = bool!(flag(true)), p()),
        div!({p()} = bool!(flag(false)), p()),
        div!(hidden = bool!(true), title = p(), class = bool!(false)),
        input!(value = p(), r#type = p()),
        br!({p()} = p()),
        div!(div!(div!(div!(p()), p()), p()), p()),
        html!(head!(title!(p())), body!(class = p(), main!(p(), hr!(id = p())), footer!(p()))),
        frag!(),
        frag!(p()),
        frag!(p(), "x", p(), 1, p()),
        frag!(frag!(p(), frag!(p())), frag!(), p()),
        classes!(p()),
        classes!(p(), "x", p(), classes!(p(), p())),
        div!(class = classes!(p(), "a", p()), p()),
        div!(title = frag!(p(), p())),
        iter!(items(0)),
        iter!(items(3)),
        iter!(p(), items(0)),
        iter!(p(), items(1)),
        iter!(p(), items(3)),
        iter_lines!(items(2)),
        iter!(",", items(3)),
        iter!(vec![p(), p(), p()]),
        iter!(p(), [p(), p(), p()]),
        iter!(items(2).map(|x| li!(x, p()))),
        iter!(p(), items(2).flat_map(|x| [Some(x), None, Some(p())])),
        ul!(iter!("-", items(2).map(|x| li!(title = p(), x))), p()),
        div!(title = iter!(p(), items(2)), iter!(items(2))),
        iter!((0..2).map(|_| iter!(p(), items(2)))),
        raw!(p()),
        div!(raw!(p()), title = raw!(p()), p()),
        RenderDisplay(p()),
        div!(RenderDisplay(p()), title = RenderDisplay(p()), p()),
        iter!(p(), [RenderDisplay(p()), RenderDisplay(p())]),
        Some(p()),
        Some(Some(p())),
        None::<P>,
        div!(Some(p()), None::<P>, (), p()),
        Cow::<User>::Owned(User),
        div!(Cow::Borrowed(&User), Cow::<User>::Owned(User), p()),
        owned(),
        div!(owned(), title = owned(), p(), {owned()} = owned()),
        frag!(owned(), raw!(owned()), iter!(owned(), [owned(), owned()]), RenderDisplay(owned())),
        frag_match!(if flag(true) { p() } else { owned() }),
        frag_match!(if flag(false) { p() } else { owned() }),
        frag_match!(if flag(false) { p() }),
        frag_match!(if flag(true) { frag!(p(), p()) } else if flag(true) { p() }),
        frag_match!(match p().id % 3 { 0 => p(), 1 => b!(p()), _ => owned() }),
        frag_match!(match Some(p()) { Some(x) if flag(false) => x, Some(x) => div!(x, p()), None => p() }),
        div!(frag_match!(match (p(), p()) { (a, b) => frag!(b, a) }), p()),
        div!(title = frag_match!(match flag(false) { true => p(), false => i!(p()) }), frag_match!(if let Some(x) = Some(p()) { x })),
        comp!(a = p()),
        comp!(a = p(), b = p()),
        comp!(p(), a = p(), p(), b = p(), p()),
        div!(comp!(a = comp!(a = p(), p()), p()), p()),
        outer!(x = p()),
        outer!(y = Some(p()), x = p()),
        outer!(x = p(), y = Some(p()), x = p()),
        div!(outer!(x = p()), title = comp!(a = p(), comp!(a = owned())), p()),
        {
            let x = p();
            let y = div!(p());
            section!(y, x, { let z = p(); z }, (p()))
        },
        move_through(div!(p(), title = p())),
        [div!(p())].into_iter().map(Some).next().unwrap(),
        span!(p(), if flag(true) { Some(p()) } else { None }, match p().id { 0 => None, _ => Some(p()) }),
        (|| Some(div!(p(), title = p(), { if flag(false) { owned() } else { return None; } })))(),
        table!(tr!(td!(p()), td!(p()), td!(p()), td!(p())), tr!(td!(p()), td!(p()), td!(p()), td!(p())), tr!(td!(p()), td!(p()), td!(p()), td!(p()))),
        div!(p(), p(), p(), p(), p(), p(), p(), p(), p(), p(), p(), p(), p(), p(), p(), p(), p(), p(), p(), p()),
        div!(a = p(), b = p(), c = p(), d = p(), e = p(), f = p(), g = p(), h = p(), i = p(), j = p(), k = p(), l = p()),
    );
    // format arguments borrow the probes
    macro_rules! fmt_shapes {
        ($($e:expr),* $(,)?) => {$(
            shape2(c, stringify!($e), |b| $e.render(b), |_| drop($e));
        )*};
    }
    fmt_shapes!(
        format_args!("{}", p()),
        format_args!("<{}> and {}", p(), p()),
        format_args!("{:>40}|{}", owned(), p()),
        div!(format_args!("{}", p()), p(), title = format_args!("{}", p())),
        frag!(p(), format_args!("{}{}", p(), owned()), p()),
        Some(format_args!("{}", format_args!("{}", p()))),
    );
    // the render! macro: the buffer is lost with the panic, the values are not
    macro_rules! render_shapes {
        ($($e:expr),* $(,)?) => {$(
            shape2(c, concat!("render!(", stringify!($e), ")"), |b| { let s = laby::render!($e); b.push_str(&s); event(Some(b)) }, |_| ());
        )*};
    }
    render_shapes!(div!(p(), p()), p(), ul!(iter!(p(), items(2))), comp!(a = p(), p()), owned());
    shape2(
        c,
        "render!(p(), div!(p()), owned())",
        |b| {
            let s = laby::render!(p(), div!(p()), owned());
            b.push_str(&s);
            event(Some(b))
        },
        |_| (),
    );
    let n = c.states;
    c.count("interrupted runs and interrupted constructions", n);
}

fn move_through<R: Render>(r: R) -> impl Render {
    let b = Box::new(Some(r));
    *b
}
