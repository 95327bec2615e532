//! C21: every answer script of an iterator up to a length (including iterators that answer again
//! after their end), every short sequence of item kinds, every std iterator shape, long streams.
use crate::kit::{bufops::next_seq, model, run::Ctx};
use laby::{iter, iter_lines, raw, RenderIterator, RenderIteratorDelimited};
use laby_common::internal::Buffer;
use laby_common::Render;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Default)]
struct Log {
    next_calls: usize,
    yielded: usize,
    rendered: Vec<usize>,
    /// largest number of items that were drawn but not yet rendered when another was drawn
    ahead: usize,
}

struct Item {
    id: usize,
    kind: usize,
    log: Rc<RefCell<Log>>,
}

const TEXTS: [&str; 4] = ["a", "<&>", "", "a longer item, with \"quotes\" and 'more' of <them>"];

fn item_text(id: usize, kind: usize) -> String {
    match kind {
        0..=3 => model::escape(TEXTS[kind]),
        4 => format!("{id}"),
        5 => "&#39;".into(),
        6 => "".into(),
        7 => format!("<li class=\"&amp;\">{id}<br></li>"),
        8 => "0, 1, 2".into(),
        _ => "<raw>".into(),
    }
}
const KINDS: usize = 10;

impl Render for Item {
    fn render(self, b: &mut Buffer) {
        self.log.borrow_mut().rendered.push(self.id);
        match self.kind {
            k @ 0..=2 => TEXTS[k].render(b),
            3 => TEXTS[3].to_string().render(b),
            4 => self.id.render(b),
            5 => '\''.render(b),
            6 => None::<&str>.render(b),
            7 => laby::li!(class = "&", self.id, laby::br!()).render(b),
            8 => iter!(", ", 0..3).render(b),
            _ => raw!("<raw>").render(b),
        }
    }
}

/// Answers `next` from a script, then None forever.
#[derive(Clone)]
struct Script {
    answers: Vec<Option<usize>>,
    pos: usize,
    hint: usize,
    log: Rc<RefCell<Log>>,
}

impl Script {
    fn left(&self) -> usize {
        self.answers[self.pos.min(self.answers.len())..].iter().take_while(|a| a.is_some()).count()
    }
}

impl Iterator for Script {
    type Item = Item;
    fn next(&mut self) -> Option<Item> {
        let mut l = self.log.borrow_mut();
        l.next_calls += 1;
        let pending = l.yielded - l.rendered.len();
        l.ahead = l.ahead.max(pending);
        let a = self.answers.get(self.pos).copied().flatten();
        self.pos += 1;
        a.map(|kind| {
            let id = l.yielded;
            l.yielded += 1;
            Item { id, kind, log: self.log.clone() }
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.left();
        match self.hint {
            0 => (0, None),
            1 => (n, Some(n)),
            2 => (n.min(1), None),
            3 => (0, Some(n + 5)),
            _ => (n / 2, Some(n * 2)),
        }
    }
}

/// An IntoIterator that is not itself an iterator and notes when it is converted.
struct Lazy(Script, Rc<RefCell<bool>>);
impl IntoIterator for Lazy {
    type Item = Item;
    type IntoIter = Script;
    fn into_iter(self) -> Script {
        *self.1.borrow_mut() = true;
        self.0
    }
}

struct Del(&'static str);
impl AsRef<str> for Del {
    fn as_ref(&self) -> &str {
        self.0
    }
}

fn rendered(r: impl Render) -> String {
    let mut b = Buffer::new();
    b.push_str("^");
    r.render(&mut b);
    b.push_str("$");
    b.into_string()
}

const FORMS: usize = 16;
/// Builds and renders the wrapper in one of the supported ways; `built` runs between construction
/// and rendering. Returns the output and the delimiter used, if any.
fn run_form(form: usize, it: Lazy, del: &'static str, built: &mut dyn FnMut()) -> (String, Option<&'static str>) {
    macro_rules! go {
        ($e:expr, $d:expr) => {{
            let x = $e;
            built();
            let s = rendered(x);
            (s[1..s.len() - 1].to_string(), $d)
        }};
        (wrap $e:expr, $d:expr, $a:literal, $z:literal) => {{
            let x = $e;
            built();
            let s = rendered(x);
            let t = s.strip_prefix(concat!("^", $a)).and_then(|s| s.strip_suffix(concat!($z, "$")));
            (t.map(|t| t.to_string()).unwrap_or(format!("[{}]", s)), $d)
        }};
    }
    match form {
        0 => go!(RenderIterator(it), None),
        1 => go!(iter!(it), None),
        2 => go!(RenderIterator::from(it), None),
        3 => go!(RenderIteratorDelimited(it, del), Some(del)),
        4 => go!(iter!(del, it), Some(del)),
        5 => go!(iter!(del.to_string(), it), Some(del)),
        6 => go!(iter!(Del(del), it), Some(del)),
        7 => go!(iter_lines!(it), Some("\n")),
        8 => go!(wrap laby::ul!(iter!(it)), None, "<ul>", "</ul>"),
        9 => go!(wrap laby::ul!(title = iter!(del, it)), Some(del), "<ul title=\"", "\"></ul>"),
        10 => go!(wrap laby::frag!("x", iter!(del, it), "y"), Some(del), "x", "y"),
        11 => go!(wrap laby::classes!("x", iter!(it), "y"), None, "x ", " y"),
        12 => go!(Some(iter!(Cow::from(del), it)), Some(del)),
        13 => go!(iter!(std::iter::once(iter!(del, it))), Some(del)),
        14 => go!(iter!("-", Some(iter!(del, it))), Some(del)),
        _ => go!(iter!(Box::<str>::from(del), it.0.into_iter()), Some(del)),
    }
}

const DELS: [&str; 5] = [",", "", "<br/>&", "a delimiter that is longer than any item in here <&>", "é\u{1F600}"];

fn script_case(c: &mut Ctx, answers: &[Option<usize>], hint: usize, form: usize, del: &'static str) {
    c.states += 1;
    let log = Rc::new(RefCell::new(Log::default()));
    let conv = Rc::new(RefCell::new(false));
    let it = Lazy(Script { answers: answers.to_vec(), pos: 0, hint, log: log.clone() }, conv.clone());
    let what = || {
        let a: Vec<String> = answers.iter().map(|a| a.map_or("None".into(), |k| format!("Some(#{k})"))).collect();
        format!("iterator answering [{}], hint {hint}, wrapper form {form}, delimiter {del:?}", a.join(", "))
    };
    let mut early = (0, 0);
    let (out, d) = run_form(form, it, del, &mut || early = (log.borrow().next_calls, log.borrow().rendered.len()));
    let n = answers.iter().take_while(|a| a.is_some()).count();
    let parts: Vec<String> = (0..n).map(|i| item_text(i, answers[i].unwrap())).collect();
    let want = parts.join(d.unwrap_or(""));
    c.check(early == (0, 0), || format!("{}: advanced {} times before rendering", what(), early.0));
    c.check(out == want, || format!("{}: output {out:?}, expected {want:?}", what()));
    let l = log.borrow();
    c.check(l.rendered.iter().copied().eq(0..n), || format!("{}: items rendered {:?}, expected each of 0..{n} once", what(), l.rendered));
    c.check(l.ahead <= 1, || format!("{}: {} items were drawn before the first of them was rendered", what(), l.ahead + 1));
    c.transitions += l.next_calls as u64 + n as u64;
    c.outcome(out.as_bytes());
}

fn std_iters(c: &mut Ctx) {
    let n_max = if c.thorough { 40 } else { 12 };
    for n in 0..=n_max {
        for (di, &del) in DELS.iter().enumerate() {
            if !c.take() {
                continue;
            }
            c.describe(|| format!("standard iterators over {n} items with delimiter {del:?}"));
            let items: Vec<String> = (0..n).map(|i| format!("{i}<{}", "z".repeat(i * 3 % 17))).collect();
            let esc: Vec<String> = items.iter().map(|s| model::escape(s)).collect();
            macro_rules! t {
                ($name:literal, $it:expr, $exp:expr) => {{
                    let exp: Vec<String> = $exp;
                    for plain in [true, false] {
                        let got = if plain { rendered(iter!($it)) } else { rendered(iter!(del, $it)) };
                        let want = format!("^{}$", exp.join(if plain { "" } else { del }));
                        c.check(got == want, || format!("{} over {n} items, {}: {got:?}, expected {want:?}", $name, if plain { "no delimiter".into() } else { format!("delimiter {del:?}") }));
                        c.states += 1;
                        c.transitions += n as u64;
                    }
                }};
            }
            let rev = || esc.iter().rev().cloned().collect::<Vec<_>>();
            let nums = |a: usize, b: usize| (a..b).map(|i| i.to_string()).collect::<Vec<_>>();
            t!("Vec<String>", items.clone(), esc.clone());
            t!("Vec of str", items.iter().map(|s| s.as_str()).collect::<Vec<&str>>(), esc.clone());
            t!("boxed slice", items.clone().into_boxed_slice().into_vec(), esc.clone());
            t!("VecDeque", items.clone().into_iter().collect::<std::collections::VecDeque<_>>(), esc.clone());
            t!("LinkedList", items.clone().into_iter().collect::<std::collections::LinkedList<_>>(), esc.clone());
            t!("BTreeSet", (0..n).collect::<std::collections::BTreeSet<_>>(), nums(0, n));
            t!("rev", items.clone().into_iter().rev(), rev());
            t!("range", 0..n, nums(0, n));
            t!("inclusive range", 1..=n, nums(1, n + 1));
            t!("filter", (0..n).filter(|i| i % 3 != 1), (0..n).filter(|i| i % 3 != 1).map(|i| i.to_string()).collect());
            t!("map", (0..n).map(|i| laby::b!(i)), (0..n).map(|i| format!("<b>{i}</b>")).collect());
            t!("chain", (0..n).chain(n..n + 2), nums(0, n + 2));
            t!("flat_map", (0..n).flat_map(|i| vec![i; 2]), (0..n).flat_map(|i| vec![i.to_string(); 2]).collect());
            t!("skip and take", (0..n + 5).skip(2).take(n), nums(2, 2 + n));
            t!("step_by", (0..n).step_by(3), (0..n).step_by(3).map(|i| i.to_string()).collect());
            t!("peekable", { let mut p = (0..n).peekable(); p.peek(); p }, nums(0, n));
            t!("take_while", (0..).take_while(|&i| i < n), nums(0, n));
            t!("from_fn", { let mut i = 0; std::iter::from_fn(move || { i += 1; (i <= n).then_some(i) }) }, nums(1, n + 1));
            t!("successors", std::iter::successors((n > 0).then_some(1usize), |&i| (i < n).then_some(i + 1)), nums(1, n + 1));
            t!("repeat_n", std::iter::repeat("<").take(n), vec!["&lt;".to_string(); n]);
            t!("boxed dyn", Box::new(items.clone().into_iter()) as Box<dyn Iterator<Item = String>>, esc.clone());
            t!("by mutable reference", &mut items.clone().into_iter(), esc.clone());
            t!("chars", "a<é&"[..].chars().cycle().take(n), "a<é&".chars().cycle().take(n).map(|x| model::escape(&x.to_string())).collect());
            t!("split", ";".repeat(n).split(';').map(|s| s.to_string()).collect::<Vec<_>>(), vec![String::new(); n + 1]);
            t!("options as items", (0..n).map(|i| (i % 2 == 0).then_some(i)), (0..n).map(|i| if i % 2 == 0 { i.to_string() } else { String::new() }).collect());
            t!("units as items", (0..n).map(|_| ()), vec![String::new(); n]);
            t!("iterators as items", (0..n).map(|i| iter!("-", 0..i)), (0..n).map(|i| nums(0, i).join("-")).collect());
            t!("zip", (0..n).zip(items.iter()).map(|(a, b)| laby::frag!(a, ":", b.as_str())), (0..n).map(|i| format!("{i}:{}", esc[i])).collect());
            if di == 0 {
                for o in [Some(7), None] {
                    t!("Option as the iterator", o, o.iter().map(|x: &usize| x.to_string()).collect());
                }
                t!("array", [n, n + 1], nums(n, n + 2));
                t!("empty array", [0usize; 0], vec![]);
            }
            // the wrapper can be copied and rendered more than once
            let w = iter!(del, items.clone());
            let (a, b) = (rendered(w.clone()), rendered(w));
            c.check(a == b && a == format!("^{}$", esc.join(del)), || format!("a cloned wrapper over {n} items renders {a:?} and then {b:?}"));
        }
    }
}

pub fn run(c: &mut Ctx) {
    // every answer script
    let max = if c.thorough { 13 } else { 10 };
    for len in 0..=max {
        for bits in 0..1u32 << len {
            if !c.take() {
                continue;
            }
            let kinds = [0usize, 4, 7, 2];
            let answers: Vec<Option<usize>> = (0..len).map(|i| (bits >> i & 1 == 1).then_some(kinds[(i + bits as usize) % 4])).collect();
            c.describe(|| format!("answer script {answers:?} with all hints, forms and delimiters"));
            for hint in 0..5 {
                for form in 0..FORMS {
                    for &del in if form < 3 || form == 7 || form == 8 || form == 11 { &DELS[..1] } else { &DELS[..] } {
                        script_case(c, &answers, hint, form, del);
                    }
                }
            }
        }
    }
    let a = c.states;
    c.count("answer scripts x hint x form x delimiter", a);
    // every sequence of item kinds
    let max = if c.thorough { 6 } else { 5 };
    for len in 1..=max {
        let mut seq = vec![0usize; len];
        loop {
            if c.take() {
                c.describe(|| format!("items of kinds {:?} and all variations of the rest", &seq));
                let answers: Vec<Option<usize>> = seq.iter().map(|&k| Some(k)).collect();
                for (form, d) in [(0, 0), (3, 0), (4, 1), (4, 2), (5, 3), (4, 4), (10, 0), (7, 0)] {
                    script_case(c, &answers, 1, form, DELS[d]);
                }
            }
            if !next_seq(&mut seq, 0, KINDS) {
                break;
            }
        }
    }
    c.count("item sequences", c.states - a);
    let a = c.states;
    std_iters(c);
    c.count("standard iterators", c.states - a);
    // long streams
    let a = c.states;
    for n in [100usize, 255, 256, 257, 1000, 65535, 65536, 65537, 300_000] {
        for &del in &DELS {
            for delimited in [false, true] {
                if !c.take() {
                    continue;
                }
                c.describe(|| format!("a stream of {n} items, delimiter {del:?} used: {delimited}"));
                let log = std::cell::Cell::new(0usize);
                let it = (0..n).map(|i| {
                    log.set(log.get() + 1);
                    i
                });
                let got = if delimited {
                    let w = iter!(del, it);
                    c.check(log.get() == 0, || "advanced before rendering".into());
                    rendered(w)
                } else {
                    let w = iter!(it);
                    c.check(log.get() == 0, || "advanced before rendering".into());
                    rendered(w)
                };
                let want = format!("^{}$", (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join(if delimited { del } else { "" }));
                c.check(got == want, || format!("stream of {n} numbers with delimiter {del:?}: output of {} bytes differs from the expected {} bytes", got.len(), want.len()));
                c.check(log.get() == n, || format!("stream of {n} numbers advanced {} times", log.get()));
                c.states += 1;
                c.transitions += n as u64;
            }
        }
    }
    c.count("long streams", c.states - a);
}
