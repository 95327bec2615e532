//! Buffer operations and their meaning on ordinary strings (shared by C05 and C06).
use crate::kit::alloc::off;
use laby_common::internal::{escape, Buffer};
use laby_common::Render;
use std::fmt::Write as _;

/// Two buffers and what they must hold.
pub struct World {
    pub a: Buffer,
    pub b: Buffer,
    pub ma: String,
    pub mb: String,
    pub what: &'static str,
}

pub type Op = (&'static str, fn(&mut World));

fn upd(w: &mut World, f: impl FnOnce(&mut String, &mut String)) {
    let (a, b) = (&mut w.ma, &mut w.mb);
    off(|| f(a, b));
}

fn take(w: &mut World) -> Buffer {
    std::mem::take(&mut w.a)
}

const LONG: &str = "twenty-one <characters";

pub const OPS: &[Op] = &[
    ("push_str(\"x\")", |w| {
        w.a.push_str("x");
        upd(w, |a, _| a.push('x'));
    }),
    ("push_str(21 characters)", |w| {
        w.a.push_str(LONG);
        upd(w, |a, _| a.push_str(LONG));
    }),
    ("push_str(\"\")", |w| w.a.push_str("")),
    ("push('y')", |w| {
        w.a.push('y');
        upd(w, |a, _| a.push('y'));
    }),
    ("push('é')", |w| {
        w.a.push('é');
        upd(w, |a, _| a.push('é'));
    }),
    ("push('€') and push('😀')", |w| {
        w.a.push('€');
        w.a.push('😀');
        upd(w, |a, _| a.push_str("€😀"));
    }),
    ("clear()", |w| {
        w.a.clear();
        upd(w, |a, _| a.clear());
    }),
    ("reserve(1)", |w| w.a.reserve(1)),
    ("reserve(37)", |w| w.a.reserve(37)),
    ("reserve(0)", |w| w.a.reserve(0)),
    ("drop and new()", |w| {
        w.a = Buffer::new();
        upd(w, |a, _| a.clear());
    }),
    ("drop and with_capacity(3)", |w| {
        w.a = Buffer::with_capacity(3);
        upd(w, |a, _| a.clear());
    }),
    ("drop and with_capacity(0)", |w| {
        w.a = Buffer::with_capacity(0);
        upd(w, |a, _| a.clear());
    }),
    ("b = clone()", |w| {
        w.b = w.a.clone();
        upd(w, |a, b| {
            b.clear();
            b.push_str(a);
        });
    }),
    ("swap with b", |w| {
        std::mem::swap(&mut w.a, &mut w.b);
        upd(w, |a, b| std::mem::swap(a, b));
    }),
    ("into_string and back", |w| {
        let s = take(w).into_string();
        w.a = Buffer::from(s);
    }),
    ("into_string, extend the string, and back", |w| {
        let mut s = take(w).into_string();
        s.push_str("zz");
        w.a = Buffer::from(s);
        upd(w, |a, _| a.push_str("zz"));
    }),
    ("from a string with spare capacity", |w| {
        let mut s = String::with_capacity(40);
        s.push_str("spare");
        w.a = Buffer::from(s);
        upd(w, |a, _| {
            a.clear();
            a.push_str("spare")
        });
    }),
    ("from the empty String and \"\"", |w| {
        w.a = Buffer::from(String::new());
        w.a = Buffer::from("");
        upd(w, |a, _| a.clear());
    }),
    ("from(\"str\")", |w| {
        w.a = Buffer::from("str");
        upd(w, |a, _| {
            a.clear();
            a.push_str("str")
        });
    }),
    ("a + \"plus\"", |w| {
        w.a = take(w) + "plus";
        upd(w, |a, _| a.push_str("plus"));
    }),
    ("a += \"p\"", |w| {
        w.a += "p";
        upd(w, |a, _| a.push('p'));
    }),
    ("write!(..)", |w| {
        let _ = write!(w.a, "{}-{:>4}", 7, 'q');
        upd(w, |a, _| a.push_str("7-   q"));
    }),
    ("write_char", |w| {
        let _ = w.a.write_char('ß');
        upd(w, |a, _| a.push('ß'));
    }),
    ("push_str(own contents)", |w| {
        let c = w.a.clone();
        w.a.push_str(c.as_str());
        upd(w, |a, _| {
            let c = a.clone();
            a.push_str(&c)
        });
    }),
    ("push_str(contents of b)", |w| {
        let b = std::mem::take(&mut w.b);
        w.a.push_str(b.as_str());
        w.b = b;
        upd(w, |a, b| a.push_str(b));
    }),
    ("render an integer, a float and text", |w| {
        (-12i32).render(&mut w.a);
        0.5f64.render(&mut w.a);
        escape("<abcdefghijklmnopq>", &mut w.a);
        "&".render(&mut w.a);
        upd(w, |a, _| a.push_str("-120.5&lt;abcdefghijklmnopq&gt;&amp;"));
    }),
    ("take() leaving the default", |w| {
        let _ = take(w);
        upd(w, |a, _| a.clear());
    }),
];

impl World {
    pub fn new() -> World {
        World { a: Buffer::new(), b: Buffer::new(), ma: String::new(), mb: String::new(), what: "" }
    }

    /// Compares both buffers with their models; None if they agree.
    pub fn mismatch(&self) -> Option<String> {
        for (n, b, m) in [("a", &self.a, &self.ma), ("b", &self.b, &self.mb)] {
            if b.len() > b.capacity() {
                return Some(format!("{n}: length {} above capacity {}", b.len(), b.capacity()));
            }
            if b.as_str() != m {
                return Some(format!("{n}: contents {:?}, expected {m:?}", b.as_str()));
            }
            if b.len() != m.len() || b.is_empty() != m.is_empty() {
                return Some(format!("{n}: len() {} / is_empty() {}, expected {} bytes", b.len(), b.is_empty(), m.len()));
            }
        }
        None
    }
}

pub fn names(seq: &[usize]) -> String {
    seq.iter().map(|&i| OPS[i].0).collect::<Vec<_>>().join("; ")
}

/// Next sequence in odometer order, last position fastest. False after the last.
pub fn next_seq(seq: &mut [usize], from: usize, n: usize) -> bool {
    for i in (from..seq.len()).rev() {
        seq[i] += 1;
        if seq[i] < n {
            return true;
        }
        seq[i] = 0;
    }
    false
}
