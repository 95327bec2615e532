"""Template cases: source text, what plain reading of it means (output and evaluation order), and
the machinery that compiles them against /repo's laby and compares."""
import json, os, re, subprocess, threading, hashlib, glob, shutil


def esc(s):
    return "".join({'"': "&quot;", "&": "&amp;", "'": "&#39;", "<": "&lt;", ">": "&gt;"}.get(c, c) for c in s)


def rstr(s):
    o = '"'
    for c in s:
        if c in '"\\':
            o += "\\" + c
        elif c == "\n":
            o += "\\n"
        elif ord(c) < 32:
            o += "\\u{%x}" % ord(c)
        else:
            o += c
    return o + '"'


class V:
    """An embedded value: source, rendered text, evaluation groups. A group is a list of ids that
    are evaluated in any order; (id, "opt") may be skipped."""
    __slots__ = ("src", "out", "log", "kind")

    def __init__(self, src, out, log=(), kind=""):
        self.src, self.out, self.log, self.kind = src, out, list(log), kind


class Ctx:
    """Per-case state while a case is built."""
    def __init__(self):
        self.n = 0
        self.pre = []
        self.prelog = []
        self.items = []   # file-level items

    def id(self):
        self.n += 1
        return self.n

    def fresh(self, p="v"):
        self.n += 1
        return f"{p}{self.n}"


def E(c, rust, out):
    """A logged expression."""
    i = c.id()
    return V(f"e({i}, {rust})", out, [[i]])


def lit(src, out):
    return V(src, out)


class Attr:
    def __init__(self, name, value, flag=None):
        """flag: None for an ordinary attribute, else (V of the flag, its value, literal?)"""
        self.name, self.value, self.flag = name, value, flag


class Child:
    def __init__(self, v):
        self.v = v


VOID = "area base br col embed hr img input link meta param source track wbr".split()
NORMAL = """a abbr address article aside audio b bdi bdo blockquote body button canvas
 caption cite code colgroup data datalist dd del details dfn dialog div dl dt
 em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header
 hgroup html i iframe ins kbd label legend li main map mark menu menuitem
 meter nav noscript object ol optgroup option output p picture pre progress q
 rb rp rt rtc ruby s samp script section select slot small span strong style
 sub summary sup table tbody td template textarea tfoot th thead time title tr
 u ul var video""".split()
assert len(VOID) == 14 and len(NORMAL) == 101


def el(tag, items, sep=", ", path="", brackets="()", trail=""):
    """An element, fragment or class list with its items in source order."""
    src, attrs, kids = [], [], []
    for it in items:
        if isinstance(it, Attr):
            if it.flag is None:
                src.append(f"{it.name.src} = {it.value.src}")
            else:
                src.append(f"{it.name.src} = bool!({it.flag[0].src})")
            attrs.append(it)
        else:
            src.append(it.v.src)
            kids.append(it.v)
    out, log = "", []
    frag = tag in ("frag", "classes")
    if not frag:
        out += "<" + tag
        for a in attrs:
            if a.flag is None:
                out += f' {a.name.out}="{a.value.out}"'
                log += a.name.log + a.value.log
            else:
                fv, on, is_lit = a.flag
                ids = [i for g in fv.log + a.name.log for i in g]
                if is_lit and not on:
                    ids = [(i, "opt") if not isinstance(i, tuple) else i for i in ids]
                if ids:
                    log.append(ids)
                if on:
                    out += " " + a.name.out
        out += ">"
    else:
        assert not attrs
    if tag not in VOID:
        out += (" " if tag == "classes" else "").join(k.out for k in kids)
        for k in kids:
            log += k.log
        if not frag:
            out += f"</{tag}>"
    else:
        assert not kids
    return V(f"{path}{tag}!{brackets[0]}{sep.join(src)}{trail}{brackets[1]}", out, log)


class Case:
    """One program. `post`: statements between construction and rendering. `twin`: expression of
    type String that the rendering must equal, evaluating (if twinlog) the same expressions.
    `inline`: the template is rendered in the expression that constructs it."""
    def __init__(self, c, v, note="", post=(), twin=None, twinlog=False, inline=False):
        self.pre, self.items = list(c.pre), list(c.items)
        self.src, self.out, self.log, self.note = v.src, v.out, c.prelog + v.log, note
        self.post, self.twin, self.twinlog, self.inline = list(post), twin, twinlog, inline

    def key(self):
        return (tuple(self.items), tuple(self.pre), self.src, tuple(self.post), self.twin, self.inline)

    def body(self):
        s = " ".join(self.pre)
        if self.inline:
            s += f" fin({self.src});"
        else:
            s += f" let t = {self.src}; mid(); {' '.join(self.post)} fin(t);"
        if self.twin is not None:
            # the statements before run again, so that moved variables are there
            s = "{ " + s + " } done(); { " + " ".join(self.pre) + f" let t: String = {self.twin}; tw(t); }}"
        return s


def match_log(groups, log):
    """None if the log fits the groups, else an explanation."""
    p = 0
    for g in groups:
        req = {i for i in g if not isinstance(i, tuple)}
        opt = {i[0] for i in g if isinstance(i, tuple)}
        seen = set()
        while p < len(log) and (log[p] in req or log[p] in opt) and log[p] not in seen:
            seen.add(log[p])
            p += 1
        if req - seen:
            return f"expression {sorted(req - seen)[0]} is not evaluated at its place"
    if p != len(log):
        return f"evaluation of expression {log[p]} at position {p} is out of place or repeated"
    return None


PRELUDE = r'''#![allow(warnings)]
%(features)s
extern crate laby;
use laby::*;
use laby::internal::Buffer;
use std::cell::RefCell;
thread_local! { static LOG: RefCell<Vec<u32>> = RefCell::new(Vec::new()); static CON: RefCell<Option<Vec<u32>>> = RefCell::new(None); }
#[inline(never)] fn e<T>(id: u32, v: T) -> T { LOG.with(|l| l.borrow_mut().push(id)); v }
fn start() { LOG.with(|l| l.borrow_mut().clear()); CON.with(|c| *c.borrow_mut() = None); }
fn take() -> Vec<u32> { LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }
/// The template is constructed; what was evaluated so far is the construction log.
fn mid() { let t = take(); CON.with(|c| *c.borrow_mut() = Some(t)); }
thread_local! { static OUT: RefCell<String> = RefCell::new(String::new()); }
fn fin(t: impl Render) { if CON.with(|c| c.borrow().is_none()) { mid() } let mut b = Buffer::new(); t.render(&mut b); let s = b.into_string(); OUT.with(|o| *o.borrow_mut() = s) }
fn rs(t: impl Render) -> String { let mut b = Buffer::new(); t.render(&mut b); b.into_string() }
thread_local! { static REN: RefCell<Option<Vec<u32>>> = RefCell::new(None); static TW: RefCell<Option<String>> = RefCell::new(None); }
fn done() { let t = take(); REN.with(|c| *c.borrow_mut() = Some(t)); }
fn tw(t: String) { TW.with(|o| *o.borrow_mut() = Some(t)) }
fn go(id: usize, f: fn()) {
    start();
    let r = std::panic::catch_unwind(f);
    let con = CON.with(|c| c.borrow_mut().take());
    let last = take();
    let (ren, twlog) = match REN.with(|c| c.borrow_mut().take()) { Some(r) => (r, last), None => (last, vec![]) };
    let twin = TW.with(|o| o.borrow_mut().take());
    let out = OUT.with(|o| std::mem::take(&mut *o.borrow_mut()));
    let l = |v: &[u32]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    match (r, con) {
        (Ok(()), Some(con)) => {
            let h = |s: &str| s.bytes().map(|b| format!("{:02x}", b)).collect::<String>();
            println!("{}|{}|{}|{}|{}|{}", id, l(&con), l(&ren), h(&out), l(&twlog), twin.map_or("-".to_string(), |t| h(&t)));
        }
        _ => println!("{}|panic", id),
    }
}
macro_rules! same { ($($x:tt)*) => { $($x)* } }
macro_rules! via { ($e:expr) => { $e } }
%(items)s
'''


class Toolchain:
    """laby built from /repo's working tree, and rustc invocations against it."""

    def __init__(self, chk, decl_macro=False):
        self.chk = chk
        self.decl = decl_macro
        self.tc = "nightly-2023-05-01" if decl_macro else "stable"
        name = "lib-decl" if decl_macro else "lib"
        self.target = f"{chk.BUILD}/{name}"
        work = f"{chk.BUILD}/{name}-crate"
        os.makedirs(work + "/src", exist_ok=True)
        feat = ', features = ["decl_macro"]' if decl_macro else ""
        open(work + "/Cargo.toml", "w").write(f'[package]\nname = "libuser"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\nlaby = {{ path = "{chk.REPO}/laby"{feat} }}\n[profile.dev]\ndebug = false\nincremental = false\n')
        open(work + "/src/lib.rs", "w").write("pub use laby;\n")
        shutil.copyfile(chk.ROOT + "/gen/Cargo.lock", work + "/Cargo.lock")
        r = chk.sh(["cargo", "build", "--offline", "--message-format=json"], 600, cwd=work, env=chk.env(RUSTUP_TOOLCHAIN=self.tc, CARGO_TARGET_DIR=self.target))
        if r.returncode != 0:
            raise chk.Broken("building laby failed:\n" + r.stdout[-5000:])
        self.rlib = None
        self.extra = []
        for l in r.stdout.splitlines():
            if l.startswith("{"):
                j = json.loads(l)
                if j.get("reason") == "compiler-artifact" and j["target"]["name"] == "laby":
                    self.rlib = [f for f in j["filenames"] if f.endswith(".rlib")][0]
        if not self.rlib:
            raise chk.Broken("laby's library was not reported by cargo")

    def lib(self, src, name, out):
        """Compiles a library; None if it compiles, else the errors."""
        r = self.chk.sh(["rustc", "--edition", "2021", "--crate-type", "rlib", "--crate-name", name, src, "-o", out, "--cap-lints", "allow", "--extern", f"laby={self.rlib}", "-L", f"dependency={self.target}/debug/deps"], 300, env=self.chk.env(RUSTUP_TOOLCHAIN=self.tc))
        return None if r.returncode == 0 else r.stdout

    def rustc(self, src, out, check_only=False, extra=()):
        """Returns (ok, {line: [messages]}, raw)."""
        cmd = ["rustc", "--edition", "2021", "--crate-type", "bin", "--crate-name", "cases", src, "-C", "opt-level=0", "-C", "debuginfo=0", "-C", "debug-assertions=on",
               "--error-format=json", "--cap-lints", "allow", "--extern", f"laby={self.rlib}", "-L", f"dependency={self.target}/debug/deps"]
        cmd += ["--emit=metadata", "-o", out + ".rmeta"] if check_only else ["-C", "codegen-units=4", "-o", out]
        try:
            r = subprocess.run(cmd + self.extra + list(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=600, env=self.chk.env(RUSTUP_TOOLCHAIN=self.tc))
        except subprocess.TimeoutExpired:
            raise self.chk.Broken(f"rustc does not end on {src}")
        lines, fatal = {}, []
        for l in r.stderr.splitlines():
            if not l.startswith("{"):
                if l.strip():
                    fatal.append(l)
                continue
            j = json.loads(l)
            if j.get("level") not in ("error", "error: internal compiler error"):
                continue
            if j["message"].startswith("aborting due to"):
                continue
            got = set()
            for sp in j["spans"]:
                while sp:
                    if sp["file_name"] == src:
                        got.add(sp["line_start"])
                    sp = sp["expansion"]["span"] if sp.get("expansion") else None
            if not got:
                fatal.append(j["message"])
            # primary spans inside the file only; a definition elsewhere is noise
            prim = set()
            for sp in j["spans"]:
                if not sp["is_primary"]:
                    continue
                s2, last = sp, None
                while s2:
                    if s2["file_name"] == src:
                        last = s2["line_start"]
                    s2 = s2["expansion"]["span"] if s2.get("expansion") else None
                if last:
                    prim.add(last)
            for n in prim or got:
                lines.setdefault(n, []).append(j["message"])
        if r.returncode != 0 and not lines:
            raise self.chk.Broken(f"rustc failed on {src} without a position:\n" + "\n".join(fatal)[:3000] + r.stderr[-2000:])
        if r.returncode < 0 or r.returncode == 101:
            raise self.chk.Broken(f"rustc crashed on {src}: {r.stderr[-2000:]}")
        return r.returncode == 0, lines, r.stderr


def source(cases, prelude_items="", features=""):
    """File with one case per line. Returns text and {line: case index}."""
    head = PRELUDE % {"items": prelude_items, "features": features}
    n = head.count("\n")
    lines, where = [], {}
    def put(text, i):
        for l in text.replace("FN@", f"fn{i}_").split("\n"):
            lines.append(l)
            where[n + len(lines)] = i
    for i, c in enumerate(cases):
        for it in c.items:
            put(it, i)
        put(f"fn c{i}() {{ {c.body()} }}", i)
    main = "fn main() { std::panic::set_hook(Box::new(|_| ())); " + " ".join(f"go({i}, c{i});" for i in range(len(cases))) + " }\n"
    return head + "\n".join(lines) + "\n" + main, where


def describe(c):
    return " ".join(c.items + c.pre + [c.src] + c.post).replace("FN@", "fn_")


def run_cases(tc, name, cases, prelude_items="", features="", shards=8, prop=""):
    """Compiles and runs all cases. Returns (stats, violations)."""
    # identical source need not be compiled twice
    uniq, seen = [], set()
    for c in cases:
        k = c.key()
        if k not in seen:
            seen.add(k)
            uniq.append(c)
    cases = uniq
    chk = tc.chk
    d = f"{chk.BUILD}/cases/{name}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shards = max(1, min(shards, len(cases) // 20 + 1))
    parts = [cases[i::shards] for i in range(shards)]
    results, violations, errors = [None] * shards, [], []
    outs = set()

    def work(k):
        try:
            part = parts[k]
            # compile in portions so that memory stays bounded
            res = []
            for q in range(0, len(part), 1500):
                sub = part[q:q + 1500]
                src, exe = f"{d}/s{k}_{q}.rs", f"{d}/s{k}_{q}"
                for attempt in range(3):
                    text, where = source(sub, prelude_items, features)
                    open(src, "w").write(text)
                    ok, lines, raw = tc.rustc(src, exe)
                    if ok:
                        break
                    bad = {where[l] for l in lines if l in where}
                    if not bad:
                        n, msg = sorted(lines.items())[0]
                        violations.append({"what": f"well-formed code does not compile: {text.splitlines()[n - 1].strip()[:600]}: {'; '.join(msg)[:300]}", "src": text.splitlines()[n - 1].strip(), "case": None})
                        return
                    for b in sorted(bad):
                        msg = next(m for l, m in lines.items() if where.get(l) == b)
                        violations.append({"what": f"well-formed template does not compile: {describe(sub[b])}: {'; '.join(msg)[:300]}", "src": describe(sub[b]), "case": sub[b]})
                    sub = [c for i, c in enumerate(sub) if i not in bad]
                    if not sub or attempt == 2:
                        return
                try:
                    r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120, errors="replace")
                    stdout, status = r.stdout, f"status {r.returncode}"
                except subprocess.TimeoutExpired as ex:
                    stdout, status = (ex.stdout or b"").decode("utf-8", "replace"), "no end"
                got = {}
                for l in stdout.splitlines():
                    f = l.split("|")
                    if len(f) in (2, 6):
                        got[int(f[0])] = f[1:]
                os.unlink(exe)
                for i, c in enumerate(sub):
                    g = got.get(i)
                    if g is None:
                        violations.append({"what": f"the program stopped ({status}) in or before: {describe(c)}", "src": describe(c), "case": c})
                        break
                    if g[0] == "panic":
                        violations.append({"what": f"panic in: {describe(c)}", "src": describe(c), "case": c})
                        continue
                    con = [int(x) for x in g[0].split(",") if x]
                    ren = [int(x) for x in g[1].split(",") if x]
                    out = bytes.fromhex(g[2]).decode("utf-8", "replace")
                    twlog = [int(x) for x in g[3].split(",") if x]
                    tw = None if g[4] == "-" else bytes.fromhex(g[4]).decode("utf-8", "replace")
                    res.append((c, con, ren, out, twlog, tw))
                    outs.add(out)
            results[k] = res
        except Exception as ex:
            errors.append(ex)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(shards)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errors and not violations:
        ex = errors[0]
        raise ex if isinstance(ex, chk.Broken) else chk.Broken(f"{type(ex).__name__}: {ex}")
    n = evals = 0
    for res in results:
        for c, con, ren, out, twlog, tw in res or []:
            n += 1
            evals += len(con) + len(ren)
            if c.out is not None and out != c.out:
                violations.append({"what": f"{describe(c)} rendered {out!r}, expected {c.out!r}", "src": describe(c), "case": c})
            elif c.twin is not None and out != tw:
                violations.append({"what": f"{describe(c)} rendered {out!r}, but {c.twin} is {tw!r}", "src": describe(c), "case": c})
            elif c.twin is not None and c.twinlog and con != twlog:
                violations.append({"what": f"{describe(c)} evaluated {con}, but {c.twin} evaluates {twlog}", "src": describe(c), "case": c, "log": True})
            elif ren:
                violations.append({"what": f"{describe(c)}: expressions {ren} evaluated during rendering", "src": describe(c), "case": c, "log": True})
            elif c.log is not None:
                m = match_log(c.log, con)
                if m:
                    violations.append({"what": f"{describe(c)}: {m} (evaluation log {con}, expected order {c.log})", "src": describe(c), "case": c, "log": True})
    return {"cases": n, "expressions": evals, "nodes": sum(c.src.count("!") + c.src.count(",") + 1 for c in cases), "outputs": len(outs), "samples": [describe(c) + "  =>  " + str(c.out) for c in cases[:: max(1, len(cases) // 6)]][:6]}, violations


def run_rejects(tc, name, cases, prelude_items="", features="", shards=8, recheck=40):
    """Cases that must not compile: (items, body, what is wrong). Compiled together; the ones that
    draw no error there are compiled alone. Returns (number rejected, violations)."""
    chk = tc.chk
    uniq, seen = [], set()
    for c in cases:
        k = (tuple(c[0]), c[1])
        if k not in seen:
            seen.add(k)
            uniq.append(c)
    d = f"{chk.BUILD}/cases/{name}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    head = PRELUDE % {"items": prelude_items, "features": features}
    n = head.count("\n")

    def text_of(part):
        lines, where = [], {}
        for i, (items, body, why) in enumerate(part):
            for l in list(items) + [f"fn c{i}() {{ {body} }}"]:
                for x in l.replace("FN@", f"fn{i}_").split("\n"):
                    lines.append(x)
                    where[n + len(lines)] = i
        return head + "\n".join(lines) + "\nfn main() {}\n", where

    pend, errors, outside = [], [], []
    shards = max(1, min(shards, len(uniq) // 20 + 1))

    def work(k):
        try:
            part = uniq[k::shards]
            for q in range(0, len(part), 2000):
                sub = part[q:q + 2000]
                src = f"{d}/r{k}_{q}.rs"
                text, where = text_of(sub)
                open(src, "w").write(text)
                ok, lines, raw = tc.rustc(src, src[:-3], check_only=True)
                hit = {where[l] for l in lines if l in where}
                outside.extend((l, m, text.splitlines()[l - 1]) for l, m in lines.items() if l not in where)
                pend.extend(sub[i] for i in range(len(sub)) if i not in hit)
        except Exception as ex:
            errors.append(ex)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(shards)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errors:
        ex = errors[0]
        raise ex if isinstance(ex, chk.Broken) else chk.Broken(f"{type(ex).__name__}: {ex}")
    if outside:
        return 0, [{"what": f"well-formed code does not compile: {outside[0][2].strip()[:600]}: {'; '.join(outside[0][1])[:300]}", "src": outside[0][2]}]
    violations = []

    def alone(k):
        try:
            for i, c in list(enumerate(pend[:recheck]))[k::8]:
                src = f"{d}/a{i}.rs"
                open(src, "w").write(text_of([c])[0])
                ok, lines, raw = tc.rustc(src, src[:-3], check_only=True)
                if ok:
                    violations.append({"what": f"accepted although {c[2]}: {' '.join(c[0])} {c[1]}", "src": c[1], "reject": {"items": list(c[0]), "body": c[1], "why": c[2]}})
        except Exception as ex:
            errors.append(ex)

    ts = [threading.Thread(target=alone, args=(k,)) for k in range(8)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errors:
        ex = errors[0]
        raise ex if isinstance(ex, chk.Broken) else chk.Broken(f"{type(ex).__name__}: {ex}")
    if len(pend) > recheck and not violations:
        raise chk.Broken(f"{len(pend)} malformed programs drew no error of their own, e.g. {pend[0]}")
    return {"rejected": len(uniq) - len(violations), "alone": min(len(pend), recheck), "samples": [f"{c[1]}  =>  error: {c[2]}" for c in uniq[:: max(1, len(uniq) // 4)]][:4]}, violations
