"""The enumerated template families, one generator per property."""
import itertools, json, os
from core import *

ITEMS = r'''
struct U(&'static str);
impl Render for U { fn render(self, b: &mut Buffer) { b.push_str("[u:"); b.push_str(self.0); b.push_str("]"); } }
#[derive(Clone, Copy)] struct St { f: &'static str, n: u8 }
impl St { fn m(&self) -> &'static str { "m<" } fn own(self) -> String { "own&".to_string() } }
const KON: &str = "kon";
static STA: &str = "sta>";
const FLAG: bool = true;
mod paths { pub const C: &str = "pc"; pub const ON: bool = true; pub fn f() -> &'static str { "pf" } }
fn idt<T>(x: T) -> T { x }
fn rend<R: Render>(r: R) -> R { r }
fn wrapi(r: impl Render) -> impl Render { r }
fn boolf(x: bool) -> bool { x }
#[laby] fn comp1(#[default(())] x: impl Render, #[rest] kids: impl Render) -> impl Render { article!(x, main!(kids)) }
#[laby] fn pass(x: impl Render) -> impl Render { x }
#[laby] fn passrest(#[rest] x: impl Render) -> impl Render { x }
macro_rules! mkb { ($($x:tt)*) => { b!($($x)*) } }
'''


def name_atoms():
    """(label, builder, tags); every builder makes a fresh attribute name."""
    def var(c):
        v = c.fresh(); c.pre.append(f'let {v} = "vn";'); return v
    A = []
    def a(label, f, *tags):
        A.append((label, f, tags))
    a("ident", lambda c: lit("name", "name"), "small", "tiny")
    a("keywordlike", lambda c: lit("r#type", "type"), "small", "tiny")
    a("underscore", lambda c: lit("data_x", "data_x"))
    a("leading underscore", lambda c: lit("_x", "_x"))
    a("case", lambda c: lit("onClick", "onClick"))
    a("ident t1", lambda c: lit("t1", "t1"))
    a("ident buffer", lambda c: lit("buffer", "buffer"))
    a("ident self-like", lambda c: lit("r#struct", "struct"))
    a("str", lambda c: lit('"aria-x"', "aria-x"), "small", "tiny")
    a("str special", lambda c: lit('"a&<\'>\\"b"', esc("a&<'>\"b")), "small")
    a("raw str", lambda c: lit('r#"r"<"#', esc('r"<')))
    a("empty str", lambda c: lit('""', ""))
    a("char", lambda c: lit("'c'", "c"))
    a("char special", lambda c: lit("'<'", "&lt;"))
    a("int", lambda c: lit("7", "7"))
    a("float", lambda c: lit("1.5", "1.5"))
    a("bool", lambda c: lit("true", "true"))
    a("byte", lambda c: lit("b'a'", "97"))
    a("paren lit", lambda c: lit('("pl")', "pl"))
    a("paren2 lit", lambda c: lit('(("pl"))', "pl"))
    a("block lit", lambda c: lit('{ "bl" }', "bl"))
    a("paren var", lambda c: lit(f"({var(c)})", "vn"), "small", "tiny")
    a("block var", lambda c: lit(f"{{ {var(c)} }}", "vn"))
    a("call", lambda c: E(c, '"cn<"', "cn&lt;"), "small", "tiny")
    a("paren call", lambda c: (lambda v: V(f"({v.src})", v.out, v.log))(E(c, '"cn"', "cn")))
    a("const path", lambda c: lit("paths::C", "pc"), "small")
    a("fn path call", lambda c: lit("paths::f()", "pf"))
    def meth(c):
        v = c.fresh(); c.pre.append(f'let {v} = St {{ f: "ff", n: 3 }};'); return v
    a("method", lambda c: lit(f"{meth(c)}.m()", "m&lt;"))
    a("field", lambda c: lit(f"{meth(c)}.f", "ff"), "small")
    a("tuple field", lambda c: (c.pre.append('let tu = ("tu0", 5);'), lit("tu.0", "tu0"))[1])
    a("index", lambda c: (c.pre.append('let ar = ["ar0", "ar1"];'), lit("ar[1]", "ar1"))[1])
    a("deref", lambda c: (c.pre.append('let de = &"de";'), lit("*de", "de"))[1])
    a("borrow", lambda c: (c.pre.append('let bo = String::from("bo");'), lit("&*bo", "bo"))[1])
    a("binary", lambda c: lit("3 + 4", "7"))
    a("unary", lambda c: (c.pre.append("let ne = 4i8;"), lit("-ne", "-4"))[1])
    a("cast", lambda c: lit("7u8 as i64", "7"))
    a("concat", lambda c: lit('concat!("c", 1)', "c1"), "small")
    a("string", lambda c: lit('String::from("own")', "own"))
    a("element", lambda c: lit('(b!("z"))', "<b>z</b>"))
    a("element bare", lambda c: lit('b!("z")', "<b>z</b>"))
    a("raw", lambda c: lit('raw!("r<")', "r<"))
    a("custom", lambda c: lit('U("n")', "[u:n]"))
    a("none", lambda c: lit("None::<&str>", ""))
    a("some", lambda c: lit('Some("sm")', "sm"))
    a("unit", lambda c: lit("()", ""))
    a("if", lambda c: (c.pre.append("let cf = true;"), lit('(if cf { "yes" } else { "no" })', "yes"))[1])
    a("same macro", lambda c: lit('same!("sx")', "sx"))
    a("via macro", lambda c: lit('via!("vx")', "vx"))
    return A


def value_atoms():
    A = []
    def a(label, f, *tags):
        A.append((label, f, tags))
    def var(c, rust, ty=""):
        v = c.fresh(); c.pre.append(f"let {v}{ty} = {rust};"); return v
    a("str", lambda c: lit('"tx"', "tx"), "small", "tiny", "five")
    a("str special", lambda c: lit('"<&>"', "&lt;&amp;&gt;"), "small")
    a("str uni", lambda c: lit('"é\\u{1F600}\\n"', "é\U0001F600\n"))
    a("empty", lambda c: lit('""', ""), "small", "five")
    a("raw str", lambda c: lit("r#\"a\"b\\n\"#", 'a&quot;b\\n'))
    a("char", lambda c: lit("'k'", "k"), "small")
    a("char quote", lambda c: lit("'\"'", "&quot;"))
    a("int", lambda c: lit("42", "42"), "small")
    a("int suffix", lambda c: lit("0xFFu8", "255"))
    a("neg", lambda c: lit("-5", "-5"))
    a("float", lambda c: lit("2.5", "2.5"))
    a("true", lambda c: lit("true", "true"), "small")
    a("false", lambda c: lit("false", "false"))
    a("byte", lambda c: lit("b'z'", "122"))
    a("paren lit", lambda c: lit('("p&")', "p&amp;"))
    a("block lit", lambda c: lit('{ "b&" }', "b&amp;"))
    a("var", lambda c: lit(var(c, '"v<"'), "v&lt;"), "small", "tiny", "five")
    a("var string", lambda c: lit(var(c, 'String::from("s\'")'), "s&#39;"), "small")
    a("var int", lambda c: lit(var(c, "123u64"), "123"))
    a("var bool", lambda c: lit(var(c, "false"), "false"), "small")
    a("var none", lambda c: lit(var(c, "None::<String>"), ""), "small", "tiny", "five")
    a("var some", lambda c: lit(var(c, 'Some(Some("o>"))'), "o&gt;"))
    a("var char", lambda c: lit(var(c, "'&'"), "&amp;"))
    a("unit", lambda c: lit("()", ""))
    a("var unit", lambda c: lit(var(c, "()"), ""))
    a("custom", lambda c: lit('U("x")', "[u:x]"), "small")
    a("call", lambda c: E(c, '"c\\""', "c&quot;"), "small", "tiny", "five")
    a("const", lambda c: lit("KON", "kon"))
    a("static", lambda c: lit("STA", "sta&gt;"))
    a("path", lambda c: lit("paths::C", "pc"))
    a("field", lambda c: lit(var(c, 'St { f: "ff", n: 3 }') + ".n", "3"))
    a("method", lambda c: lit(var(c, 'St { f: "ff", n: 3 }') + ".own()", "own&amp;"))
    a("index", lambda c: lit(var(c, "[7u8, 8]") + "[1]", "8"))
    a("tuple field", lambda c: lit(var(c, '("t0", 5u8)') + ".1", "5"))
    a("deref", lambda c: lit("*" + var(c, '&"de"'), "de"))
    a("binary", lambda c: lit("1 + 2 * 3", "7"))
    a("compare", lambda c: lit("1 == 1", "true"))
    a("less", lambda c: lit(var(c, "4") + " <= 5", "true"))
    a("logic", lambda c: lit(f"!{var(c, 'true')} || false", "false"))
    a("cast", lambda c: lit("300u16 as u8", "44"))
    a("range index", lambda c: lit("&" + var(c, 'String::from("abcd")') + "[1..3]", "bc"))
    a("if", lambda c: lit(f'if {var(c, "true")} {{ "i1" }} else {{ "i2" }}', "i1"), "small")
    a("if let", lambda c: lit(f'if let Some(x) = {var(c, "Some(4u8)")} {{ x }} else {{ 9 }}', "4"))
    a("match", lambda c: lit(f'match {var(c, "2u8")} {{ 1 => "one", 2 => "two<", _ => "many" }}', "two&lt;"), "small")
    a("block", lambda c: lit('{ let q = "q\'"; q }', "q&#39;"), "small")
    a("block unit", lambda c: lit('{ let _q = 1; }', ""))
    a("assign block", lambda c: (c.pre.append("let mut asg = 1;"), lit("{ asg = 2; asg }", "2"))[1])
    a("closure", lambda c: lit('(|| "cl>")()', "cl&gt;"))
    a("loop", lambda c: lit("loop { break 'L' }", "L"))
    a("unsafe", lambda c: lit('unsafe { std::str::from_utf8_unchecked(b"us") }', "us"))
    a("struct", lambda c: lit('St { f: "fs", n: 1 }.f', "fs"))
    a("tuple", lambda c: lit('("y", 1).0', "y"))
    a("turbofish", lambda c: lit('idt::<&str>("tf")', "tf"))
    a("format", lambda c: lit(f'format!("{{}}<{{:02}}", {var(c, "1")}, 5)', "1&lt;05"), "small")
    a("disp", lambda c: lit(f'disp!({var(c, "5.5f32")})', "5.5"))
    a("raw", lambda c: lit('raw!("<r&>")', "<r&>"), "small")
    a("iter", lambda c: lit('iter!(vec!["i<", "j"])', "i&lt;j"), "small")
    a("iter delim", lambda c: lit('iter!(", ", 1..4)', "1, 2, 3"))
    a("concat", lambda c: lit('concat!("c", 2)', "c2"))
    a("stringify", lambda c: lit("stringify!(x)", "x"))
    a("element", lambda c: el("b", [Child(lit('"e<"', "e&lt;"))]), "small", "tiny", "five")
    a("element attr", lambda c: el("i", [Attr(lit("k", "k"), lit('"w"', "w")), Child(lit(var(c, '"x&"'), "x&amp;"))]), "small")
    a("element empty", lambda c: el("p", []), "small")
    a("void", lambda c: el("br", []), "small", "five")
    a("void attr", lambda c: el("input", [Attr(lit("r#type", "type"), lit(var(c, '"t"'), "t")), Attr(lit("checked", "checked"), None, (lit("true", ""), True, True))]), "small")
    a("frag", lambda c: el("frag", [Child(lit('"f1"', "f1")), Child(lit(var(c, "2"), "2"))]), "small", "tiny", "five")
    a("frag empty", lambda c: el("frag", []), "small")
    a("classes", lambda c: el("classes", [Child(lit('"k1"', "k1")), Child(lit(var(c, '"k2"'), "k2"))]), "small", "tiny", "five")
    a("classes none", lambda c: el("classes", [Child(lit("()", "")), Child(lit('"k"', "k"))]))
    a("frag_match if", lambda c: lit(f'frag_match!(if {var(c, "false")} {{ "a" }} else {{ b!(1) }})', "<b>1</b>"), "small")
    a("frag_match match", lambda c: lit(f'frag_match!(match {var(c, "1u8")} {{ 1 => "m1", _ => () }})', "m1"))
    a("component", lambda c: lit('comp1!("k", x = 1)', "<article>1<main>k</main></article>"), "small", "tiny")
    a("path element", lambda c: lit('laby::b!("pe")', "<b>pe</b>"), "small")
    a("global path element", lambda c: lit('::laby::hr!(x = 1)', '<hr x="1">'))
    a("paren element", lambda c: lit(f'(em!({var(c, chr(34) + "pa" + chr(34))}))', "<em>pa</em>"), "small")
    a("block element", lambda c: lit('{ em!("bk") }', "<em>bk</em>"))
    a("macro element", lambda c: lit('mkb!("mk")', "<b>mk</b>"))
    a("same element", lambda c: lit('same!(u!("sm"))', "<u>sm</u>"))
    a("via element", lambda c: lit('via!(u!("ve"))', "<u>ve</u>"))
    a("bracket element", lambda c: el("s", [Child(lit('"br"', "br"))], brackets="[]"))
    a("brace element", lambda c: el("s", [Child(lit('"bc"', "bc"))], brackets="{}"))
    a("bound element", lambda c: lit(var(c, 'q!("bd", 3)'), "<q>bd3</q>"), "small", "tiny")
    a("fn element", lambda c: lit('wrapi(q!("fe"))', "<q>fe</q>"))
    a("some element", lambda c: lit('Some(q!("se"))', "<q>se</q>"))
    a("iter elements", lambda c: lit('iter!((0..3).map(|n| li!(n)))', "<li>0</li><li>1</li><li>2</li>"))
    a("doctype", lambda c: lit("DocType::HTML5", "<!DOCTYPE html>"))
    a("render", lambda c: lit('render!(b!("<"))', "&lt;b&gt;&amp;lt;&lt;/b&gt;"))
    a("deep", lambda c: el("ul", [Child(el("li", [Child(el("b", [Child(lit(var(c, '"d"'), "d"))])), Child(lit("1", "1"))])), Attr(lit("c", "c"), lit("9", "9")), Child(el("frag", [Child(el("li", []))]))]), "small")
    return A


NA, VA = name_atoms(), value_atoms()


def pick(A, tag):
    return [f for _, f, t in A if tag in t]


def nth(A, label):
    return next(f for l, f, _ in A if l == label)


def fl(A):
    return [f for _, f, _ in A]


def case(build, **kw):
    c = Ctx()
    v = build(c)
    return Case(c, v, **kw)


def trees(n, inner, leaf):
    """All ordered trees with n nodes: inner labels with children, leaf labels without."""
    memo = {}
    def forest(k, m):
        # sequences of trees with k nodes in total, at most m long
        if k == 0:
            return [()]
        if (k, m) in memo:
            return memo[k, m]
        out = []
        if m:
            for first in range(1, k + 1):
                for t in tree(first):
                    for rest in forest(k - first, m - 1):
                        out.append((t,) + rest)
        memo[k, m] = out
        return out
    def tree(k):
        if ("t", k) in memo:
            return memo["t", k]
        out = [(l,) for l in leaf] if k == 1 else []
        for f in forest(k - 1, 9):
            for l in inner:
                out.append((l, f))
        memo["t", k] = out
        return out
    return tree(n)


def tree_v(c, t, leafs):
    if len(t) == 1:
        return leafs[t[0]](c)
    return el(t[0], [Child(tree_v(c, x, leafs)) for x in t[1]])


# ------------------------------------------------------------------------------------------- C10

def gen_c10(tier):
    deep = tier == "thorough"
    out = []
    add = lambda b, **kw: out.append(case(b, **kw))
    # one attribute, every name with every value
    for nf in fl(NA):
        for vf in fl(VA):
            add(lambda c: el("div", [Attr(nf(c), vf(c))]))
    for nf in fl(NA):
        for vf in pick(VA, "small") if not deep else fl(VA):
            add(lambda c: el("img", [Attr(nf(c), vf(c))]))
            add(lambda c: el("td", [Attr(nf(c), vf(c)), Child(lit('"k"', "k"))]))
    # one child in every container
    one = [
        lambda v: el("div", [Child(v)]), lambda v: el("div", [Child(v)], trail=","), lambda v: el("div", [Child(v)], brackets="[]"), lambda v: el("div", [Child(v)], brackets="{}"),
        lambda v: el("frag", [Child(v)]), lambda v: el("classes", [Child(v)]), lambda v: el("div", [Child(v)], path="laby::"),
        lambda v: el("div", [Attr(lit("x", "x"), lit("1", "1")), Child(v)]), lambda v: el("div", [Child(v), Attr(lit("x", "x"), lit("1", "1"))]),
        lambda v: el("div", [Child(el("span", [Child(v)]))]), lambda v: el("div", [Child(lit('"a"', "a")), Child(el("frag", [Child(v)])), Child(lit('"z"', "z"))]),
        lambda v: el("classes", [Child(lit('"a"', "a")), Child(el("span", [Child(v)])), Child(lit('"z"', "z"))]),
        lambda v: el("a", [Child(el("b", [Child(el("i", [Child(el("u", [Child(v)]))]))]))]),
        lambda v: el("r#var".replace("r#", ""), [Child(v)]),
    ]
    for w in one:
        for vf in fl(VA):
            add(lambda c: w(vf(c)))
    # the same without binding: the template is rendered where it is constructed
    for vf in fl(VA):
        add(lambda c: el("div", [Attr(lit("x", "x"), vf(c)), Child(vf(c))]), inline=True)
    add(lambda c: el("div", [Attr(lit("x", "x"), lit('format_args!("{}<", 1)', "1&lt;")), Child(lit('format_args!("{:>3}&", 2)', "  2&amp;"))]), inline=True)
    add(lambda c: el("div", [Child(el("b", [Child(lit('format_args!("{}{}", "<", 2)', "&lt;2"))])), Child(lit('format_args!("x")', "x"))]), inline=True)
    # pairs of children, pairs of attributes
    P = fl(VA) if deep else pick(VA, "small")
    for f, g in itertools.product(P, P):
        add(lambda c: el("div", [Child(f(c)), Child(g(c))]))
    S = pick(VA, "small")
    for f, g in itertools.product(S, S):
        add(lambda c: el("frag", [Child(f(c)), Child(g(c))]))
        add(lambda c: el("div", [Child(f(c)), Attr(lit("x", "x"), g(c)), Child(lit('"m"', "m"))]))
        add(lambda c: el("div", [Child(el("p", [Child(f(c))])), Child(el("p", [Child(g(c))]))]))
    NS, VS = pick(NA, "small"), pick(VA, "tiny")
    for n1, v1, n2, v2 in itertools.product(NS if deep else pick(NA, "tiny"), VS, NS, VS):
        add(lambda c: el("a", [Attr(n1(c), v1(c)), Attr(n2(c), v2(c))]))
    # triples, quadruples
    T = pick(VA, "small") if deep else pick(VA, "tiny") + [nth(VA, x) for x in ("void", "void attr", "element attr", "empty", "custom")]
    for t in itertools.product(T, repeat=3):
        add(lambda c: el("div", [Child(f(c)) for f in t]))
    for t in itertools.product(pick(VA, "tiny") if deep else pick(VA, "five"), repeat=4):
        add(lambda c: el("div", [Child(f(c)) for f in t]))
    # all element trees up to 5 (6) nodes
    leafs = {"v": lambda c: E(c, '"v<"', "v&lt;"), "l": lambda c: lit('"l&"', "l&amp;"), "br": lambda c: el("br", [])}
    for n in range(1, 6 if deep else 5):
        for t in trees(n, ["div", "frag", "span"], ["v", "l", "br"]):
            if len(t) > 1:
                add(lambda c: tree_v(c, t, leafs))
    for t in trees(6 if deep else 5, ["div"], ["v", "l"]) + trees(7 if deep else 6, ["div"], ["v"]):
        add(lambda c: tree_v(c, t, leafs))
    # every interleaving of up to 3 attributes and 3 children
    at = [lambda c: Attr(lit("a", "a"), E(c, "1", "1")), lambda c: Attr(E(c, '"b"', "b"), lit('"2"', "2")), lambda c: Attr(lit("k", "k"), None, (E(c, "true", ""), True, False)), lambda c: Attr(lit("d", "d"), lit('"<"', "&lt;"))]
    ch = [lambda c: Child(lit('"x"', "x")), lambda c: Child(E(c, '"y"', "y")), lambda c: Child(el("p", [Child(E(c, "3", "3")), Attr(lit("q", "q"), E(c, "4", "4"))])), lambda c: Child(el("br", []))]
    for na in range(0, 5):
        for nc in range(0, 5):
            if na + nc > (8 if deep else 6):
                continue
            for pos in itertools.combinations(range(na + nc), na):
                def b(c):
                    its, x, y = [], 0, 0
                    for i in range(na + nc):
                        if i in pos:
                            its.append(at[x](c)); x += 1
                        else:
                            its.append(ch[y](c)); y += 1
                    return el("div", its)
                add(b)
                add(lambda c: el("section", [Child(lit('"s"', "s")), Child(b(c)), Child(lit('"e"', "e"))]))
                if nc and na:
                    add(lambda c: el("frag", [Child(b(c)), Child(b(c))]))
    # ladders: number of items, depth
    kinds = [lambda c, i: lit(f'"{i}"', str(i)), lambda c, i: E(c, f"{i}", str(i)), lambda c, i: el("b", [Child(E(c, f"{i}", str(i)))]), lambda c, i: (lit(f"{i}", str(i)) if i % 2 else E(c, f'"{i}"', str(i)))]
    for k in kinds:
        for n in list(range(0, 36)) + [64, 100, 101, 128, 255, 256, 257] + ([400, 700] if deep else []):
            add(lambda c: el("div", [Child(k(c, i)) for i in range(n)]))
            if n < 40:
                add(lambda c: el("frag", [Child(k(c, i)) for i in range(n)], trail="," if n else ""))
                add(lambda c: el("div", [Attr(lit(f"a{i}", f"a{i}"), k(c, i)) for i in range(n)]))
                add(lambda c: el("div", [x for i in range(n) for x in (Child(k(c, i)), Attr(lit(f"a{i}", f"a{i}"), k(c, i + 50)))]))
                add(lambda c: el("link", [Attr(E(c, f'"n{i}"', f"n{i}"), k(c, i)) for i in range(n)]))
    for tags in (["div"], ["div", "span", "b"], ["frag", "p"], ["classes", "q", "frag"]):
        for d in list(range(1, 17)) + [24, 32] + ([48] if deep else []):
            def b(c, d=d):
                v = E(c, '"x"', "x")
                for i in range(d):
                    its = [Child(v)]
                    if i % 3 == 1:
                        its = [Child(lit(f'"{i}"', str(i)))] + its
                    if i % 3 == 2:
                        its = its + [Child(E(c, f"{i}", str(i)))]
                    v = el(tags[i % len(tags)], its)
                # evaluation order is not this property's matter
                v.log = []
                return v
            add(b)
            out[-1].log = None
    # long literals and long texts
    for n in list(range(0, 70)) + [127, 128, 255, 256, 1000, 4095, 4096, 4097, 65535, 65536, 70000]:
        s = "".join("ab<d&f\"h'j>"[i % 11] for i in range(n))
        add(lambda c: el("p", [Child(lit(rstr(s), esc(s)))]))
        add(lambda c: el("p", [Attr(lit("x", "x"), lit(rstr(s), esc(s))), Child(E(c, "1", "1")), Child(lit(rstr(s), esc(s)))]))
        add(lambda c: el("p", [Child(E(c, rstr(s), esc(s))), Attr(lit("x", "x"), E(c, rstr(s), esc(s)))]))
    # white space and comments in the source do not matter
    for sep in (",", " , ", ", /* c */ ", ",\t"):
        add(lambda c: el("div", [Attr(lit("x", "x"), lit("1", "1")), Child(lit('"a"', "a")), Child(el("b", [Child(lit('"c"', "c"))])), Child(E(c, '"d"', "d"))], sep=sep))
    # names in the program that the generated code also uses
    for nm in ("t1", "T1", "_div", "buffer", "this", "value", "render", "laby", "__variant_1", "x", "s", "r#self_", "element", "res", "write", "_self"):
        def b(c):
            v = nm.replace("r#self_", "self_")
            c.pre.append(f'let {v} = "n<";')
            return el("div", [Attr(lit("a", "a"), lit(v, "n&lt;")), Child(lit(v, "n&lt;")), Child(el("div", [Child(lit(v, "n&lt;"))])), Child(lit(f"(div!({v}))", "<div>n&lt;</div>"))])
        add(b)
    return out


# ------------------------------------------------------------------------------------------- C11

def contents():
    """(builder, pure): composite values; pure ones capture no local variable."""
    A = []
    def a(f, pure=True):
        A.append((f, pure))
    s = lambda x: lit(rstr(x), esc(x))
    a(lambda c: el("b", [Child(s("t<"))]))
    a(lambda c: el("b", []))
    a(lambda c: el("br", []))
    a(lambda c: el("input", [Attr(lit("v", "v"), E(c, '"w&"', "w&amp;"))]))
    a(lambda c: el("p", [Attr(lit("x", "x"), s("1")), Child(E(c, "5", "5")), Child(el("i", [Child(s("&"))]))]))
    a(lambda c: el("p", [Child(E(c, '"<"', "&lt;")), Attr(E(c, '"n"', "n"), lit("1", "1")), Attr(lit("o", "o"), None, (E(c, "true", ""), True, False)), Attr(lit("off", "off"), None, (E(c, "false", ""), False, False))]))
    a(lambda c: el("frag", []))
    a(lambda c: el("frag", [Child(s("f")), Child(E(c, "'<'", "&lt;")), Child(el("hr", []))]))
    a(lambda c: el("frag", [Child(el("frag", [Child(E(c, "1", "1"))])), Child(el("frag", []))]))
    a(lambda c: el("classes", [Child(s("k1")), Child(E(c, "None::<&str>", "")), Child(s("k3"))]))
    a(lambda c: el("classes", []))
    a(lambda c: el("classes", [Child(el("classes", [Child(E(c, '"a"', "a")), Child(s("b"))])), Child(el("frag", [Child(s("c")), Child(s("d"))]))]))
    a(lambda c: el("div", [Child(el("div", [Child(el("div", [Child(E(c, '"deep"', "deep"))]))])), Child(el("frag", [Child(el("br", []))]))]))
    a(lambda c: el("ul", [Child(el("li", [Child(E(c, str(i), str(i)))])) for i in range(12)]))
    def lv(c):
        v = c.fresh(); c.pre.append(f'let {v} = String::from("lo<");'); return lit(v, "lo&lt;")
    a(lambda c: el("em", [Child(lv(c)), Attr(lit("x", "x"), lv(c))]), False)
    a(lambda c: (lambda v: V(f"comp1!({v.src}, x = 2)", f"<article>2<main>{v.out}</main></article>", v.log))(el("b", [Child(E(c, '"c"', "c"))])))
    a(lambda c: (lambda f, v: V(f"frag_match!(if {f.src} {{ 0 }} else {{ {v.src} }})", v.out, f.log + v.log))(E(c, "false", ""), el("b", [Child(E(c, '"m"', "m"))])))
    a(lambda c: lit('iter!((0..3).map(|n| li!(n, "<")))', "<li>0&lt;</li><li>1&lt;</li><li>2&lt;</li>"))
    a(lambda c: lit('iter!("|", vec![1, 2])', "1|2"))
    a(lambda c: E(c, '"plain\'"', "plain&#39;"))
    a(lambda c: lit("()", ""))
    a(lambda c: lit('raw!("<x>")', "<x>"))
    return A


def forms():
    """(name, function (ctx, V, pure) -> V or None): ways to write the same value."""
    F = {}
    def wrapsrc(pat):
        return lambda c, v, pure: V(pat.replace("@", v.src), v.out, v.log)
    F["inline"] = lambda c, v, pure: v
    def bound(c, v, pure):
        n = c.fresh()
        c.pre.append(f"let {n} = {v.src};")
        c.prelog += v.log
        return V(n, v.out, [])
    F["bound"] = bound
    def bound2(c, v, pure):
        n, m = c.fresh(), c.fresh()
        c.pre.append(f"let {n} = {v.src}; let {m} = rend({n});")
        c.prelog += v.log
        return V(m, v.out, [])
    F["moved"] = bound2
    def func(c, v, pure):
        if not pure:
            return None
        n = c.fresh("f")
        # FN@ becomes a prefix that is unique to the case
        c.items.append(f"fn FN@{n}() -> impl Render {{ {v.src} }}")
        return V(f"FN@{n}()", v.out, v.log)
    F["function"] = func
    F["generic call"] = wrapsrc("rend(@)")
    F["impl call"] = wrapsrc("wrapi(@)")
    F["component"] = wrapsrc("pass!(x = @)")
    F["component rest"] = wrapsrc("passrest!(@)")
    F["paren"] = wrapsrc("(@)")
    F["block"] = wrapsrc("{ @ }")
    F["let block"] = wrapsrc("{ let q = @; q }")
    F["closure"] = wrapsrc("(move || @)()")
    F["some"] = wrapsrc("Some(@)")
    F["tuple"] = wrapsrc("(@, 1).0")
    F["same"] = wrapsrc("same!(@)")
    F["via"] = wrapsrc("via!(@)")
    F["frag_match"] = wrapsrc("frag_match!(if true { @ } else { () })")
    F["frag_match arm"] = wrapsrc("frag_match!(match 1 { 0 => 'z', _ => @ })")
    F["once"] = wrapsrc("iter!(Some(@))")
    F["if"] = wrapsrc("if true { Some(@) } else { None }")
    F["path"] = lambda c, v, pure: V("laby::" + v.src, v.out, v.log) if v.src.split("!")[0] in NORMAL + VOID + ["frag", "classes", "frag_match", "iter", "raw"] else None
    F["frag of it"] = wrapsrc("frag!(@)")
    F["path frag of it"] = wrapsrc("laby::frag!(@)")
    F["classes of it"] = wrapsrc("classes!(@)")
    return F


def contexts1():
    s = lambda x: lit(rstr(x), esc(x))
    kid = Child
    x1 = lambda: Attr(lit("x", "x"), lit("1", "1"))
    return [
        lambda c, v: v,
        lambda c, v: el("div", [kid(v)]),
        lambda c, v: el("div", [x1(), kid(s("<")), kid(v), kid(s("z"))]),
        lambda c, v: el("div", [kid(E(c, "1", "1")), kid(v), kid(E(c, "2", "2"))]),
        lambda c, v: el("div", [Attr(lit("c", "c"), v)]),
        lambda c, v: el("frag", [kid(v)]),
        lambda c, v: el("frag", [kid(s("a")), kid(v), kid(E(c, "2", "2"))]),
        lambda c, v: el("classes", [kid(s("a")), kid(v), kid(E(c, "2", "2"))]),
        lambda c, v: el("classes", [kid(v)]),
        lambda c, v: el("ul", [kid(el("li", [kid(v)])), kid(el("li", []))]),
        lambda c, v: (lambda w: V(f"comp1!({w.src})", f"<article><main>{w.out}</main></article>", w.log))(v),
        lambda c, v: (lambda w: V(f"comp1!(x = {w.src}, 3)", f"<article>{w.out}<main>3</main></article>", w.log))(v),
        lambda c, v: el("section", [kid(v), Attr(lit("after", "after"), lit('"w"', "w"))]),
        lambda c, v: el("col", [Attr(lit("val", "val"), v), x1()]),
    ]


def gen_c11(tier):
    deep = tier == "thorough"
    out = []
    F, C, X = forms(), contents(), contexts1()
    for cf, pure in C:
        for name, form in F.items():
            for ctx in X:
                c = Ctx()
                v = form(c, cf(c), pure)
                if v is None:
                    continue
                out.append(Case(c, ctx(c, v)))
    forms2 = list(F) if deep else ["inline", "bound", "function", "component", "paren", "path", "closure", "component rest"]
    conts2 = C if deep else [C[i] for i in (0, 4, 5, 7, 9, 11, 14)]
    for cf, pure in conts2:
        for name in forms2:
            for c1 in X[1:]:
                for c2 in X[1:]:
                    c = Ctx()
                    v = F[name](c, cf(c), pure)
                    if v is not None:
                        out.append(Case(c, c2(c, c1(c, v))))
    # a form in a form: the parts of a tree written in different ways
    few = ["inline", "bound", "function", "component", "paren", "path", "closure", "via"]
    for f1, f2, f3 in itertools.product(few, repeat=3):
        for c1 in (X[1], X[3], X[6], X[7], X[4]):
            for c2 in (X[1], X[6], X[7]) if deep else (X[3],):
                c = Ctx()
                v = F[f1](c, el("b", [Attr(lit("k", "k"), lit('"<"', "&lt;")), Child(E(c, '"v"', "v"))]), True)
                v = c1(c, v)
                pure = f1 != "bound"
                if v.src.split("!")[0] not in NORMAL + VOID + ["frag", "classes"] and f2 == "path":
                    continue
                v = F[f2](c, v, pure)
                if v is None:
                    continue
                v = c2(c, v)
                v = F[f3](c, v, pure and f2 != "bound")
                if v is not None:
                    out.append(Case(c, v))
    # two composed parts next to each other
    pairs = [C[i][0] for i in (0, 2, 4, 5, 7, 9, 11, 15)]
    for a, b in itertools.product(pairs, repeat=2):
        for f1, f2 in itertools.product(("inline", "function", "paren", "component"), repeat=2):
            for w in ("div", "frag", "classes"):
                c = Ctx()
                va = F[f1](c, a(c), True)
                vb = F[f2](c, b(c), True)
                out.append(Case(c, el(w, [Child(va), Child(vb)])))
    for o in out:
        o.log = None
    return out


# ------------------------------------------------------------------------------------------- C12

def literals():
    """(source, expected text or None)."""
    L = []
    strs = [('""', ""), ('"a"', "a"), ('"<&>\\"\'"', "<&>\"'"), ('"\\n\\t\\r\\\\\\0"', "\n\t\r\\\0"), ('"\\x41\\x7f"', "A\x7f"), ('"\\u{e9}\\u{1F600}\\u{0}"', "é\U0001F600\0"),
            ('"é漢😀"', "é漢😀"), ('r"a\\nb"', "a\\nb"), ('r#"a"b"#', 'a"b'), ('r##"a"#b<"##', 'a"#b<'), ('r""', ""), ('"a\\\n      b"', "ab"), ('"a\nb"', "a\nb"), ('"{}"', "{}"), ('"{x}%s$1"', "{x}%s$1"),
            ('"&amp;&#39;"', "&amp;&#39;"), ('"//x/*y*/"', "//x/*y*/"), ('"#[x]"', "#[x]"), ('" lead and trail "', " lead and trail "), ('"\'"', "'"), ('"\\\'"', "'"), ('"0123456789abcdef<0123456789abcdef>"', "0123456789abcdef<0123456789abcdef>"),
            ('"\\u{feff}x\\u{202e}"', "\ufeffx\u202e"), ('"%"', "%"), ('"\\\\"', "\\"), ('"true"', "true"), ('"1"', "1")]
    for s, v in strs:
        L.append((s, esc(v)))
    for s, v in [("'a'", "a"), ("'\"'", '"'), ("'\\''", "'"), ("'&'", "&"), ("'<'", "<"), ("'>'", ">"), ("'\\n'", "\n"), ("'\\0'", "\0"), ("'\\\\'", "\\"), ("'\\x41'", "A"), ("'\\u{1F600}'", "\U0001F600"), ("'é'", "é"), ("' '", " "), ("'{'", "{"), ("'0'", "0"), ("'\\u{10ffff}'", "\U0010ffff")]:
        L.append((s, esc(v)))
    for s, v in [("b'a'", 97), ("b'\\''", 39), ("b'\\n'", 10), ("b'\\xFF'", 255), ("b'\\\\'", 92), ("b'\\0'", 0), ("b'0'", 48), ("b'<'", 60), ("b'\"'", 34), ("b' '", 32)]:
        L.append((s, str(v)))
    L += [("true", "true"), ("false", "false")]
    for t, bits, sg in [(p + n, int(n) if n != "size" else 64, p == "i") for p in "ui" for n in ("8", "16", "32", "64", "128", "size")]:
        mx = 2 ** (bits - sg) - 1
        for v in (0, 1, 9, 10, 99, 100, mx - 1, mx):
            L.append((f"{v}{t}", str(v)))
        L += [(f"{hex(mx)}{t}", str(mx)), (f"{hex(mx).upper().replace('X', 'x')}_{t}", str(mx)), (f"0b{bin(min(mx, 100))[2:]}_{t}", str(min(mx, 100))), (f"0o17{t}", "15"), (f"1_0_{t}", "10")]
    for s, v in [("0", 0), ("7", 7), ("10", 10), ("1_000", 1000), ("0xFF", 255), ("0xff_ff", 65535), ("0o17", 15), ("0b1010", 10), ("0b_1", 1), ("2147483647", 2147483647), ("0x7fff_ffff", 2147483647), ("00012", 12), ("1__0", 10), ("0x0", 0), ("0xABCDEF", 0xABCDEF), ("0xe1", 0xe1), ("0x1f32", 0x1f32), ("0xf64", 0xf64), ("100", 100), ("1_", 1)]:
        L.append((s, str(v)))
    for s in ["0.0", "1.0", "1.5", "0.1", "1.", "100.", "1e3", "1E3", "1e-7", "1e21", "1e16", "1e15", "1e17", "1e300", "1.5e-300", "1e+5", "1_0.5_0", "1_0e1_0", "123456789.125", "0.30000000000000004", "4.9e-324", "1.7976931348623157e308", "2.2250738585072014e-308", "9007199254740993.0", "0.000001", "0.00001", "1e-5", "123456789012345680.0", "3.14159265358979", "5e0", "16777217.0", "0.3333333333333333", "2e0_1", "1e23", "8.41e21", "9.5367431640625e-7", "1.0e10", "12345678.9",
              "0.5f32", "0.1f32", "16777217.0f32", "1e10f32", "3.4028235e38f32", "1e-45f32", "1.1754944e-38f32", "5f32", "5f64", "1_0f32", "16777217f32", "0f32", "0f64", "255f64", "1e3f32", "1e3_f32", "3.3333333f32", "123456.789f32", "1.5f64", "0.1_f64", "1e7f64", "9007199254740993f64", "4294967295f32", "1_000_000_000_000_000_000f64", "33554433f32", "0.2f32", "7.0e-10f32", "8388608.5f32", "2.5_f32", "1e1f32"]:
        L.append((s, None))
    for s in ["-1", "-128i8", "-1.5", "-0.0", "-2147483648", "-1e-7", "-0.1f32", "-9223372036854775808i64"]:
        L.append((s, None))
    return L


LWRAP = ["@", "(@)", "((@))", "{ @ }", "{ { @ } }", "({ @ })", "{ (@) }", "{ ((@)) }", "(((@)))", "{ let _z = 0; @ }", "{ ; @ }", "same!(@)", "via!(@)", "unsafe { @ }", "idt(@)", "{ { { @ } } }", "(via!((@)))", "{ #[allow(unused)] let _q = (); @ }"]
LPOS = [
    "div!(@)", "frag!(@)", "classes!(@)", 'div!("x", @)', 'div!(@, "x")', 'div!("a<", @, "b>")', "div!(p!(@))", "div!(1, frag!(@, 2), 3)", "classes!('k', @, 'l')", "div!(vv, @, vv)", "div!(@, @)", "classes!(@, @)", "frag!(vv, @)", "div!(b!(), @, br!())",
    "div!(x = @)", 'div!(x = @, y = "1", "c")', 'div!("c", y = vv, x = @)', "img!(x = @)", "div!(frag!(p!(x = @, vv)))",
    "div!({N} = 1)", "img!({N} = vv)", "div!({N} = bool!(true))", "div!({N} = bool!(ff))", "img!(vv, {N} = bool!(tt))".replace("vv, ", ""), 'div!({N} = @, "c")', "div!(p!(x = 1, {N} = vv), @)",
    "comp1!(@)", "comp1!(x = @, @)", "laby::div!(laby::frag!(@), x = @)", "div!((p!(@)))", "div!(x = p!(@))", "div!(x = frag!(@, @))", "frag_match!(if true { @ } else { 'z' })", "frag_match!(match 1 { 1 => @, _ => 'z' })", "div!(Some(@))",
]


def gen_c12(tier):
    deep = tier == "thorough"
    out = []
    L = literals()
    pre = ['let vv = "v&";', "let tt = true; let ff = false;"]

    def put(pos, l, wrap):
        src = wrap.replace("@", l)
        if pos.count("{N}") and not wrap_ok_as_name(src):
            return
        c = Ctx()
        c.pre = list(pre)
        t = pos.replace("{N}", src).replace("@", src)
        ref = "{ let lv = " + l + "; rs(" + pos.replace("{N}", "(lv)").replace("@", "lv") + ") }"
        out.append(Case(c, V(t, None), twin=ref))
        out[-1].log = None

    def wrap_ok_as_name(src):
        return True

    few = LWRAP if deep else LWRAP[:1]
    for l, _ in L:
        for pos in LPOS:
            for w in few:
                put(pos, l, w)
        if not deep:
            for w in LWRAP[1:]:
                for pos in (LPOS[5], LPOS[15], LPOS[24]):
                    put(pos, l, w)
    # the same against what the notation means
    for l, v in L:
        if v is not None:
            for w in LWRAP[:9]:
                s = w.replace("@", l)
                c = Ctx()
                out.append(Case(c, el("div", [Attr(lit(s, v), lit(s, v)), Child(lit(s, v)), Child(lit('"|"', "|")), Child(lit(s, v))])))
    # neighbours: two literals
    M = [("\"<\"", "&lt;"), ("\"\"", ""), ("'&'", "&amp;"), ("7", "7"), ("1.5", "1.5"), ("2.0", "2.0"), ("true", "true"), ("b'a'", "97"), ('r#"""#', "&quot;"), ("0xFFu8", "255"), ("(3)", "3"), ("{ \"q'\" }", "q&#39;"), ("0.5f32", "0.5"), ("'\\n'", "\n"), ("\"é\"", "é"), ("1e3", "1000.0")]
    for a, b in itertools.product(M, repeat=2):
        x, y = lit(*a), lit(*b)
        out.append(Case(Ctx(), el("div", [Child(x), Child(y)])))
        out.append(Case(Ctx(), el("classes", [Child(x), Child(y), Child(x)])))
        out.append(Case(Ctx(), el("div", [Attr(x, y), Attr(y, x), Child(y), Child(el("b", [Child(x)])), Child(y)])))
        for z in (M if deep else M[:6]):
            out.append(Case(Ctx(), el("frag", [Child(x), Child(y), Child(lit(*z))])))
    return out


# ------------------------------------------------------------------------------------------- C13

def gen_c13(tier):
    deep = tier == "thorough"
    out = []
    add = lambda b, **kw: out.append(case(b, **kw))
    # every kind of expression, logged around or inside, in every position
    for label, vf, tags in VA:
        for shape in range(4):
            def b(c):
                i = c.id()
                v = vf(c)
                inner = v.log
                src = f"e({i}, {v.src})" if shape % 2 == 0 else f"{{ e({i}, ()); {v.src} }}"
                w = V(src, v.out, (inner + [[i]]) if shape % 2 == 0 else [[i]] + inner)
                if shape < 2:
                    return el("div", [Child(E(c, "1", "1")), Attr(lit("x", "x"), E(c, "2", "2")), Child(w), Child(E(c, "3", "3"))])
                return el("div", [Child(E(c, "1", "1")), Attr(E(c, '"y"', "y"), w), Attr(lit("x", "x"), E(c, "2", "2")), Child(el("p", [Child(E(c, "3", "3"))]))])
            add(b)
    for label, nf, tags in NA:
        if label in ("ident", "keywordlike", "underscore", "leading underscore", "case", "ident t1", "ident buffer", "ident self-like"):
            continue
        for flag in ("none", "true", "on", "offvar", "false"):
            def b(c):
                i = c.id()
                n = nf(c)
                n = V(f"{{ e({i}, ()); {n.src} }}", n.out, [[i]] + n.log)
                x = E(c, '"a"', "a")
                a = Attr(n, E(c, "2", "2")) if flag == "none" else Attr(n, None, {"true": (lit("true", ""), True, True), "on": (E(c, "true", ""), True, False), "offvar": (E(c, "false", ""), False, False), "false": (lit("false", ""), False, True)}[flag])
                return el("div", [Child(x), a, Child(E(c, "3", "3")), Attr(lit("w", "w"), E(c, "4", "4"))])
            add(b)
    # statements in blocks whose value is a literal
    for blk in ('{ e(1, ()); "l" }', "{ e(1, ()); { 'l' } }", "({ e(1, ()); (\"l\") })", "{ { e(1, ()); \"l\" } }", "{ let _x = e(1, 5); 'l' }", "{ e(1, ()); 'l' }", "match e(1, 1) { _ => 'l' }", "{ if e(1, true) {}; 'l' }", "{ if e(1, true) {} 'l' }"):
        for pos in ("div!(@)", "div!(x = @)", "div!(@ = 1)", "div!(@ = bool!(true))", "classes!('a', @)", "div!(p!(@))"):
            outv = {"div!(@)": "<div>l</div>", "div!(x = @)": '<div x="l"></div>', "div!(@ = 1)": '<div l="1"></div>', "div!(@ = bool!(true))": "<div l></div>", "classes!('a', @)": "a l", "div!(p!(@))": "<div><p>l</p></div>"}[pos]
            s = f"({blk})" if blk.startswith("match") and "@ =" in pos else blk
            out.append(Case(Ctx(), V(pos.replace("@", s), outv, [[1]])))
    for blk in ("{ e(1, ()); true }", "{ e(1, true) }", "({ e(1, ()); true })", "e(1, 1) == 1", "!e(1, false)", "e(1, true) && e(2, true)", "e(1, false) || e(2, true)"):
        ids = [[1], [2]] if "e(2" in blk else [[1]]
        out.append(Case(Ctx(), V(f"div!(x = bool!({blk}), 'c')", "<div x>c</div>", ids)))
        out.append(Case(Ctx(), V(f"div!('c', \"n\" = bool!({blk}))", "<div n>c</div>", ids)))
    # trees with expressions at every leaf
    leafs = {"v": lambda c: E(c, '"v"', "v"), "a": lambda c: el("br", [Attr(E(c, '"n"', "n"), E(c, "1", "1"))]), "w": lambda c: el("b", [Child(E(c, "1", "1")), Attr(lit("k", "k"), E(c, "2", "2")), Child(E(c, "3", "3"))])}
    for n in range(1, 6 if deep else 5):
        for t in trees(n, ["div", "frag", "classes"], ["v", "a", "w"]):
            if len(t) > 1:
                add(lambda c: tree_v(c, t, leafs))
    for n in (5, 6, 7) if deep else (5, 6):
        for t in trees(n, ["div"] if n > 5 else ["div", "frag"], ["v"] if n > 5 else ["v", "w"]):
            add(lambda c: tree_v(c, t, leafs))
    # interleavings of attributes of every form and children
    at = {
        "v": lambda c: Attr(lit("a", "a"), E(c, "1", "1")),
        "nv": lambda c: Attr(E(c, '"b"', "b"), E(c, "2", "2")),
        "n": lambda c: Attr(E(c, '"c"', "c"), lit("3", "3")),
        "f": lambda c: Attr(lit("d", "d"), None, (E(c, "true", ""), True, False)),
        "g": lambda c: Attr(lit("d", "d"), None, (E(c, "false", ""), False, False)),
        "nf": lambda c: Attr(E(c, '"e"', "e"), None, (E(c, "true", ""), True, False)),
        "ng": lambda c: Attr(E(c, '"e"', "e"), None, (E(c, "false", ""), False, False)),
        "nt": lambda c: Attr(E(c, '"t"', "t"), None, (lit("true", ""), True, True)),
        "nz": lambda c: Attr(E(c, '"z"', "z"), None, (lit("false", ""), False, True)),
        "l": lambda c: Attr(lit("l", "l"), lit('"l"', "l")),
        "c": lambda c: Child(E(c, '"x"', "x")),
        "k": lambda c: Child(el("p", [Child(E(c, "5", "5")), Attr(lit("q", "q"), E(c, "6", "6"))])),
        "r": lambda c: Child(el("frag", [Child(E(c, "7", "7")), Child(el("br", [Attr(lit("q", "q"), None, (E(c, "true", ""), True, False))]))])),
        "x": lambda c: Child(lit("'x'", "x")),
        "pc": lambda c: Child((lambda v: V(f"({v.src})", v.out, v.log))(el("i", [Child(E(c, "8", "8")), Attr(lit("q", "q"), E(c, "9", "9"))]))),
        "fm": lambda c: Child((lambda x, y: V(f"frag_match!(if {x.src} {{ {y.src} }} else {{ () }})", y.out, x.log + y.log))(E(c, "true", ""), E(c, "1", "1"))),
    }
    ks = list(at)
    for n in (1, 2, 3):
        for t in itertools.product(ks, repeat=n):
            add(lambda c: el("div", [at[k](c) for k in t]))
            if n == 3 and not deep:
                continue
            add(lambda c: el("section", [Child(E(c, "10", "10")), Child(el("div", [at[k](c) for k in t])), Attr(lit("z", "z"), E(c, "11", "11"))]))
    for t in itertools.product(ks if deep else ["nv", "nf", "ng", "c", "k", "nz"], repeat=4):
        add(lambda c: el("div", [at[k](c) for k in t]))
    if not deep:
        for t in itertools.product(["v", "f", "c", "k"], repeat=5):
            add(lambda c: el("div", [at[k](c) for k in t]))
    # many expressions
    for n in list(range(0, 30)) + [64, 100, 110, 300]:
        add(lambda c: el("div", [Child(E(c, str(i), str(i))) for i in range(n)]))
        add(lambda c: el("div", [x for i in range(n) for x in (Child(E(c, str(i), str(i))), Attr(lit(f"a{i}", f"a{i}"), E(c, "1", "1")))]))
        add(lambda c: el("frag", [Child(el("b", [Child(E(c, str(i), str(i))), Attr(E(c, f'"n{i}"', f"n{i}"), E(c, "2", "2"))])) for i in range(n)]))
        add(lambda c: el("hr", [Attr(E(c, f'"n{i}"', f"n{i}"), None, (E(c, "true" if i % 2 else "false", ""), bool(i % 2), False)) for i in range(n)]))
    # composed: function calls, components, closures
    for name, form in forms().items():
        for name2 in ("inline", "component", "component rest", "paren", "closure", "frag_match", "generic call"):
            c = Ctx()
            v = el("b", [Child(E(c, "1", "1")), Attr(E(c, '"n"', "n"), E(c, "2", "2"))])
            x = form(c, v, True)
            if x is not None:
                y = forms()[name2](c, el("p", [Attr(lit("k", "k"), E(c, "3", "3")), Child(x), Child(E(c, "4", "4"))]), "bound" not in name and name != "moved")
                # what is evaluated before the template comes first
                out.append(Case(c, el("div", [Child(E(c, "5", "5")), Attr(lit("w", "w"), E(c, "6", "6")), Child(y), Child(E(c, "7", "7"))])))
    # component arguments: each once
    for call, n in (("comp1!(e(1, 1), x = e(2, 2), e(3, 3))", 3), ("comp1!(x = e(1, 1))", 1), ("comp1!(e(1, 1), e(2, 2))", 2), ("div!(comp1!(b!(e(1, 1), k = e(2, 2))), e(3, 3))", 3)):
        c = Ctx()
        v = V(call, None, [[i + 1 for i in range(n)]] if "div" not in call else [[1, 2], [3]])
        out.append(Case(c, v))
    # the value keeps the results: state changed after construction is not seen, the template is not looked at before rendering
    for pre, src, post, o in [
        ("let k = std::cell::Cell::new(1);", "div!(k.get(), x = k.get())", "k.set(2);", '<div x="1">1</div>'),
        ("let k = std::cell::Cell::new(true);", "div!(x = bool!(k.get()))", "k.set(false);", "<div x></div>"),
        ("let k = std::cell::Cell::new(false);", "img!(\"n\" = bool!(k.get()), (k.get()) = bool!(!k.get()))", "k.set(true);", "<img false>"),
        ("let k = std::cell::Cell::new(\"a\");", "div!((k.get()) = k.get(), p!(k.get()))", "k.set(\"b\");", '<div a="a"><p>a</p></div>'),
        ("let k = std::cell::Cell::new(1);", "frag_match!(if k.get() == 1 { k.get() } else { \"z\" })", "k.set(2);", "1"),
        ("let k = std::cell::Cell::new(1);", "comp1!(k.get(), x = k.get())", "k.set(2);", "<article>1<main>1</main></article>"),
        ("let mut n = 1;", "div!(n, { n += 1; n }, n)", "n = 9;", "<div>122</div>"),
        ("let mut n = 1;", "div!({ n += 1; n }, x = { n += 10; n }, b!({ n += 100; n }))", "n = 9;", '<div x="11">12<b>112</b></div>'),
        ("let mut n = 1;", "div!({ n *= 2; n }, (n) = { n += 5; n }, { n *= 3; n })", "", '<div 1="6">1236</div>'),
        ("let k = std::cell::Cell::new(0); let f = || { k.set(k.get() + 1); k.get() };", "div!(f(), b!(f(), x = f()), y = f(), f())", "f();", '<div y="1">2<b x="3">4</b>5</div>'),
        ("let mut v = vec![1, 2];", "div!(iter!(v.clone()), x = v.len())", "v.push(3);", '<div x="2">12</div>'),
        ("let s = String::from(\"s\");", "div!(s.clone(), s)", "", "<div>ss</div>"),
    ]:
        c = Ctx()
        c.pre.append(pre)
        out.append(Case(c, V(src, o), post=[post]))
    return out


# ------------------------------------------------------------------------------------------- C14

def flag_atoms():
    A = []
    for on in (True, False):
        t, f = ("true", "false") if on else ("false", "true")
        def pv(c, x, ty=""):
            n = c.fresh(); c.pre.append(f"let {n}{ty} = {x};"); return n
        def a(label, build, *tags, is_lit=False, on=on):
            A.append((label + (" on" if on else " off"), lambda c: (build(c), on, is_lit), tags))
        a("lit", lambda c, t=t: lit(t, ""), "small", is_lit=True)
        a("paren lit", lambda c, t=t: lit(f"({t})", ""), is_lit=True)
        a("block lit", lambda c, t=t: lit(f"{{ {t} }}", ""), is_lit=True)
        a("paren block lit", lambda c, t=t: lit(f"({{ ({t}) }})", ""), is_lit=True)
        a("var", lambda c, t=t: lit(pv(c, t), ""), "small")
        a("paren var", lambda c, t=t: lit(f"({pv(c, t)})", ""))
        a("call", lambda c, t=t: E(c, t, ""), "small")
        a("not", lambda c, f=f: lit(f"!{pv(c, f)}", ""))
        a("not lit", lambda c, f=f: lit(f"!{f}", ""))
        a("cmp", lambda c, on=on: lit(f"{pv(c, '3')} {'==' if on else '!='} 3", ""))
        a("and", lambda c, t=t: lit(f"{pv(c, t)} && true", ""))
        a("or", lambda c, t=t: lit(f"false || {pv(c, t)}", ""))
        a("lit and", lambda c, t=t: lit(f"true && {t}", ""))
        a("const", lambda c, on=on: lit("FLAG" if on else "!FLAG", ""))
        a("path", lambda c, on=on: lit("paths::ON" if on else "!paths::ON", ""))
        a("fn", lambda c, t=t: lit(f"boolf({t})", ""))
        a("method", lambda c, on=on: lit(f"{pv(c, 'Some(1)')}.{'is_some' if on else 'is_none'}()", ""))
        a("field", lambda c, t=t: lit(f"{pv(c, f'({t}, 1)')}.0", ""))
        a("deref", lambda c, t=t: lit(f"*{pv(c, f'&{t}')}", ""))
        a("if", lambda c, t=t, f=f: lit(f"if {pv(c, t)} {{ true }} else {{ false }}", ""))
        a("match", lambda c, on=on: lit(f"match {pv(c, '1u8')} {{ 1 => {'true' if on else 'false'}, _ => {'false' if on else 'true'} }}", ""))
        a("matches", lambda c, on=on: lit(f"matches!({pv(c, '1u8')}, {'1' if on else '2'})", ""))
        a("block stmts", lambda c, t=t: lit(f"{{ let _q = 1; {t} }}", ""))
        a("block stmts lit flip", lambda c, t=t, f=f: lit(f"{{ let q = {f}; !q }}", ""))
        a("closure", lambda c, t=t: lit(f"(|| {t})()", ""))
        a("same", lambda c, t=t: lit(f"same!({t})", ""))
        a("via", lambda c, t=t: lit(f"via!({t})", ""))
        a("cfg", lambda c, on=on: lit("cfg!(not(nevernever))" if on else "cfg!(nevernever)", ""))
        a("index", lambda c, t=t: lit(f"{pv(c, f'[{t}]')}[0]", ""))
        a("cast cmp", lambda c, on=on: lit(f"{pv(c, '2u8')} as u32 {'<=' if on else '>'} 5", ""))
        a("bitand", lambda c, t=t: lit(f"{pv(c, t)} & true", ""))
        a("is_empty", lambda c, on=on: lit(f'{pv(c, chr(34) * 2)}.is_empty()' if on else f'"x".is_empty()', ""))
    return A


def gen_c14(tier):
    deep = tier == "thorough"
    out = []
    add = lambda b, **kw: out.append(case(b, **kw))
    FA = flag_atoms()
    # every name with every flag
    for nf in fl(NA):
        for ff in fl(FA):
            add(lambda c: el("div", [Attr(nf(c), None, ff(c))]))
    for nf in fl(NA):
        for ff in (fl(FA) if deep else pick(FA, "small")):
            add(lambda c: el("input", [Attr(nf(c), None, ff(c))]))
            add(lambda c: el("p", [Child(lit("'k'", "k")), Attr(nf(c), None, ff(c)), Child(E(c, "1", "1"))]))
            add(lambda c: el("div", [Child(el("frag", [Child(el("option", [Attr(nf(c), None, ff(c)), Child(lit('"o"', "o"))]))]))]))
            for b4 in (lambda c: Attr(lit("a", "a"), lit('"1"', "1")), lambda c: Attr(lit("a", "a"), E(c, "1", "1"))):
                add(lambda c: el("td", [b4(c), Attr(nf(c), None, ff(c)), b4(c)]))
    # brackets of the marker
    for br in ("()", "[]", "{}"):
        for f in ("true", "false", "tt", "ff", "!tt", "(true)"):
            on = f in ("true", "tt", "(true)")
            c = Ctx()
            c.pre.append("let tt = true; let ff = false;")
            out.append(Case(c, V(f"div!(x = bool!{br[0]}{f}{br[1]}, 'c')", f"<div{' x' if on else ''}>c</div>")))
    # sequences of attributes of every form: neighbours
    menu = [
        lambda c: Attr(lit("lt", "lt"), None, (lit("true", ""), True, True)),
        lambda c: Attr(lit("lf", "lf"), None, (lit("false", ""), False, True)),
        lambda c: Attr(lit("vt", "vt"), None, (E(c, "true", ""), True, False)),
        lambda c: Attr(lit("vf", "vf"), None, (E(c, "false", ""), False, False)),
        lambda c: Attr(E(c, '"nt"', "nt"), None, (E(c, "true", ""), True, False)),
        lambda c: Attr(E(c, '"nf"', "nf"), None, (E(c, "false", ""), False, False)),
        lambda c: Attr(E(c, '"mt"', "mt"), None, (lit("true", ""), True, True)),
        lambda c: Attr(E(c, '"mf"', "mf"), None, (lit("false", ""), False, True)),
        lambda c: Attr(lit("p", "p"), lit('"1"', "1")),
        lambda c: Attr(lit("q", "q"), E(c, "true", "true")),
        lambda c: Attr(E(c, '"r"', "r"), E(c, "None::<u8>", "")),
        lambda c: Attr(lit('"s-s"', "s-s"), lit("false", "false")),
        lambda c: Child(lit("'k'", "k")),
        lambda c: Child(E(c, "'l'", "l")),
        lambda c: Child(el("i", [Attr(lit("in1", "in1"), None, (E(c, "true", ""), True, False)), Attr(lit("in2", "in2"), None, (lit("false", ""), False, True)), Child(lit("'m'", "m"))])),
    ]
    for n in (1, 2, 3):
        for t in itertools.product(menu, repeat=n):
            add(lambda c: el("div", [f(c) for f in t]))
    for t in itertools.product(menu[:12] if deep else menu[:6] + [menu[9]], repeat=4):
        add(lambda c: el("img", [f(c) for f in t]))
    for n in (5, 6, 7, 8) if deep else (5, 6):
        for t in itertools.product(menu[2:4], repeat=n):
            add(lambda c: el("img", [f(c) for f in t]))
        for t in itertools.product((menu[1], menu[4]), repeat=n):
            add(lambda c: el("img", [f(c) for f in t]))
    # attributes that are not marked always have a value
    for nf in pick(NA, "small"):
        for v in ("true", "false", "(true)", "{ false }", "tt", "ff", "!tt", "FLAG", "tt && ff", "boolf(false)", "None::<bool>", "Some(false)", "()", '""', "frag!()", "tt == ff", "matches!(1, 1)", "classes!((), ())", "raw!(\"\")", "iter!(Vec::<u8>::new())", "String::new()", "bo(true)"):
            t = {"true": "true", "false": "false", "(true)": "true", "{ false }": "false", "tt": "true", "ff": "false", "!tt": "false", "FLAG": "true", "tt && ff": "false", "boolf(false)": "false", "Some(false)": "false", "tt == ff": "false", "matches!(1, 1)": "true", "classes!((), ())": " ", "bo(true)": "true"}.get(v, "")
            for tag in ("div", "input"):
                def b(c):
                    c.pre.append("let tt = true; let ff = false; fn bo(x: bool) -> bool { x }")
                    return el(tag, [Attr(lit("w", "w"), None, (lit("ff", ""), False, False)), Attr(nf(c), lit(v, t)), Attr(lit("z", "z"), None, (lit("tt", ""), True, False))])
                add(b)
    for o in out:
        o.log = None
    return out


# ------------------------------------------------------------------------------------------- C15

def gen_c15(tier):
    deep = tier == "thorough"
    out = []
    add = lambda b, **kw: out.append(case(b, **kw))
    s = lambda x: lit(rstr(x), esc(x))
    ALL = NORMAL + VOID
    at = lambda: Attr(lit("k", "k"), s("v"))
    for t in ALL:
        void = t in VOID
        kid = lambda *v: [] if void else [Child(x) for x in v]
        for path in ("", "laby::", "::laby::"):
            add(lambda c: el(t, [], path=path))
            add(lambda c: el(t, [at()] + kid(s("<")), path=path))
        add(lambda c: el(t, [], brackets="[]"))
        add(lambda c: el(t, [], brackets="{}"))
        add(lambda c: el(t, [Attr(E(c, '"n"', "n"), E(c, "1", "1"))]))
        add(lambda c: el(t, [Attr(lit("o", "o"), None, (E(c, "true", ""), True, False))]))
        add(lambda c: el(t, [at()], trail=","))
        if not void:
            add(lambda c: el(t, kid(s("x"))))
            add(lambda c: el(t, kid(E(c, '"x"', "x"))))
            add(lambda c: el(t, kid(lit("()", ""))))
            add(lambda c: el(t, kid(lit("None::<u8>", ""))))
            add(lambda c: el(t, kid(s("x"), E(c, "2", "2"), el("p", []))))
            add(lambda c: el(t, kid(el("frag", []))))
            add(lambda c: el(t, kid(lit('laby::b!("z")', "<b>z</b>"))))
        for w in ("div", "frag", "classes", "span", "table", "ul"):
            v = lambda c: el(t, [at()] + kid(s("y")))
            add(lambda c: el(w, [Child(v(c))]))
            add(lambda c: el(w, [Child(s("a")), Child(v(c)), Child(s("z"))]))
            add(lambda c: el(w, [Child(el("frag", [Child(v(c)), Child(v(c))]))]))
            add(lambda c: (lambda x: el(w, [Child(V(f"({x.src})", x.out, x.log))]))(v(c)))
            add(lambda c: (lambda x: el(w, [Child(V(f"laby::{x.src}", x.out, x.log))]))(v(c)))
            add(lambda c: (lambda x: el(w, [Child(V(f"pass!(x = {x.src})", x.out, x.log))]))(v(c)))
            add(lambda c: (lambda x: el(w, [Child(V(f"same!({x.src})", x.out, x.log))]))(v(c)))
            add(lambda c: el("div", [Attr(lit("x", "x"), v(c))]))
    for t in NORMAL:
        for u in ALL:
            add(lambda c: el(t, [Child(el(u, []))]))
            if deep:
                add(lambda c: el(t, [Child(el(u, [at()])), Child(lit("1", "1")), Child(E(c, "2", "2"))]))
                add(lambda c: el("frag", [Child(el(t, [Child(el("classes", [Child(el(u, [])), Child(el(u, []))]))]))]))
    for t in ALL:
        for u in ALL if deep else VOID + NORMAL[::7]:
            add(lambda c: el("frag", [Child(el(t, [])), Child(el(u, []))]))
    return out


# ------------------------------------------------------------------------------------------- C17

def gen_c17(tier):
    deep = tier == "thorough"
    out = []
    add = lambda b, **kw: out.append(case(b, **kw))
    def var(c, x):
        n = c.fresh(); c.pre.append(f"let {n} = {x};"); return n
    L = {
        "a": lambda c: lit('"a"', "a"), "e": lambda c: lit('""', ""), "v": lambda c: lit(var(c, '"v"'), "v"), "n": lambda c: lit(var(c, "None::<&str>"), ""), "u": lambda c: lit("()", ""), "F": lambda c: el("frag", []), "K": lambda c: el("classes", []),
        "s": lambda c: lit('" "', " "), "p": lambda c: el("p", []), "br": lambda c: el("br", []), "1": lambda c: lit("1", "1"), "pf": lambda c: lit("laby::frag!()", ""), "ob": lambda c: lit(var(c, "Some(String::new())"), ""), "i": lambda c: lit("iter!(0..2)", "01"),
        "xf": lambda c: lit('(frag!("x", "y"))', "xy"), "xk": lambda c: lit('(classes!("x", "y"))', "x y"), "fm": lambda c: lit("frag_match!(if false { 1 })", ""), "raw": lambda c: lit('raw!("r ")', "r "),
    }
    W = ["frag", "classes", "div"]
    seq = lambda keys, n: itertools.product(keys, repeat=n)
    # level 1: every sequence of items
    for w in W:
        for n in range(0, 3):
            for t in seq(L, n):
                add(lambda c: el(w, [Child(L[k](c)) for k in t]))
        for n, keys in ((3, list(L) if deep else list(L)[:10]), (4, list(L)[:9] if deep else "avnF"), (5, "avnuF" if deep else "avn"), (6, "avn" if deep else "vn"), (7, "vn")):
            for t in seq(keys, n):
                add(lambda c: el(w, [Child(L[k](c)) for k in t]))
    # levels 2 and 3: trees of fragments, class lists and elements
    for n in range(2, 7 if deep else 6):
        for t in trees(n, W, ["v", "n"] if n == 5 or n == 6 else ["v", "n", "a"]):
            if len(t) > 1 and (n < 6 or t[0] == "classes"):
                add(lambda c: tree_v(c, t, L))
    for n in (6,) if not deep else (6, 7):
        for t in trees(n, ["frag", "classes"], ["v"]):
            add(lambda c: tree_v(c, t, L))
    # wherever they are used
    lv1 = [t for n in (1, 2, 3) for t in trees(n, ["frag", "classes"], ["v", "n", "a"]) if len(t) > 1]
    pos = ["div!(x = @)", "div!(x = @, @)", "img!(class = @, id = 1)", "div!({@} = 1)", "div!({@} = bool!(true))", "(@)", "{ let q = @; q }", "pass!(x = @)", "comp1!(@, @)", "laby::frag!(@, (@))", "laby::classes!(@, (@))", "iter!(vec![1, 2].into_iter().map(|_| @))", "frag_match!(if true { @ } else { 1 })", "Some(@)", "classes!(p!(@), @)", "div!((@), laby::@)", "wrapi(@)", "render!(@)"]
    f = lambda o: {"div!(x = @)": f'<div x="{o}"></div>', "div!(x = @, @)": f'<div x="{o}">{o}</div>', "img!(class = @, id = 1)": f'<img class="{o}" id="1">', "div!({@} = 1)": f'<div {o}="1"></div>', "div!({@} = bool!(true))": f"<div {o}></div>",
                   "comp1!(@, @)": f"<article><main>{o}{o}</main></article>", "laby::frag!(@, (@))": o + o, "laby::classes!(@, (@))": o + " " + o, "iter!(vec![1, 2].into_iter().map(|_| @))": o + o, "classes!(p!(@), @)": f"<p>{o}</p> {o}", "div!((@), laby::@)": f"<div>{o}{o}</div>"}
    for t in lv1:
        for p in pos:
            def b(c):
                v = tree_v(c, t, {"v": lambda c: lit("vv", "v"), "n": lambda c: lit("nn", ""), "a": lambda c: lit('"a"', "a")})
                c.pre = ['let vv = "v"; let nn = None::<&str>;']
                return V(p.replace("@", v.src), f(v.out).get(p, v.out))
            add(b)
    # counts
    for n in list(range(0, 40)) + [64, 128, 256, 300]:
        for w in ("frag", "classes"):
            add(lambda c: el(w, [Child(L["v" if i % 3 else "n"](c)) for i in range(n)]))
            add(lambda c: el(w, [Child(L["a"](c)) for i in range(n)]))
            add(lambda c: el(w, [Child(L["a"](c)) for i in range(n)], trail="," if n else ""))
    for o in out:
        o.log = None
    return out


# ------------------------------------------------------------------------------------------- C16

RITEMS = ITEMS + r"""
struct NR; enum NE { A } struct NG<T>(T);
fn nr() -> NR { NR }
"""

# contexts in which a (malformed or well-formed) template can stand
RCTX = [
    "@", "(@)", "{ @ }", "div!(@)", "div!(x = 1, @)", "div!(@, x = 1)", "div!('a', @, 'b')", "div!(nn, @)", "frag!(@)", "frag!(@, 1)", "classes!('a', @)", "classes!(@)", "ul!(li!(@), li!())", "div!(p!(b!(i!(@))))", "div!(frag!(p!(@)))",
    "classes!(frag!(@, 1), 2)", "div!(laby::p!(@))", "laby::div!(laby::frag!(@))", "div!((@))", "div!({ @ })", "div!({ let q = @; q })", "div!(x = @)", "img!(x = @)", "img!(a = 1, x = (@), b = 2)", "div!({@} = 1)", "div!((@) = bool!(true))", "pass!(x = @)", "passrest!(@)", "comp1!(@, x = 1)", "comp1!(x = @)", "div!(comp1!(p!(@)))",
    "frag_match!(if tt { @ } else { 1 })", "frag_match!(if tt { 1 } else { @ })", "frag_match!(match nn { 1 => @, _ => 1 })", "div!(frag_match!(match nn { 1 => 1, _ => { @ } }))", "iter!(vec![1].into_iter().map(|_| @))", "Some(@)", "div!(Some(p!(@)))", "rend(@)", "(|| @)()", "same!(@)", "via!(@)", "render!(@)", "div!(b!(), @, br!())", "table!(tbody!(tr!(td!(@, x = nn))))",
    "if tt { Some(@) } else { None }", "frag!(frag!(frag!(@)))", "classes!(classes!(@, 1), 1)", "div!(p!(x = @), 1)", "div!(\"n\" = bool!({ rs(@).len() == 0 }))",
]


def rejects(tier):
    """(macro-level, type-level): (malformed, what is wrong, a well-formed relative)."""
    M, T = [], []
    kids = ['"k"', "nn", "1", "b!()", "b!(1)", "frag!()", "frag!(1)", "classes!()", "br!()", "()", "None::<u8>", "{ 1 }", "(1)", "e(1, 1)", "laby::b!()", "'c'", "1.5", "true", "raw!(1)", "nn == 1", "pass!(x = 1)", "comp1!()", "iter!(0..1)", "&nn", "-1", "if tt { 1 } else { 2 }"]
    for t in VOID:
        for k in kids:
            M.append((f"{t}!({k})", "a void element has a child", f"{t}!(x = 1)"))
        for k in kids[:8]:
            M.append((f"{t}!(x = 1, {k})", "a void element has a child", f"{t}!(x = 1, y = 2)"))
            M.append((f"{t}!({k}, x = nn)", "a void element has a child", f"{t}!(x = nn)"))
            M.append((f"{t}!(x = bool!(true), {k}, y = bool!(tt))", "a void element has a child", f"{t}!(x = bool!(true), y = bool!(tt))"))
            M.append((f"{t}![{k}]", "a void element has a child", f"{t}![]"))
    for t in ("frag", "classes"):
        for a in ("x = 1", '"x" = nn', "x = bool!(true)", "x = bool!(false)", "x = bool!(tt)", "(nn) = 1", "x = ()", "r#type = 'c'", "e(1, 1) = e(2, 2)", "x = b!()", "true = false", "x = None::<u8>"):
            M.append((f"{t}!({a})", f"{t}! has an attribute", f"{t}!(1)"))
            M.append((f"{t}!(1, {a})", f"{t}! has an attribute", f"{t}!(1, 2)"))
            M.append((f"{t}!({a}, 1)", f"{t}! has an attribute", f"{t}!(1)"))
            M.append((f"{t}!(1, {a}, nn, b!())", f"{t}! has an attribute", f"{t}!(1, nn, b!())"))
            M.append((f"{t}!(b!(), {a}, {a})", f"{t}! has an attribute", f"{t}!(b!())"))
    for b in ("bool!()", "bool!(true, false)", "bool!(true true)", "bool!(,)", "bool!(true,)", "bool!(tt,)", "bool!(x = )", "bool!(;)", "bool!(let)", "bool!(if)", "bool!(tt; ff)", "bool!(tt, ff)", "bool![]", "bool!{}"):
        for d in ("div!(x = @)", "input!(x = @)", "div!('k', a = 1, (nn) = @)"):
            M.append((d.replace("@", b), "the boolean marker does not hold one expression", d.replace("@", "bool!(tt)")))
    for b in ("bool!(true)", "bool!(false)", "bool!(tt)", "bool!()", "bool!(1)"):
        for d in ("div!(@)", "frag!(@)", "classes!('a', @)", "div!(1, @, 2)", "div!(@ = 1)", "div!(@ = bool!(true))", "div!(x = (@))", "div!(x = { @ })", "div!(x = !@)", "div!(x = Some(@))", "div!(x = bool!(@))", "div!(x = bool!((@)))", "div!(x = laby::@)", "div!(x = laby::bool!(@))", "div!(x = @ && true)", "div!(x = bool!(!@))", "img!(x = e(1, @))", "div!(x = if tt { @ } else { false })", "pass!(x = @)", "comp1!(x = @)", "comp1!(@)", "passrest!(@)", "frag_match!(if @ { 1 } else { 2 })", "frag_match!(if tt { @ } else { 2 })", "div!(p!(@))", "div!(Some(@))", "raw!(@)", "iter!(@)", "div!(x = p!(@))", "div!((@))", "div!({ @ })"):
            M.append((d.replace("@", b), "the boolean marker is not the value of an attribute", None))
    for d in ("div!(1 2)", "div!(x = )", "div!(= 1)", "div!(x = 1 y = 2)", "div!(,)", "div!(1,, 2)", "div!(x = 1,, y = 2)", "br!(,)", "br!(x)", "frag!(,)", "classes!(1 2)", "div!(x: 1)", "div!(let x = 1)", "div!(x => 1)", "div!(;)", "div!(1; 2)", "div!(p!(1 2))", "div!(p!(,))", "div!(frag!(1,, 2), 3)", "div!(x = 1 => 2)", "div!(class)", "div!(#)", "div!(x==)", "div!(fn)", "frag_match!()", "frag_match!(1)", "frag_match!(nn)", "frag_match!(while tt { 1 })", "frag_match!(if tt { 1 }, 2)", "frag_match!(match nn { _ => 1 }, 2)", "frag_match!(if tt)", "frag_match!(match nn)", "frag_match!({ 1 })", "frag_match!(if tt { 1 } else)", "frag_match!(loop { break 1 })"):
        M.append((d.replace("(class)", "(class class)"), "the arguments are not a list of expressions" if "match" not in d else "the argument is not an if or match expression", None))
    bad = ["NR", "nr()", "&NR", "NE::A", "Some(NR)", "None::<NR>", "vec![NR]", "[NR]", "(NR, NR)", "|| 1", "NG(1)", "Box::new(NR)", "raw!(NR)", "raw!(1)", "disp!(NR)", "iter!(vec![NR])", "iter!(1)", "iter!(NR)", "iter!(NR, vec![1])", "St { f: \"a\", n: 1 }", "{ NR }", "(NR)", "b\"bytes\"", "{ b\"bytes\" }", "e(1, NR)", "Ok::<u8, u8>(1)", "Some(Some(NR))", "same!(NR)", "via!(NR)", "0..3", "&mut NR", "[1, 2]", "(1, 2)", "std::cell::Cell::new(NR)", "if tt { NR } else { NR }", "nr", "idt::<NR>"]
    pos = ["div!(@)", "frag!(@)", "classes!('a', @)", "div!(x = @)", "img!(x = @)", "div!((@) = 1)", "div!({ @ } = bool!(tt))", "div!(1, @, 2)", "div!(p!(@), 1)", "div!(frag!(1, @))", "comp1!(@)", "comp1!(x = @)", "div!(a = 1, b!(y = @), c = 2)", "frag_match!(if tt { @ } else { 1 })", "frag_match!(match nn { 1 => 1, _ => @ })", "div!(@, x = bool!(true))", "img!(a = 1, y = @, z = bool!(ff))", "pass!(x = @)"]
    for b in bad:
        for p in pos:
            T.append((p.replace("@", b), "a value that cannot be rendered is embedded", p.replace("@", "1")))
    T += [(f"{t}!(@)".replace("@", b), "a value that cannot be rendered is embedded", f"{t}!(1)") for t in NORMAL[::4] for b in ("NR", "x = NR")]
    nb = ["1", "nn", '"true"', "()", "Some(true)", "None::<bool>", "&tt", "'t'", "1.0", "String::new()", "tt as u8", "NR", "boolf", "{ 1 }", "(1)", "b!()", "frag!()", "raw!(\"x\")", "e(1, 1)", "b'1'", "if tt { 1 } else { 0 }", "Ok::<bool, ()>(true)", "[true]", "(true, )", "std::cell::Cell::new(true)", "0", "\"\"", "Box::new(true)", "|| true"]
    bp = ["div!(x = bool!(@))", "input!(x = bool!(@))", "div!(\"x\" = bool!(@), 1)", "div!((nn) = bool!(@))", "div!(1, e(1, 1) = bool!(@))", "img!(a = 1, x = bool!(@), y = bool!(tt))", "div!(p!(x = bool!(@), 1))", "frag!(br!(x = bool!(@)), 1)", "div!(x = bool![@])", "div!(x = bool!{@})"]
    for b in nb:
        for p in bp:
            T.append((p.replace("@", b), "a boolean attribute gets a value that is not a boolean", p.replace("@", "tt")))
    return M, T


def run_c16(tier, chk):
    deep = tier == "thorough"
    M, T = rejects(tier)
    pre = 'let nn = 1; let tt = true; let ff = false;'
    tc = Toolchain(chk)
    def in_ctx(L, every):
        rej, ok = [], []
        for k, (bad, why, good) in enumerate(L):
            # all contexts for a part of the malformations, each malformation in some contexts
            ctxs = RCTX if deep or k % every == 0 else [RCTX[0], RCTX[3]] + [RCTX[(7 * k + j * 11) % len(RCTX)] for j in range(4)]
            for x in ctxs:
                rej.append(((), f"{pre} let _t = rs({x.replace('@', bad)});", why))
                if good is not None:
                    ok.append((x, good))
        return rej, ok
    rm, om = in_ctx(M, 23)
    rt, ot = in_ctx(T, 29)
    r1, v1 = run_rejects(tc, "C16m", rm, RITEMS)
    r2, v2 = run_rejects(tc, "C16t", rt, RITEMS)
    cases = []
    for x, good in dict.fromkeys(om + ot):
        c = Ctx()
        c.pre.append(pre)
        cases.append(Case(c, V(x.replace("@", good), None)))
        cases[-1].log = None
    # every context around something well-formed
    for x in RCTX:
        for good in ("br!()", "b!(1)", "frag!(1)", "classes!(1, 2)", "input!(x = bool!(tt))", '"k"'):
            if good != '"k"' or "laby" not in x:
                c = Ctx()
                c.pre.append(pre)
                cases.append(Case(c, V(x.replace("@", good), None)))
                cases[-1].log = None
    stats, v3 = run_cases(tc, "C16", cases, RITEMS)
    v3 = [v for v in v3 if "compile" in v["what"]]
    vs = v1 + v2 + v3
    if vs and (r1 == 0 or r2 == 0):
        return {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}, plain(vs)
    n = r1["rejected"] + r2["rejected"]
    cov = {"states": n + stats["cases"], "transitions": len(rm) + len(rt) + len(cases), "traces_validated_against_impl": n + stats["cases"], "rejected_by_the_macros": r1["rejected"], "rejected_by_type": r2["rejected"], "well_formed_accepted": stats["cases"],
           "compiled_alone": r1["alone"] + r2["alone"], "samples": r1["samples"] + r2["samples"] + stats["samples"][:3], "exhaustive": True}
    return cov, plain(vs)


# ------------------------------------------------------------------------------------------- C18

def gen_c18(tier):
    deep = tier == "thorough"
    out = []
    KI = "enum FN@K { A, B(u8), C { z: &'static str } }"

    def twin_of(src_with_bodies, bodies):
        """The plain expression, each branch rendered into b."""
        for i, b in enumerate(bodies):
            src_with_bodies = src_with_bodies.replace(f"§{i}§", f"{{ Render::render({b}, &mut bf_) }}")
        return "{ let mut bf_ = Buffer::new(); " + src_with_bodies + "; bf_.into_string() }"

    def put(shape, bodies, pre=(), pos="@", items=(), blocks=True):
        """shape: the if or match with §i§ for the branches (§i§ stands where a block {..} stands if
        `blocks`, otherwise where an expression stands)."""
        s = shape
        for i, b in enumerate(bodies):
            s = s.replace(f"§{i}§", "{ " + b + " }" if blocks else b)
        c = Ctx()
        c.pre = list(pre)
        c.items = list(items)
        tw = twin_of(shape, [b if b.strip() else "()" for b in ([("{ " + b + " }") for b in bodies] if blocks else bodies)])
        o = Case(c, V(pos.replace("@", f"frag_match!({s})"), None), twin=pos_twin(pos, tw), twinlog=True)
        o.log = None
        out.append(o)

    def pos_twin(pos, tw):
        if pos == "@":
            return tw
        return "{ let tv = " + tw + "; rs(" + pos.replace("@", "raw!(tv)") + ") }"

    # bodies of different types; ids tell the branches apart
    B = lambda i, k: [f'e({i}, "s{i}<")', f"e({i}, {i}u8)", f"b!(e({i}, {i}))", f"{{ e({i}, ()) }}", f"e({i}, None::<u8>)", f'e({i}, ()); "lit{i}"', f"e({i}, Some({i}))", f"e({i}, ());", "", f"frag_match!(if e({i}, true) {{ 'x' }} else {{ e({i + 100}, 5) }})", f"frag!(e({i}, 1), br!())", f"e({i}, String::from(\"o\"))", f"'c'", f"let q = e({i}, 2); p!(q, x = q)", f"comp1!(e({i}, 'r'))", f"frag_match!(match e({i}, 2) {{ 1 => 1, _ => b!(2) }})", f"iter!(e({i}, vec![1, 2]))"][k]
    NB = 17
    # if chains: all lengths, all outcomes of the conditions, with and without else, rotating bodies
    for n in (1, 2, 3, 4) if not deep else (1, 2, 3, 4, 5, 6):
        for els in (False, True):
            for val in itertools.product((True, False), repeat=n):
                for rot in range(NB if n <= 3 or deep else 4):
                    conds = [f"e({50 + i}, {'true' if v else 'false'})" for i, v in enumerate(val)]
                    sh = " else ".join(f"if {c} §{i}§" for i, c in enumerate(conds)) + (f" else §{n}§" if els else "")
                    put(sh, [B(i + 1, (rot + i) % NB) for i in range(n + els)])
    # all pairs of bodies
    for x, y in itertools.product(range(NB), repeat=2):
        for v in ("true", "false"):
            put(f"if e(50, {v}) §0§ else §1§", [B(1, x), B(2, y)])
        put("match e(50, nn) { 1 => §0§, _ => §1§ }", [B(1, x), B(2, y)], ["let nn = 1;"])
        put("match e(50, nn) { 1 => §0§ _ => §1§ }", [B(1, x), B(2, y)], ["let nn = 2;"])
    # kinds of conditions
    conds = ["nn == {}", "e(50, nn) > {}", "e(50, nn == {}) && e(51, true)", "e(50, nn == {}) || e(51, nn == 2)", "!(e(50, nn) == {})", "let Some(x) = e(50, if nn == {} { Some(\"m\") } else { None })", "let Some(x @ \"m\") = e(50, if nn == {} { Some(\"m\") } else { Some(\"n\") })", "let ({}, x) = e(50, (nn, 'x'))", "let FN@K::B({}) = e(50, FN@K::B(nn))", "matches!(e(50, nn), {} | 9)", "{ e(50, ()); nn == {} }", "e(50, opt).map_or(false, |q| q == {})", "(e(50, nn)) == {}", "let 0..={} = e(50, nn)", "let Some({}) | None = e(50, opt)"]
    for i, c1 in enumerate(conds):
        for j, c2 in enumerate(conds):
            for nn in (0, 1, 2, 3):
                if not deep and nn == 3 and i != j:
                    continue
                k1, k2 = c1.replace("{}", "1", 1) if "{ e(50" not in c1 else "{ e(50, ()); nn == 1 }", (c2.replace("{}", "2", 1) if "{ e(50" not in c2 else "{ e(50, ()); nn == 2 }").replace("e(50", "e(60").replace("e(51", "e(61")
                b1 = "e(1, x)" if " x" in k1 and "let" in k1 else "e(1, 'a')"
                b2 = "b!(e(2, x))" if " x" in k2 and "let" in k2 else "e(2, \"b\")"
                put(f"if {k1} §0§ else if {k2} §1§ else §2§", [b1, b2, "e(3, nn)"], [f"let nn: u8 = {nn}; let opt = Some(nn);"], items=[KI])
    # matches on numbers: every sequence of patterns and guards
    pats = ["0", "1 | 2", "3..=4", "y if e(60, y > 1)", "2 if e(61, true)", "z @ (1 | 3)", "_ if e(62, false)"]
    for n in (0, 1, 2, 3):
        for seq in itertools.product(range(len(pats)), repeat=n):
            if n == 3 and not deep and len(set(seq)) < 3:
                continue
            for v in (0, 1, 2, 3, 4) if n < 3 or deep else (1, 2, 3):
                arms, bods = [], []
                for i, p in enumerate(seq):
                    arms.append(f"{pats[p]} => §{i}§")
                    bods.append({3: f"e({i + 1}, y)", 5: f"b!(e({i + 1}, z))"}.get(p, [f"e({i + 1}, 'k')", f"e({i + 1}, None::<u8>)", f'i!(e({i + 1}, "t"))'][i]))
                arms.append(f"_ => §{n}§")
                bods.append("e(9, ())" if n % 2 else "e(9, \"rest\")")
                put(f"match e(50, {v}u8) {{ {', '.join(arms)} }}", bods, blocks=False)
    # matches on other types, moving and borrowing
    others = [
        ("match e(50, @) { None => §0§, Some(0) => §1§, Some(n) => §2§ }", ["None::<u8>", "Some(0u8)", "Some(7)"], ["e(1, 'n')", "e(2, b!())", "e(3, n)"]),
        ("match e(50, @) { (true, n) => §0§, (false, 0) => §1§, (_, n) if e(51, n) > 5 => §2§, _ => §3§ }", ["(true, 1u8)", "(false, 0)", "(false, 6)", "(false, 5)"], ["e(1, n)", "e(2, ())", "e(3, b!(n))", "e(4, 'x')"]),
        ("match e(50, @) { \"a\" => §0§, \"b\" | \"c\" => §1§, s if e(51, s.len()) > 1 => §2§, _ => §3§ }", ['"a"', '"b"', '"c"', '"dd<"', '"e"'], ["e(1, 1)", "e(2, \"two\")", "e(3, s)", "()"]),
        ("match e(50, @) { K::A => §0§, K::B(n) => §1§, K::C { z } => §2§ }", ["K::A", "K::B(4)", 'K::C { z: "zz" }'], ["e(1, None::<&str>)", "e(2, n)", "e(3, i!(z))"]),
        ("match e(50, @) { [] => §0§, [a] => §1§, [a, .., z] => §2§ }", ["&[0u8; 0][..]", "&[1u8][..]", "&[1u8, 2, 3][..]"], ["e(1, ())", "e(2, *a)", "e(3, frag!(*a, *z))"]),
        ("match e(50, @) { Ok(s) => §0§, Err(n) => §1§ }", ['Ok::<String, u8>("mv".to_string())', "Err::<String, u8>(3)"], ["e(1, s)", "e(2, n)"]),
        ("match &e(50, @)[..] { x if x.is_empty() => §0§, _ => §1§ }", ['""', '"q"'], ["e(1, 'y')", "e(2, 1)"]),
        ("match @ { x => §0§ }", ["e(50, 5u8)", "{ e(50, 6u8) }"], ["e(1, x)"]),
        ("match e(50, @) { true => §0§, false => §1§ }", ["true", "false", "nn == 1"], ["e(1, \"t\")", "e(2, b!())"]),
        ("match e(50, @) { 'a'..='f' => §0§, c if c.is_numeric() => §1§, c => §2§ }", ["'b'", "'7'", "'<'"], ["e(1, 1)", "e(2, \"num\")", "e(3, c)"]),
        ("match e(50, @) { ref s if s.len() == 1 => §0§, s => §1§ }", ['String::from("1")', 'String::from("<<")'], ["e(1, 'o')", "e(2, s)"]),
        ("match (e(50, @), e(51, 1)) { (1, 1) => §0§, (a, b) => §1§ }", ["1", "2"], ["e(1, 'o')", "e(2, frag!(a, b))"]),
        ("match e(50, @) { Some(Some(x)) => §0§, Some(None) => §1§, None => §2§ }", ["Some(Some(1))", "Some(None::<u8>)", "None::<Option<u8>>"], ["e(1, x)", "e(2, 'm')", "e(3, \"none\")"]),
        ("if let Some(s) = e(50, @) §0§", ['Some(String::from("mv"))', "None::<String>"], ["e(1, s)"]),
        ("if let Some(s) = &e(50, opt) §0§ else if let Some(q) = e(51, @) §1§ else §2§", ["Some(5)", "None::<u8>"], ["e(1, s.len())", "e(2, q)", "e(3, 'z')"]),
        ("if let K::C { z } = e(50, @) §0§ else §1§", ['K::C { z: "z" }', "K::A"], ["e(1, z)", "e(2, 2)"]),
    ]
    KI = "enum FN@K { A, B(u8), C { z: &'static str } }"
    for sh, ins, bods in others:
        for x in ins:
            for blocks in (True, False):
                if not blocks and sh.startswith("if"):
                    continue
                for pos in ["@", "div!(@)", "div!('a', @, x = 1)", "div!(x = @)", "frag!(1, @, 2)", "classes!('a', @, 'b')", "(@)", "div!(p!((@)))", "laby::@", "comp1!(@)", "pass!(x = @)"]:
                    put(sh.replace("@", x).replace("K::", "FN@K::"), [b.replace("K::", "FN@K::") for b in bods], ["let nn = 1; let opt = None::<String>;"], pos=pos, blocks=blocks, items=[KI])
    # scopes that have their own names for what the expansion may use
    for x in ("N::None", "N::Some(4)", "N::Zed"):
        put("match e(50, @) { None => §0§, Some(n) => §1§, Zed => §2§ }".replace("@", x.replace("N::", "FN@N::")), ["e(1, 'n')", "e(2, n)", "e(3, \"z\")"], ["use FN@N::*;"], items=["enum FN@N { None, Some(u8), Zed }"], blocks=False)
    # changes made by conditions and branches
    for pre, sh, bods in [
        ("let mut n = 0;", "if { n += 1; n == 2 } §0§ else if { n += 1; n == 2 } §1§ else §2§", ["n", "{ n += 10; n }", "'z'"]),
        ("let mut v = vec![1, 2, 3];", "match v.pop() { Some(3) => §0§, Some(x) => §1§, None => §2§ }", ["v.len()", "x", "()"]),
        ("let mut it = vec![1, 2, 3].into_iter();", "if let Some(1) = it.next() §0§ else §1§", ["it.next()", "it.count()"]),
        ("let s = String::from(\"own\");", "if s.len() == 3 §0§ else §1§", ["s", "b!(s)"]),
        ("let s = String::from(\"own\");", "match s.len() { 1 => §0§, 3 => §1§, _ => §2§ }", ["s", "b!(s, x = 1)", "Some(s)"]),
        ("let s = Some(String::from(\"own\"));", "match s { Some(x) if x.is_empty() => §0§, Some(x) => §1§, None => §2§ }", ["x", "b!(x)", "()"]),
        ("let s = String::from(\"own\"); let r = &s;", "match r.as_str() { \"own\" => §0§, o => §1§ }", ["&r[1..]", "o"]),
    ]:
        put(sh, bods, [pre])
        put(sh, bods, [pre], pos="div!(@)")
    # leaving early from inside a branch
    c = Ctx()
    for v in ("Some(1u8)", "None::<u8>"):
        for flag in ("true", "false"):
            src = f"(|| -> Option<String> {{ let r = frag_match!(if e(1, {flag}) {{ let q = e(2, {v})?; b!(q) }} else {{ e(3, \"no\") }}); Some(rs(r)) }})()"
            exp = ("&lt;b&gt;1&lt;/b&gt;" if "Some" in v else "") if flag == "true" else "no"
            out.append(Case(Ctx(), V(src, exp, [[1], [2] if flag == "true" else [3]])))
    for n in (0, 1, 2, 3):
        src = f"(|| {{ let mut o = String::new(); for i in 0..4 {{ o += &rs(frag_match!(match e(i, i) {{ 0 => {{ if i == {n} {{ continue }} 'a' }} 1 => {{ if i == {n} {{ break }} \"b\" }} x => {{ if x == {n} {{ return o }} x }} }})); }} o }})()"
        exp, log = "", []
        for i in range(4):
            log.append([i])
            if i == n:
                if i == 0:
                    continue
                break
            exp += {0: "a", 1: "b"}.get(i, str(i))
        out.append(Case(Ctx(), V(src, exp, log)))
    # a branch in a branch in a branch
    for a, b, d in itertools.product((0, 1, 2), repeat=3):
        def fm(v, i, x, y):
            return f"frag_match!(match e({i}, {v}) {{ 0 => e({i + 1}, 'o'), 1 => {{ {x} }}, _ => b!({y}) }})"
        def val(v, x, y):
            return "o" if v == 0 else x if v == 1 else f"<b>{y}</b>"
        def lg(v, i, x, y):
            return [[i]] + ([[i + 1]] if v == 0 else x if v == 1 else y)
        i3, o3, l3 = fm(d, 30, "'p'", "'q'"), val(d, "p", "q"), lg(d, 30, [], [])
        i2, o2, l2 = fm(b, 20, i3, f"e(22, 2), {i3}"), val(b, o3, "2" + o3), lg(b, 20, l3, [[22]] + l3)
        i1, o1, l1 = fm(a, 10, i2, i2), val(a, o2, o2), lg(a, 10, l2, l2)
        for pos in ("@", "div!(@)"):
            out.append(Case(Ctx(), V(pos.replace("@", i1), o1 if pos == "@" else f"<div>{o1}</div>", l1)))
    # in a closure, once per item
    for n in (0, 1, 5):
        out.append(Case(Ctx(), V(f"iter!((0..{n}).map(|i| frag_match!(if i % 3 == 0 {{ i }} else if i % 3 == 1 {{ b!(i) }} else {{ () }})))", "".join(["", f"<b>{i}</b>", str(i)][2 - i % 3 if i % 3 < 2 else 0] for i in range(n)))))
    # many arms
    for n in (10, 40, 120):
        for v in (0, 9, 10, n - 1, n):
            arms = ", ".join(f"{i} => e({i + 1}, {['%d', chr(34) + '%d' + chr(34), 'b!(%d)'][i % 3] % i})" for i in range(n))
            o = "rest" if v == n else ["%d", "%d", "<b>%d</b>"][v % 3] % v
            out.append(Case(Ctx(), V(f"frag_match!(match {v} {{ {arms}, _ => \"rest\" }})", o, [[v + 1]] if v < n else [])))
            ch = " else ".join(f"if e({500 + i}, {v}) == {i} {{ e({i + 1}, {['%d', chr(34) + '%d' + chr(34), 'b!(%d)'][i % 3] % i}) }}" for i in range(n))
            out.append(Case(Ctx(), V(f"frag_match!({ch} else {{ \"rest\" }})", o, [[500 + i] for i in range(min(v + 1, n))] + ([[v + 1]] if v < n else []))))
    return out


# ------------------------------------------------------------------------------------------- C19, C20, C28

NAMESETS = [["a", "b", "c", "d"], ["zed", "mid", "alp", "q1"]]


class Sig:
    """A component: kinds of its parameters, R required, D default, X default expression, S rest."""
    def __init__(self, kinds, names, vis=""):
        self.kinds, self.names = kinds, names[:len(kinds)]
        self.name = "k" + "".join(kinds).lower() + ("" if names is NAMESETS[0] else "n")
        self.vis = vis

    def decl(self):
        ps, body = [], []
        for i, (k, n) in enumerate(zip(self.kinds, self.names)):
            ps.append({"R": f"{n}: u32", "D": f"#[default] {n}: u32", "X": f"#[default(e({900 + i}, {70 + i}))] {n}: u32", "S": f"#[rest] {n}: impl Render"}[k])
            body.append(f'"{n}=", {n}, ";"')
        return f"#[laby] {self.vis}fn {self.name}({', '.join(ps)}) -> impl Render {{ frag!({', '.join(body)}) }}"

    def bind(self, args):
        """args: names, or None for unnamed. The model of a call: None if it is wrong, else
        (list per parameter of argument indexes or 'default', dropped argument indexes)."""
        if self.kinds.count("S") > 1:
            return None
        got, rest, dropped = {}, [], []
        named = {n for k, n in zip(self.kinds, self.names) if k != "S"}
        for i, a in enumerate(args):
            if a is None:
                if "S" not in self.kinds:
                    return None
                rest.append(i)
            elif a not in named:
                return None
            else:
                if a in got:
                    dropped.append(got[a])
                got[a] = i
        out = []
        for k, n in zip(self.kinds, self.names):
            if k == "S":
                out.append(rest)
            elif n in got:
                out.append([got[n]])
            elif k == "R":
                return None
            else:
                out.append("default")
        return out, dropped

    def call(self, args, path="", brackets="()", trail=""):
        """(source, expected output, evaluation groups)."""
        parts = [f"{a} = e({i + 1}, {10 + i})" if a is not None else f'e({i + 1}, "p{i},")' for i, a in enumerate(args)]
        src = f"{path}{self.name}!{brackets[0]}{', '.join(parts)}{trail}{brackets[1]}"
        b = self.bind(args)
        if b is None:
            return src, None, None
        o, ids = "", []
        for j, (k, n, v) in enumerate(zip(self.kinds, self.names, b[0])):
            if v == "default":
                o += f"{n}={0 if k == 'D' else 70 + j};"
                if k == "X":
                    ids.append(900 + j)
            elif k == "S":
                o += f"{n}=" + "".join(f"p{i}," for i in v) + ";"
                ids += [i + 1 for i in v]
            else:
                o += f"{n}={10 + v[0]};"
                ids.append(v[0] + 1)
        ids += [(i + 1, "opt") for i in b[1]]
        return src, o, [ids] if ids else []


def sigs(n_max, multi_rest=False, vis=""):
    out = []
    for n in range(0, n_max + 1):
        for kinds in itertools.product("RDXS", repeat=n):
            if kinds.count("S") > 1 and not multi_rest:
                continue
            for ns in NAMESETS if n > 1 else NAMESETS[:1]:
                out.append(Sig(kinds, ns, vis))
    return out


def arg_lists(sig, n, wrong):
    alph = list(sig.names) + [None]
    if wrong:
        alph += ["unk"]
    return [list(t) for k in range(n + 1) for t in itertools.product(alph, repeat=k)]


COMP_ITEMS = r"""
#[laby] fn g1<T: Render>(x: T, #[default(())] y: impl Render) -> impl Render { p!(x, y) }
#[laby] fn g2<'a>(s: &'a str, #[default] o: Option<&'a str>) -> impl Render + 'a { p!(s, k = o) }
#[laby] fn g3<T, const N: usize>(xs: [T; N], #[default("|")] d: &'static str) -> impl Render where T: Render { p!(iter!(d, xs)) }
#[laby] fn g4(mut n: u32, #[default(3)] mut m: u32) -> impl Render { n += 1; m += n; p!(n, ",", m) }
#[laby] pub fn g5(#[default(vec![1, 2])] v: Vec<u32>, #[default("a,b")] s: &str, #[default({ let q = 4; q + 1 })] b: u32) -> impl Render { let n = v.len(); let s = s.to_string(); p!(n, s, b) }
#[laby] pub(crate) fn g6(r#type: u32, #[default(Some(5))] r#struct: Option<u32>) -> impl Render { p!(r#type, r#struct) }
/// documented
#[laby] #[inline] #[must_use] fn g7(#[allow(unused)] #[default] a: u32, #[default] #[allow(unused)] b: u32, #[allow(unused)] #[rest] c: impl Render) -> impl Render { p!(a, b, c) }
#[laby] fn g8(f: impl Fn(u32) -> u32, x: u32) -> u32 { f(x) }
#[laby] fn g9() -> &'static str { "g9<" }
#[laby] fn w1(#[default(w0!())] x: impl Render, #[default(String::from("d"))] y: String) -> impl Render { p!(x, y) }
#[laby] fn w0() -> impl Render { "h0" }
#[laby] fn w2(#[rest] kids: impl Render, a: u32, #[default(KON)] b: &'static str) -> impl Render { p!(a, b, kids) }
#[laby] fn w3(#[default(1 == 1)] x: bool, #[default(-2)] y: i32, #[default('c')] z: char, #[default(1.5)] w: f64, #[default(())] u: ()) -> impl Render { p!(x, y, z, w, u) }
#[laby] fn w4(x1: u32, x2: u32, x3: u32, x4: u32, #[default] x5: u32, #[default(6)] x6: u32) -> impl Render { p!(x1, ",", x2, ",", x3, ",", x4, ",", x5, ",", x6) }
#[laby] fn w5(b: u32, a: u32, d: u32, c: u32) -> impl Render { p!(b, ",", a, ",", d, ",", c) }
#[laby] fn w6(buffer: u32, func: u32, args: u32, x: u32, sig: u32, #[rest] rest: impl Render) -> impl Render { p!(buffer, ",", func, ",", args, ",", x, ",", sig, ",", rest) }
#[laby] fn w7(w7: u32, call: u32) -> impl Render { p!(w7, ",", call) }
#[laby] fn ret_opt(x: Option<u32>) -> Option<impl Render> { x.map(|v| b!(v)) }
#[laby] fn rec(n: u32) -> String { if n == 0 { String::new() } else { rs(b!(n, raw!(rec!(n = n - 1)))) } }
#[laby] fn tup(x: (u32, u32), #[default((1, 2))] y: (u32, u32)) -> impl Render { p!(x.0, x.1, y.0, y.1) }
mod cm { use laby::*; #[laby] pub fn incm(x: u32, #[default(9)] y: u32, #[rest] z: impl Render) -> impl Render { p!(x, y, z) }
  pub mod deep { use laby::*; #[laby] pub fn indeep(#[default] x: u32, #[rest] z: impl Render) -> impl Render { q!(x, z) } #[laby] pub(crate) fn incrate(x: u32) -> impl Render { x } #[laby] pub(super) fn insuper(x: u32) -> impl Render { i!(x) } }
  pub fn viasuper() -> String { use deep::insuper; super::rs(insuper!(x = 4)) } }
use cm::incm; use cm::deep::{indeep, incrate as renamed};
#[laby] fn call(x: u32, #[default] y: u32) -> impl Render { p!(x, y) }
#[laby] fn r#match(r#fn: u32, #[rest] r#let: impl Render) -> impl Render { p!(r#fn, r#let) }
#[laby] fn nothing() {}
#[laby] fn wh0() -> impl Render where { "wh0" }
#[laby] fn wh1<T, U>(x: T, #[rest] y: U) -> impl Render where T: Render + Clone, U: Render, { p!(x, y) }
#[laby] fn hrf<F: for<'a> Fn(&'a str) -> &'a str>(f: F, #[default("abc")] s: &str) -> String where F: Clone { f(s).to_string() }
#[laby] unsafe fn uns(x: u32) -> u32 { x }
#[laby] extern "C" fn ext_c(x: u32, y: u32) -> u32 { x * 10 + y }
#[laby] const fn con(x: u32, #[default(con!(x = 7))] y: u32) -> u32 { x * 10 + y }
#[laby] fn unsz<T: ?Sized + AsRef<str>>(x: &T, r#type: &'_ str, #[default([1, 2])] z: [u8; 2]) -> Vec<String> where for<'q> &'q T: Copy { vec![x.as_ref().to_string(), r#type.to_string(), z.len().to_string()] }
#[laby] fn tuple_default(#[default(1, 2)] x: (u32, u32), #[default()] y: ()) -> impl Render { p!(x.0, x.1, y) }
#[laby] fn dynr<'a>(f: &'a dyn Fn(u32) -> String, n: u32) -> Box<str> where { f(n).into_boxed_str() }
#[laby] fn article2(#[rest] x: impl Render) -> impl Render { article!(x) }
"""

COMP_CALLS = [
    # (call, the plain Rust expression it stands for)
    ('g1!(x = b!("<"))', 'g1(b!("<"), ())'), ("g1!(y = 2, x = 1)", "g1(1, 2)"), ("g1!(x = None::<u8>, y = frag!(1, 2))", "g1(None::<u8>, frag!(1, 2))"),
    ('g2!(s = "a")', 'g2("a", None)'), ('g2!(o = Some("k"), s = "a")', 'g2("a", Some("k"))'), ('g2!(s = &String::from("tmp")[..])', 'g2(&String::from("tmp")[..], None)'),
    ("g3!(xs = [1, 2, 3])", 'g3([1, 2, 3], "|")'), ('g3!(d = "<", xs = ["a", "b"])', 'g3(["a", "b"], "<")'), ("g4!(n = 1)", "g4(1, 3)"), ("g4!(m = 10, n = 1)", "g4(1, 10)"),
    ("g5!()", 'g5(vec![1, 2], "a,b", 5)'), ("g5!(b = 1, v = vec![])", 'g5(vec![], "a,b", 1)'), ('g5!(s = "x, y = z", v = vec![1, 2, 3, 4])', 'g5(vec![1, 2, 3, 4], "x, y = z", 5)'),
    ("g6!(r#type = 1)", "g6(1, Some(5))"), ("g6!(r#struct = None, r#type = 2)", "g6(2, None)"), ("g7!()", "g7(0, 0, ())"), ('g7!("k", b = 1, "l")', 'g7(0, 1, frag!("k", "l"))'), ("g7!(b!(), a = 3)", "g7(3, 0, b!())"),
    ("g8!(f = |v| v + 1, x = 4)", "g8(|v| v + 1, 4)"), ("g8!(x = 4, f = { let k = 3; move |v| v * k })", "g8(|v| v * 3, 4)"), ("g8!(x = g8!(x = 1, f = |q| q + 1), f = |q: u32| -> u32 { q * 10 })", "20"), ("g9!()", "g9()"), ("w1!()", 'w1("h0", String::from("d"))'), ("w1!(y = String::new())", 'w1("h0", String::new())'), ("w1!(x = w1!(x = 1), y = format!(\"{}\", 1))", 'w1(w1(1, String::from("d")), String::from("1"))'),
    ("w2!(a = 1)", "w2((), 1, KON)"), ('w2!("x", a = 1, "y", b = "z", b!())', 'w2(frag!("x", "y", b!()), 1, "z")'), ("w3!()", "w3(true, -2, 'c', 1.5, ())"), ("w3!(z = '<', w = 2.0, x = false)", "w3(false, -2, '<', 2.0, ())"), ("w3!(u = (), y = 1 - 5)", "w3(true, -4, 'c', 1.5, ())"),
    ("w4!(x4 = 4, x3 = 3, x2 = 2, x1 = 1)", "w4(1, 2, 3, 4, 0, 6)"), ("w4!(x6 = 60, x1 = 1, x5 = 50, x2 = 2, x3 = 3, x4 = 4)", "w4(1, 2, 3, 4, 50, 60)"), ("w6!(1, x = 2, func = 3, buffer = 4, 5, sig = 6, args = 7, 8)", "w6(4, 3, 7, 2, 6, frag!(1, 5, 8))"), ("w7!(call = 1, w7 = 2)", "w7(2, 1)"),
    ("call!(y = 2, x = 1)", "call(1, 2)"), ("r#match!(2, r#fn = 1, 3)", "r#match(1, frag!(2, 3))"), ("nothing!()", "()"), ("wh0!()", '"wh0"'), ("wh1!(x = 1)", "wh1(1, ())"), ("wh1!(b!(), x = 'c')", "wh1('c', b!())"), ("hrf!(f = |s| &s[1..])", '"bc"'), ("hrf!(s = \"<x\", f = |s| &s[..1])", '"<"'),
    ("unsafe { uns!(x = 4) }", "4"), ("ext_c!(y = 1, x = 2)", "21"), ("{ const K: u32 = con!(y = 1, x = 2); K }", "21"), ("iter!(unsz!(r#type = \"t\", x = \"x\"))", 'frag!("x", "t", 2)'), ("iter!(unsz!(z = [3, 4], x = &String::from(\"s\"), r#type = \"t\"))", 'frag!("s", "t", 2)'), ("tuple_default!()", "tuple_default((1, 2), ())"), ("String::from(dynr!(n = 5, f = &|n| n.to_string()))", '"5"'),
    ("con!(x = 1, y = con!(x = 2, y = 3))", "33"),
    ("ret_opt!(x = None)", "ret_opt(None)"), ("ret_opt!(x = Some(1))", "ret_opt(Some(1))"), ("rec!(n = 3)", "rec(3)"), ("tup!(x = (3, 4))", "tup((3, 4), (1, 2))"), ("tup!(y = (5, 6), x = (3, 4))", "tup((3, 4), (5, 6))"),
    ("incm!(x = 1)", "cm::incm(1, 9, ())"), ("incm!('a', y = 2, 'b', x = 1)", "cm::incm(1, 2, frag!('a', 'b'))"), ("indeep!()", "cm::deep::indeep(0, ())"), ("indeep!(x = 5, indeep!(6, 7))", "cm::deep::indeep(5, cm::deep::indeep(0, frag!(6, 7)))"), ("cm::viasuper()", '"<i>4</i>"'.replace("<", "<")),
    ("{ let x = 5; g1!(x = x) }", "g1(5, ())"), ("{ let mut y = 1; passrest!((y = 2), y) }", "2"), ("{ let mut y = 1; passrest!(y += 2, y) }", "3"), ("{ let y = 1; passrest!(y == 1, y != 1, y >= 0) }", "frag!(true, false, true)"), ("passrest!({ let q = 1; q }, if true { 1 } else { 2 }, match 1 { _ => 'm' })", "frag!(1, 1, 'm')"),
    ("{ #[laby] fn local(a: u32, #[default(2)] b: u32) -> u32 { a * 10 + b } local!(b = 4, a = 3) }", "34"), ("{ mod inner { use laby::*; #[laby] pub fn im(a: u32, #[default] b: u32) -> u32 { a * 10 + b } } use inner::im; im!(a = 3) }", "30"), ("{ use cm::incm as other; use cm::incm; other!(x = 1) }", "cm::incm(1, 9, ())"),
    ("{ #[laby] fn loc2(#[default(\"q\")] x: impl Render, #[rest] k: impl Render) -> impl Render { p!(x, k) } div!(loc2!(loc2!(1), x = loc2!()), loc2!(x = 2)) }", 'div!(p!(p!("q", 1)), p!(2))'.replace('p!(p!("q", 1))', 'p!(p!("q"), p!("q", 1))')),
]


def gen_c19(tier):
    deep = tier == "thorough"
    out = []
    S = sigs(4 if deep else 3)
    for g in S:
        n = {0: 2, 1: 5, 2: 4 if not deep else 5, 3: 4, 4: 4}[len(g.kinds)]
        for args in arg_lists(g, n, False):
            src, o, log = g.call(args)
            if o is not None:
                out.append(Case(Ctx(), V(src, o, log)))
                if len(args) < 3:
                    out.append(Case(Ctx(), V(f"div!('x', {src}, b!({src}))", f"<div>x{o}<b>{o}</b></div>", None if log is None else [x for x in log + log])))
                    for br, tr in (("[]", ""), ("{}", ""), ("()", "," if args else "")):
                        src2, o, log = g.call(args, brackets=br, trail=tr)
                        out.append(Case(Ctx(), V(src2, o, log)))
    if not deep:
        # four parameters: every order of the arguments, every subset of the optional ones
        for kinds in ("RRRR", "RDXS", "SXDR", "DDXX", "XSRD", "RRSX", "DRDR", "SRRR"):
            for ns in NAMESETS:
                g = Sig(tuple(kinds), ns)
                al = [n for k, n in zip(g.kinds, g.names) if k != "S"] + ([None, None] if "S" in kinds else [])
                for k in range(len(al) + 1):
                    for args in set(itertools.permutations(al, k)):
                        src, o, log = g.call(list(args))
                        if o is not None:
                            out.append(Case(Ctx(), V(src, o, log)))
    # five and six parameters: every order
    for perm in itertools.permutations(range(1, 5)):
        c = ", ".join(f"x{i} = e({i}, {i})" for i in perm)
        out.append(Case(Ctx(), V(f"w4!({c})", "<p>1,2,3,4,0,6</p>", [[1, 2, 3, 4]])))
        out.append(Case(Ctx(), V(f"w5!({', '.join('abcd'[i - 1] + f' = {i}' for i in perm)})", "<p>2,1,4,3</p>")))
        for extra in ("x5 = e(5, 5)", "x6 = e(6, 60)"):
            for at in range(5):
                parts = [f"x{i} = e({i}, {i})" for i in perm]
                parts.insert(at, extra)
                out.append(Case(Ctx(), V(f"w4!({', '.join(parts)})", "<p>1,2,3,4,5,6</p>" if "x5" in extra else "<p>1,2,3,4,0,60</p>", [[1, 2, 3, 4, 5 if "x5" in extra else 6]])))
    for perm in itertools.permutations(range(1, 7)):
        if deep or perm[0] in (1, 6):
            out.append(Case(Ctx(), V(f"w4!({', '.join(f'x{i} = {i * 11}' for i in perm)})", "<p>11,22,33,44,55,66</p>")))
    # rest arguments: how many, and what
    for n in list(range(0, 40)) + [64, 128, 300]:
        out.append(Case(Ctx(), V(f"passrest!({', '.join(f'e({i}, {i})' for i in range(n))})", "".join(map(str, range(n))), [[i] for i in range(n)])))
        out.append(Case(Ctx(), V(f"comp1!({', '.join([f'e({i}, {i})' for i in range(n)] + ['x = e(999, 1)'])})", f"<article>1<main>{''.join(map(str, range(n)))}</main></article>", [list(range(n)) + [999]])))
    # every kind of expression as an argument, against the plain call
    for label, vf, tags in VA:
        for call, ref in (("pass!(x = @)", "pass(@)"), ("passrest!(@)", "passrest(@)"), ("passrest!(1, @, 2)", "passrest(frag!(1, @, 2))"), ("comp1!(@, x = @)", "comp1(@, @)"), ("comp1!(x = (@))", "comp1(@, ())"), ("g1!(y = 1, x = @)", "g1(@, 1)"), ("div!(pass!(x = @), 1)", "div!(pass(@), 1)"), ("pass!(x = pass!(x = @))", "@"), ("w2!(@, a = 1, @)", "w2(frag!(@, @), 1, KON)")):
            c, k = Ctx(), Ctx()
            t, i = call, 0
            r = ref
            vs = []
            for q in range(call.count("@")):
                vs.append(vf(c).src)
            t = call
            for v in vs:
                t = t.replace("@", v, 1)
            for v in vs:
                r = r.replace("@", v, 1)
            c.pre = list(dict.fromkeys(c.pre))
            o = Case(c, V(t, None), twin=f"rs({r})")
            o.log = None
            out.append(o)
    # kinds of component declarations
    for call, ref in COMP_CALLS:
        for x in ("@", "div!(@)", "div!(1, @, 2)", "div!(x = @)", "(@)", "pass!(x = @)", "passrest!(@, @)", "frag_match!(if true { @ } else { 1 })", "same!(@)", "via!(@)", "classes!('a', @)", "Some(@)", "{ let q = @; q }", "(|| @)()"):
            if "&String" in call and x not in ("@", "div!(@)", "div!(1, @, 2)", "(@)"):
                continue
            o = Case(Ctx(), V(x.replace("@", call), None), twin=f"rs({x.replace('@', ref)})", inline=True)
            o.log = None
            out.append(o)
    return out


C20_DECL = [
    ("#[laby] fn FN@f(self) -> u32 { 1 }", "a component has a receiver"), ("#[laby] fn FN@f(&self) -> u32 { 1 }", "a component has a receiver"), ("#[laby] fn FN@f(&mut self, x: u32) -> u32 { 1 }", "a component has a receiver"), ("#[laby] fn FN@f(self: Box<Self>) -> u32 { 1 }", "a component has a receiver"),
    ("struct FN@S; impl FN@S { #[laby] fn f(&self) -> u32 { 1 } }", "a component has a receiver"), ("struct FN@S; impl FN@S { #[laby] fn f(x: u32) -> u32 { 1 } }", "a component is not free-standing"),
    ("#[laby(x)] fn FN@f() -> u32 { 1 }", "the component marker has arguments"), ("#[laby(1)] fn FN@f(x: u32) -> u32 { 1 }", "the component marker has arguments"), ("#[laby(a = 1)] fn FN@f() -> u32 { 1 }", "the component marker has arguments"), ("#[laby(default)] fn FN@f() -> u32 { 1 }", "the component marker has arguments"), ("#[laby(\"x\")] pub fn FN@f(#[rest] x: impl Render) -> u32 { 1 }", "the component marker has arguments"),
    ("#[laby = 1] fn FN@f() -> u32 { 1 }", "the component marker has a value"), ("#[laby] struct FN@S;", "a component is not a function"), ("#[laby] const FN@C: u32 = 1;", "a component is not a function"), ("#[laby] mod FN@m {}", "a component is not a function"),
]
C20_OTHER = [
    # wrong calls of the components above
    "g1!()", "g1!(y = 1)", "g1!(1)", "g1!(x = 1, 2)", "g1!(x = 1, z = 2)", "g2!(s = \"a\", t = 1)", "g4!(m = 1)", "g6!(r#struct = None)", "g6!(r#type = 1, r#enum = 2)", "g9!(1)", "g9!(x = 1)", "w2!()", "w2!(kids = 1, a = 1)", "w2!(b = \"x\", 1, 2)", "w4!(x1 = 1, x2 = 2, x3 = 3)", "w4!(x1 = 1, x2 = 2, x3 = 3, x4 = 4, x7 = 5)", "w5!(a = 1, b = 2, c = 3)", "rec!()", "incm!()", "incm!(x = 1, w = 2)", "indeep!(y = 1)", "indeep!(z = 1)", "tup!((1, 2))", "pass!()", "pass!(1)", "pass!(y = 1)", "pass!(x = 1, 2)", "pass!(x = 1, y = 2)", "passrest!(x = 1)", "passrest!(1, x = 2)", "comp1!(kids = 1)", "comp1!(X = 1)", "comp1!(x1 = 1)", "comp1!(xx = 1)",
    # names that are none
    'pass!("x" = 1)', "pass!(x = 1, \"x\" = 2)", "pass!(x.y = 1)", "pass!(m::x = 1)", "pass!(x[0] = 1)", "pass!(1 = 2)", "comp1!(\"x\" = 1)", "comp1!(1, x.y = 1)", "comp1!(x::y = 1)", "comp1!(f() = 1)", "comp1!(*x = 1)", "comp1!((x, y) = (1, 2))", "comp1!(self::x = 1)", "comp1!('x' = 1)", "comp1!(true = 1)",
    # not lists of expressions
    "pass!(x = )", "pass!(x)", "pass!(x: 1)", "pass!(,)", "pass!(x = 1,, )", "passrest!(1 2)", "passrest!(,)", "passrest!(1,, 2)", "pass!(x => 1)", "pass!(let x = 1)", "pass!(x = 1; )",
]


def run_c20(tier, chk, decl=False):
    deep = tier == "thorough"
    tc = Toolchain(chk, decl)
    feats = "#![feature(decl_macro)]" if decl else ""
    rej, S = [], sigs(3, True) if not decl else sigs(2, True)
    items = ITEMS + COMP_ITEMS + "\n".join(g.decl() for g in S) + "\n"
    # a repeated default expression is the same call for this property
    for g in S:
        n = {0: 2, 1: 4, 2: 4 if deep else 3, 3: 4 if deep else 3}[len(g.kinds)]
        if len(g.kinds) == 3 and not deep and g.name.endswith("n") and "X" in g.kinds:
            continue
        for args in arg_lists(g, n, True):
            src, o, _ = g.call(args)
            if o is None:
                rej.append(((), f"let _t = rs({src});", "the call does not fit the parameters"))
                if len(args) < 2 and len(g.kinds) < 3:
                    for x in ("div!(@)", "div!('a', p!(@), 'b')", "pass!(x = @)", "frag_match!(if true { @ } else { 1 })", "div!(x = @)"):
                        rej.append(((), f"let _t = rs({x.replace('@', src)});", "the call does not fit the parameters"))
    for c in C20_OTHER:
        for x in RCTX if deep else ["@", "div!(@)", "(@)", "frag!(1, p!(@))", "pass!(x = @)", "passrest!(1, @)", "comp1!(1, x = @)", "img!(x = @)", "frag_match!(match nn { 1 => @, _ => 1 })", "same!(@)", "via!(@)", "(|| @)()"]:
            rej.append(((), f"let nn = 1; let tt = true; let _t = rs({x.replace('@', c)});", "the call does not fit the parameters"))
    r1, v1 = run_rejects(tc, "C20d" if decl else "C20", rej, items, feats)
    dec = [((d,), "", why) for d, why in C20_DECL]
    # declarations are rejected on their own, each in its own file
    r2, v2 = run_decls(tc, "C20decl", dec, items, feats)
    vs = v1 + v2
    if vs and r1 == 0:
        return {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}, plain(vs), None
    # the calls that fit are accepted
    ok = []
    for g in S:
        for args in arg_lists(g, 3, False):
            src, o, log = g.call(args)
            if o is not None:
                ok.append(Case(Ctx(), V(src, o)))
                ok[-1].log = None
    stats, v3 = run_cases(tc, "C20ok", ok, items, feats)
    vs += [v for v in v3 if "compile" in v["what"]]
    n = r1["rejected"] + r2["rejected"]
    cov = {"states": n + stats["cases"], "transitions": len(rej) + len(dec) + len(ok), "traces_validated_against_impl": n + stats["cases"], "calls_rejected": r1["rejected"], "declarations_rejected": r2["rejected"], "calls_accepted": stats["cases"], "compiled_alone": r1["alone"] + r2["alone"],
           "samples": r1["samples"] + r2["samples"] + stats["samples"][:3], "exhaustive": True}
    return cov, plain(vs), tc


def run_decls(tc, name, dec, items, feats):
    """Declarations that must not compile, each compiled alone."""
    return run_rejects(tc, name, dec, items, feats, shards=1, recheck=1000)


# with decl_macro: where a component is and how it is called
DECL_ITEMS = r"""
pub mod m { use super::*; @SIGS@
  pub fn private_default() -> u32 { 77 }
  const HIDDEN: u32 = 78;
  #[laby] pub fn pd(#[default(private_default())] x: u32, #[default(HIDDEN)] y: u32) -> impl Render { p!(x, ",", y) }
  #[laby] pub fn loc(a: u32, #[default(5)] b: u32, #[rest] r: impl Render) -> impl Render { p!(a, ",", b, ",", r) }
  #[laby] pub(crate) fn locc(a: u32, #[default(5)] b: u32, #[rest] r: impl Render) -> impl Render { p!(a, ",", b, ",", r) }
  pub fn within() -> String { rs(loc!(a = 1)) + &rs(self::loc!(2, a = 1)) + &rs(inner::deep!(1)) + &rs(crate::m::inner::deep!(x = 2)) }
  pub mod inner { use laby::*; #[laby] pub fn deep(#[default] x: u32, #[rest] r: impl Render) -> impl Render { q!(x, ",", r) }
    pub fn up() -> String { super::rs(super::loc!(a = 3, 'u')) + &super::rs(crate::m::loc!(b = 4, a = 3)) } }
}
pub mod re { pub use super::m::loc; pub use super::m::inner::deep as renamed; pub use super::m::inner; }
mod stranger { pub fn go() -> String { super::rs(super::m::loc!(a = 1, "s")) + &super::rs(crate::re::renamed!("s")) }
  pub fn own() -> String { fn loc(a: u32, b: u32) -> &'static str { "mine" } let _ = loc(1, 2); super::rs(super::m::loc!(a = 1)) } }
fn loc_shadow() -> String { fn loc(_: u32) -> &'static str { "mine" } let _ = loc(1); rs(m::loc!(a = 6)) }
"""
DECL_CALLS = [
    ("m::within()", "<p>1,5,</p><p>1,5,2</p><q>0,1</q><q>2,</q>"), ("m::inner::up()", "<p>3,5,u</p><p>3,4,</p>"), ("stranger::go()", "<p>1,5,s</p><q>0,s</q>"), ("stranger::own()", "<p>1,5,</p>"), ("loc_shadow()", "<p>6,5,</p>"),
    ("rs(m::pd!())", "<p>77,78</p>"), ("rs(m::pd!(y = 1))", "<p>77,1</p>"), ("rs(m::pd!(x = 1))", "<p>1,78</p>"),
] + [(f"rs({p}!(b = 2, 'r', a = 1))", "<p>1,2,r</p>") for p in ("m::loc", "self::m::loc", "crate::m::loc", "re::loc", "crate::re::loc", "m::locc", "ext::m::eloc", "::ext::m::eloc", "ext::top")
] + [(f"rs({p}!('x', 'y', x = 3))", "<q>3,xy</q>") for p in ("m::inner::deep", "re::renamed", "re::inner::deep", "crate::re::inner::deep", "ext::m::n::edeep", "ext::again")
] + [
    ("{ use m::loc; rs(loc!(a = 1)) }", "<p>1,5,</p>"), ("{ use m::loc as other; rs(other!(a = 1)) }", "<p>1,5,</p>"), ("{ use m as mm; rs(mm::loc!(a = 1)) }", "<p>1,5,</p>"), ("{ use m::*; rs(loc!(a = 1)) }", "<p>1,5,</p>"), ("{ use m::inner; rs(inner::deep!()) }", "<q>0,</q>"),
    ("{ use ext::m::eloc; rs(eloc!(a = 1)) }", "<p>1,5,</p>"), ("{ use ext::m::n as nn; rs(nn::edeep!(1)) }", "<q>0,1</q>"), ("rs(ext::m::epd!())", "<p>77,78</p>"), ("rs(ext::m::epd!(y = 1))", "<p>77,1</p>"), ("ext::m::n::up()", "<p>3,5,u</p>"),
    ("rs(div!(m::loc!(a = 1, b!(m::inner::deep!(2)))))", "<div><p>1,5,<b><q>0,2</q></b></p></div>"), ("rs(m::loc!(a = 1, m::loc!(a = 2, m::loc!(a = 3))))", "<p>1,5,<p>2,5,<p>3,5,</p></p></p>"), ("rs(div!(x = m::loc!(a = 1)))", '<div x="<p>1,5,</p>"></div>'), ("rs(frag_match!(if true { m::loc!(a = 1) } else { 1 }))", "<p>1,5,</p>"), ("rs(ext::m::eloc!(a = 1, m::loc!(a = 2)))", "<p>1,5,<p>2,5,</p></p>"),
    ("{ let a = 9; rs(m::loc!(a = a, b = a + 1, a)) }", "<p>9,10,9</p>"), ("{ let x = 9; rs(m::pd!(x = x)) }", "<p>9,78</p>"), ("{ fn private_default() -> u32 { 1 } let _ = private_default(); rs(m::pd!()) }", "<p>77,78</p>"), ("{ const HIDDEN: u32 = 1; rs(m::pd!(x = HIDDEN)) }", "<p>1,78</p>"),
]
EXT = r"""#![feature(decl_macro)]
#![allow(warnings)]
use laby::*;
pub use m::eloc as top; pub use m::n::edeep as again;
pub mod m { use laby::*;
  pub fn hidden() -> u32 { 77 } const HIDDEN: u32 = 78;
  #[laby] pub fn epd(#[default(hidden())] x: u32, #[default(HIDDEN)] y: u32) -> impl Render { p!(x, ",", y) }
  #[laby] pub fn eloc(a: u32, #[default(5)] b: u32, #[rest] r: impl Render) -> impl Render { p!(a, ",", b, ",", r) }
  pub mod n { use laby::*; #[laby] pub fn edeep(#[default] x: u32, #[rest] r: impl Render) -> impl Render { q!(x, ",", r) } pub fn up() -> String { render!(super::eloc!(a = 3, "u")) } }
}
"""


def run_c28(tier, chk):
    deep = tier == "thorough"
    tc = Toolchain(chk, True)
    S = sigs(3, vis="pub ")
    items = DECL_ITEMS.replace("@SIGS@", "\n".join(g.decl() for g in S))
    cases = []
    for g in S:
        n = {0: 2, 1: 4, 2: 3, 3: 4 if deep else 3}[len(g.kinds)]
        for args in arg_lists(g, n, False):
            src, o, log = g.call(args, path="m::")
            if o is not None:
                cases.append(Case(Ctx(), V(src, o, log)))
                if len(args) < 2 and len(g.kinds) < 3:
                    for p in ("crate::m::", "self::m::"):
                        src2, o, log = g.call(args, path=p)
                        cases.append(Case(Ctx(), V(f"div!(x = {src2}, 'k', {src2})", f'<div x="{o}">k{o}</div>', log + log)))
                    src2, o, log = g.call(args)
                    cases.append(Case(Ctx(), V(f"{{ use m::{g.name}; {src2} }}", o, log)))
    ext_src = f"{chk.BUILD}/cases/ext.rs"
    os.makedirs(os.path.dirname(ext_src), exist_ok=True)
    open(ext_src, "w").write(EXT)
    ext = f"{chk.BUILD}/cases/libext.rlib"
    r = tc.lib(ext_src, "ext", ext)
    vs = []
    if r is not None:
        return {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}, [{"what": f"a crate with public components does not compile: {r[:1500]}", "src": EXT}]
    tc.extra = ["--extern", f"ext={ext}", "-L", f"dependency={chk.BUILD}/cases"]
    for call, o in DECL_CALLS:
        cases.append(Case(Ctx(), V(f"raw!({call})", o)))
        cases[-1].log = None
    stats, v1 = run_cases(tc, "C28", cases, items, "#![feature(decl_macro)]\nextern crate ext;")
    vs += v1
    # the calls of the property without decl_macro, except what only concerns scopes there
    c19 = [c for c in gen_c19("quick") if not any(x in c.src for x in ("incm", "indeep", "cm::", "mod inner"))]
    if not deep:
        c19 = [c for c in c19 if c.twin is not None] + [c for c in c19 if c.twin is None][::4]
    its = ITEMS + "\n".join(l for l in COMP_ITEMS.split("\n") if not l.startswith(("mod cm", "  pub", "use cm")))
    its += "\n" + "\n".join(g.decl() for g in sigs(3)) + FOUR
    stats2, v2 = run_cases(tc, "C28b", c19, its, "#![feature(decl_macro)]")
    vs += v2
    if vs:
        return {"states": stats["cases"] + stats2["cases"], "transitions": 0, "traces_validated_against_impl": 0, "samples": []}, plain(vs)
    tc.extra = []
    cov, v3, _ = run_c20(tier, chk, True)
    vs += v3
    n = stats["cases"] + stats2["cases"]
    cov2 = {"states": n + cov["states"], "transitions": stats["nodes"] + stats2["nodes"] + cov["transitions"], "traces_validated_against_impl": n + cov["traces_validated_against_impl"], "calls_by_path": stats["cases"], "calls": stats2["cases"], "calls_rejected": cov.get("calls_rejected", 0), "samples": stats["samples"] + stats2["samples"][:2], "exhaustive": True}
    return cov2, plain(vs)


FOUR = "\n" + "\n".join(Sig(tuple(k), ns).decl() for k in ("RRRR", "RDXS", "SXDR", "DDXX", "XSRD", "RRSX", "DRDR", "SRRR") for ns in NAMESETS) + "\n"


# ------------------------------------------------------------------------------------------- running

# property -> (generator, does the evaluation log decide, does the output decide)
RUNS = {
    "C10": (gen_c10, False, True),
    "C11": (gen_c11, False, True),
    "C12": (gen_c12, False, True),
    "C13": (gen_c13, True, False),
    "C14": (gen_c14, False, True),
    "C15": (gen_c15, False, True),
    "C17": (gen_c17, False, True),
    "C18": (gen_c18, True, True),
    "C19": (gen_c19, True, True),
}
CUSTOM = {"C16": lambda tier, chk: run_c16(tier, chk), "C20": lambda tier, chk: run_c20(tier, chk)[:2], "C28": lambda tier, chk: run_c28(tier, chk)}
PROPS = list(RUNS) + list(CUSTOM)


def plain(vs):
    out = []
    for v in vs:
        v = dict(v)
        c = v.pop("case", None)
        v.pop("log", None)
        if isinstance(c, Case):
            v["program"] = {"items": c.items, "pre": c.pre, "src": c.src, "out": c.out, "log": c.log, "post": c.post, "twin": c.twin, "twinlog": c.twinlog, "inline": c.inline}
        out.append(v)
    return out


def items_for(prop, tier):
    if prop == "C19":
        return ITEMS + COMP_ITEMS + "\n".join(g.decl() for g in sigs(4 if tier == "thorough" else 3)) + ("" if tier == "thorough" else FOUR)
    return ITEMS


def run(prop, tier, chk):
    if prop in CUSTOM:
        return CUSTOM[prop](tier, chk)
    gen, logs, outs = RUNS[prop]
    cases = gen(tier)
    tc = Toolchain(chk)
    stats, vs = run_cases(tc, prop, cases, items_for(prop, tier))
    if not outs:
        vs = [v for v in vs if v.get("log") or "rendered" not in v["what"]]
    if not logs:
        vs = [v for v in vs if not v.get("log")]
    cov = {"states": stats["cases"], "transitions": stats["nodes"], "traces_validated_against_impl": stats["cases"], "expressions_evaluated": stats["expressions"], "distinct_outputs": stats["outputs"], "samples": stats["samples"], "exhaustive": True}
    return cov, plain(vs)


def replay(j, chk):
    p = j["program"]
    c = Ctx()
    c.items, c.pre = p["items"], p["pre"]
    k = Case(c, V(p["src"], p["out"]), post=p["post"], twin=p["twin"], twinlog=p["twinlog"], inline=p["inline"])
    k.log = [[tuple(i) if isinstance(i, list) else i for i in g] for g in p["log"]] if p["log"] is not None else None
    _, vs = run_cases(Toolchain(chk), "replay", [k], ITEMS)
    for v in vs:
        print("VIOLATED: " + v["what"])
    return 1 if vs else 0
