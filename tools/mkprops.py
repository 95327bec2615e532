#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

ESC="laby_common/src/internal/escape.rs"; BUF="laby_common/src/internal/buffer.rs"; REN="laby_common/src/render.rs"
BLD="laby_macros/src/build.rs"; NOD="laby_macros/src/node.rs"; MAC="laby_macros/src/lib.rs"; CMP="laby_macros/src/component.rs"
MAT="laby_macros/src/matching.rs"; HLP="laby/src/helpers.rs"; LIB="laby/src/lib.rs"; DOC="laby/src/doctype.rs"

p("C01","Escaping is exact for every text",
  "Whatever text a program renders as ordinary (not raw) content, the output is that text with each of the five characters \" & ' < > replaced by &quot; &amp; &#39; &lt; &gt; and every other byte kept unchanged and in order. This holds for every length, content, position of the special characters, memory alignment of the text and fill state of the output, and for strings, owned strings, optional strings, single characters and the stand-alone escaping functions alike.",
  ["inputs","configurations"],
  "all UTF-8 texts, over every position/combination of special characters, every alignment of the source, every free space left in the output buffer",
  "Seven tests escape nine fixed strings; vectorised code has distinct paths per length class, per lane and per alignment, and none of these is sampled systematically.",
  [ESC,REN],[("scalar escape for texts shorter than 16 bytes","escape_impl / naive::escape_small in "+ESC),("vector loops with back-shifted tail masks","avx2::escape, avx2::escape_small, sse2::escape in "+ESC),("char rendering","impl Render for char in "+REN)],
  ["render!(text)","internal::escape","internal::escape_str"])

p("C02","Rendering stays inside the text it reads and the buffer it owns",
  "Rendering or escaping any value never reads a byte outside the value being rendered and never writes a byte outside memory that the output buffer owns. This holds for every text length and alignment and for every amount of free space in the output buffer, including none.",
  ["inputs","configurations"],
  "all value kinds x all lengths/alignments x all amounts of free space left in the output buffer",
  "An out-of-bounds access of a few bytes is silent in ordinary tests: nothing surrounds the inputs or the output with inaccessible memory, and no test renders into a nearly full buffer.",
  [ESC,BUF,REN],[("reserve before raw write","reserve_small calls in "+ESC+" and "+REN),("tail loads shifted back into the text","avx2/sse2 tail blocks in "+ESC)],
  ["memory accesses of render/escape, observed with guard pages around input and output"])

p("C03","Escaping adapts to the processor it runs on",
  "On every processor configuration (any combination of vector extensions reported by the CPU and enabled by the operating system) the text escaping routine executes only instructions that this configuration supports. Its output is identical on all of them.",
  ["configurations","inputs"],
  "all combinations of the CPUID/XCR0 feature bits that govern SSE2, AVX, AVX2 and OS support, times texts of every length class, alignment and special-character position",
  "The tests run on one machine, hence on one configuration; the other code paths are never executed at all.",
  [ESC],[("runtime feature detection cached in a function pointer","escape_impl::detect / FN in "+ESC),("scalar word-at-a-time path","fallback::escape in "+ESC)],
  ["instructions executed by the first and later escape calls under emulated CPUID answers","escape output per configuration"],
  state=[("FN","cached implementation choice",ESC)])

p("C04","Concurrent rendering equals sequential rendering",
  "Threads that render independent values at the same time each obtain exactly the output they would obtain alone, under every interleaving. In particular this holds when several threads race on the very first escape of the process.",
  ["schedules"],
  "all interleavings of two or three concurrent render/escape calls, including first use, up to a preemption bound at machine-instruction granularity",
  "All tests are single-threaded bodies and none controls the schedule; a race window of a few instructions on first use is practically never hit.",
  [ESC,BUF],[("idempotent relaxed publication of the detected routine","FN.store/FN.load in "+ESC),("no other shared mutable state","laby_common")],
  ["output of each thread"],
  state=[("FN","cached implementation choice",ESC)])

p("C05","The output buffer is a faithful string builder",
  "After any sequence of buffer operations (creating, appending text or characters in any of the supported ways, reserving, clearing, cloning, converting from and to strings) the buffer's contents equal those of an ordinary string subjected to the same operations. Length and emptiness agree with the contents, capacity is never below the length, and a clone or converted string is independent of the original.",
  ["histories"],
  "all operation sequences up to a depth, from empty and from every (length, capacity) state near the growth boundary",
  "One doc-test appends two strings; growth, exact-fit, clear-then-append, clone and conversion histories are untested.",
  [BUF],[("len/capacity bookkeeping and growth","Buffer::push_str, push, reserve_internal, clear in "+BUF),("ownership transfer","Buffer::into_string, From<String>, Clone in "+BUF)],
  ["Buffer public API"],
  state=[("data,len,capacity","heap block, used bytes, allocated bytes",BUF)])

p("C06","Buffer memory is owned exactly once",
  "For every history of buffer operations each heap block is released exactly once, with the layout it was obtained with, and is never touched after release; nothing is leaked when buffers are dropped, converted to strings or abandoned by a panic. If the allocator refuses a request, the program stops through the allocation-error path and never continues on an invalid block.",
  ["histories","fault_sequences"],
  "all buffer operation sequences up to a depth, times allocation failure injected at every allocation point",
  "Leaks, double releases, wrong layouts and unchecked allocation failures are invisible to assertions on output; no test injects a failing allocator.",
  [BUF],[("raw alloc/realloc/dealloc with matching layouts","safe_alloc, safe_realloc, Drop, Clone, into_string in "+BUF)],
  ["global allocator calls"],
  state=[("capacity","layout size of the owned block",BUF)])

p("C07","Capacity requests are honoured or refused, never ignored",
  "When a request to reserve room or to create a buffer with a capacity returns, at least that much free room exists and the contents are unchanged. A request that cannot be satisfied because the size exceeds the maximum object size panics, in every build profile, and leaves the buffer valid.",
  ["inputs","histories","configurations"],
  "all (length, capacity) states up to a bound times all request sizes near 0, near the free room and near the integer limits, in builds with and without overflow checks",
  "No test calls reserve; arithmetic that wraps shows only in optimised builds with sizes near the integer limit.",
  [BUF],[("size check and growth arithmetic","Buffer::reserve, reserve_internal, with_capacity in "+BUF)],
  ["Buffer::reserve","Buffer::with_capacity","Buffer::capacity"])

p("C08","Integers render as their decimal value",
  "Every value of every integer type, signed, unsigned, pointer-sized or non-zero, renders as exactly its decimal representation, and nothing else is written.",
  ["inputs"],
  "all values of all 24 integer types, in every fill state of the output",
  "Tests render a handful of small integers; extreme values, digit-count boundaries and nearly full buffers are not covered.",
  [REN],[("reserve maximum length then write digits","impl_int! / impl_nonzero_int! in "+REN)],
  ["render!(integer)"])

p("C09","Floating-point numbers render as a shortest exact representation",
  "Every finite f32 and f64 renders as a decimal that reads back as exactly the same value (sign of zero included), with no more significant digits than the shortest such decimal, and always recognisable as a non-integer literal (a point or an exponent). NaN renders as NaN and infinities as inf and -inf.",
  ["inputs"],
  "all bit patterns of f32; all exponents times boundary mantissas for f64; every fill state of the output",
  "Two literals are tested, both at compile time.",
  [REN],[("ryu into reserved space; explicit non-finite cases","impl_float! in "+REN)],
  ["render!(float)"])

p("C10","Markup macros produce exactly the document that was written",
  "For every well-formed template the rendered text is the document its structure denotes: an opening tag with the attributes in source order in name=\"value\" form, then for normal elements the children in source order and the closing tag, with nothing added, lost, duplicated or reordered. This is independent of how attributes and children are interleaved in the source, of the kind of expression used for each name, value and child, and of the number and nesting of items.",
  ["programs"],
  "all templates up to a size and depth over an alphabet of attribute forms, value forms and child forms",
  "About thirty fixed templates are tested; interactions between item kinds, positions, counts and nesting are a combinatorial space.",
  [BLD,NOD,DOC,HLP],[("attribute/child partition and static text coalescing","build_inner in "+BLD),("field and statement generation","Node::store_generic, NodeRender::push_expr/flush in "+NOD)],
  ["render!(template)"])

p("C11","Composition is transparent",
  "Writing an element, fragment or class list directly inside another one yields the same output as binding it to a variable, returning it from a function, or passing it through a component, at any depth and position. Rendering one value on its own or as part of a larger tree yields the same text.",
  ["programs"],
  "all nesting shapes up to a bound, each compared between the inlined form and every out-of-line form, edge by edge",
  "Two tests compare one two-level template; the inlining optimisation handles every combination of element kinds, delimiters and positions.",
  [BLD,MAC,LIB],[("flattening of nested markup macros","build_inner / get_element in "+BLD+" and "+MAC)],
  ["render!(nested) vs render!(out-of-line)"])

p("C12","Literals written in templates render like the same values at run time",
  "A literal (string, raw string, character, byte, boolean, integer or float, in any notation, with or without type suffix, parenthesised or in a block) used as child, attribute name or attribute value renders exactly as a variable holding that literal would, escaping included. The literal's position and neighbours do not matter.",
  ["programs","inputs"],
  "all literal kinds and notations over boundary values times all template positions",
  "Tests compare five literals with hand-written text; they never compare compile-time with run-time rendering, and suffixes are untested.",
  [BLD],[("compile-time rendering of literals","try_render_literal, try_unwrap_literal in "+BLD)],
  ["render!(literal) vs render!(variable)"])

p("C13","Embedded expressions run exactly once, at construction, in document order",
  "Each expression embedded in a template is evaluated exactly once when the template value is constructed, in the order in which the attributes and children appear in the resulting document, and never during rendering; the constructed value keeps the results until it is rendered. Only the contents of an attribute that is switched off by a literal may be skipped.",
  ["programs","histories"],
  "all templates up to a size with a side effect in every expression position, observed before, during and after rendering",
  "No test observes evaluation count, order or time.",
  [BLD,NOD],[("one stored field per expression","Node::store_generic/store_concrete, NodeCtor in "+NOD)],
  ["side effects of embedded expressions"])

p("C14","Boolean attributes are present without a value or absent",
  "An attribute marked as boolean renders as its bare name preceded by one space when the flag is true and leaves no trace when it is false, whatever the form of the name and flag and whatever precedes or follows it. An attribute not marked as boolean always renders with a value, also when that value is a boolean or renders as nothing.",
  ["programs","inputs"],
  "all attribute lists up to a length over name forms x flag forms x both run-time flag values, in normal, void and nested elements",
  "Five fixed templates, only identifier names, never next to non-literal attributes.",
  [BLD],[("static and dynamic boolean attributes","set_boolean_attr in "+BLD)],
  ["render!(element with bool!(..) attributes)"])

p("C15","Every HTML element macro emits its own tag in its own form",
  "Each of the 115 exported element macros emits its own tag name, with a closing tag unless it is one of the 14 void elements, which never get one and never have children. The same holds when the macro is used inside any other element, fragment or class list.",
  ["inputs","programs"],
  "all 115 element macros x stand-alone, as parent and as child of normal, void-sibling, fragment and class-list contexts x argument shapes",
  "Tests use about a dozen of the 115 tags, and three of the 14 void elements.",
  [MAC,LIB,NOD],[("tag tables and macro declarations","declare_tags!, get_element in "+MAC),("re-exports","pub use laby_macros::{..} in "+LIB)],
  ["render!(tag!(..))"])

p("C16","Malformed markup is rejected at compile time",
  "A template that gives a child to a void element, an attribute to a fragment or class list, a non-boolean to a boolean attribute, or misuses the boolean marker does not compile, and neither does rendering a template that embeds a value that cannot be rendered, wherever in a nested template it occurs. It is never silently accepted with the offending part dropped, and well-formed templates are never rejected.",
  ["programs"],
  "every kind of malformation x every void element x every nesting context up to a depth, plus the corrected twin of each",
  "No existing test checks rejection of markup (the compile-fail doc-tests concern components only).",
  [BLD,MAC,HLP],[("structural checks","build_inner in "+BLD),("typed boolean field","set_boolean_attr/store_concrete in "+BLD),("marker macro that always errors","bool! in "+HLP)],
  ["compiler diagnostics"])

p("C17","Fragments add nothing and class lists add exactly one space per gap",
  "A fragment renders its items one after another with no text in between; a class list renders exactly one space between each two neighbouring items, whether or not an item renders as nothing, and none before the first or after the last. This holds when fragments and class lists are nested in each other or in elements, or used as attribute values, or stand alone.",
  ["programs"],
  "all trees of fragments and class lists up to a size over item kinds including empty ones, in every context",
  "Seven fixed templates; class lists are never nested, combined with elements, or flattened next to fragments.",
  [BLD,NOD],[("delimiter between children","Element::frag_with_delimiter, build_inner in "+BLD)],
  ["render!(frag!(..))","render!(classes!(..))"])

p("C18","Branch fragments render exactly the branch Rust would take",
  "Wrapping a match or if expression renders exactly the value of the branch that plain Rust would take, whatever the types of the branches, and renders nothing when no branch is taken. Conditions, guards and the taken branch are evaluated exactly as often and in the same order as in the plain expression, and other branches are not evaluated.",
  ["programs","inputs"],
  "all if/else-if/else chains and matches (patterns, guards, bindings, if-let, block and expression arms, nesting) up to a size, on all scrutinee values",
  "Four tests each evaluate one input; no nesting, guards, bindings, missing else or other branches are ever taken.",
  [MAT],[("one optional slot per branch","generate_from_match, generate_from_if in "+MAT)],
  ["render!(frag_match!(..))"])

p("C19","Component calls bind every argument to the parameter it names",
  "A call through a component macro is equivalent to calling the function directly with each named argument in the position of its parameter, in whatever order the arguments are written; omitted optional parameters get their default, the last of several arguments for one parameter wins, and all unnamed arguments reach the rest parameter in their written order. Bound arguments are evaluated exactly once and a default only when its parameter is omitted.",
  ["programs"],
  "all signatures up to a number of parameters over {required, default, default(expr), rest} x all argument lists up to a length",
  "Nine fixed components with one or a few calls each; permutations, omissions and interleavings are exponential.",
  [CMP,LIB],[("name-keyed binding then positional call","generate_component_macro_call in "+CMP),("macro generation","generate_component_macro in "+CMP)],
  ["component!(..) vs function(..)"])

p("C20","Wrong component calls are rejected at compile time",
  "A component call that names an unknown parameter, omits a required one, or passes an unnamed argument to a component without rest parameter does not compile; neither does the call of a component with two rest parameters, or a component declared with a receiver or with arguments to the component marker. No argument is ever silently dropped or rebound, and valid calls are never rejected.",
  ["programs"],
  "all argument lists up to a length on all signatures up to a size, classified by a reference binder; all malformed declarations",
  "The compile-fail doc-tests cover receivers and name-resolution caveats only.",
  [CMP],[("binding errors","generate_component_macro_call in "+CMP),("declaration errors","unwrap_typed_arg, unwrap_named_pat in "+CMP)],
  ["compiler diagnostics"])

p("C21","Iterators render lazily, in order, with delimiters only in between",
  "Rendering an iterator wrapper outputs the items in the order yielded, up to the iterator's first end, with the verbatim delimiter (if any) exactly between consecutive items. The iterator is not advanced before rendering and each item is rendered exactly once.",
  ["inputs","histories"],
  "all iterator behaviours up to a number of steps (items and ends in any order, any size hint) x delimiters x item kinds",
  "Six tests use arrays, vectors and ranges, i.e. well-behaved iterators only, and none observes laziness.",
  [HLP],[("delimiter loop","RenderIterator, RenderIteratorDelimited in "+HLP)],
  ["render!(iter!(..))","render!(iter_lines!(..))"])

p("C22","Formatted values are escaped in full, however they are written",
  "Rendering format arguments or a displayable value outputs exactly the escaped form of the text that ordinary formatting would produce, literal pieces and padding included. This does not depend on how the formatter splits the text into pieces or characters.",
  ["inputs","histories"],
  "all sequences of formatter write calls up to a length over boundary pieces, under format templates with literal text, padding and precision",
  "Four tests write one or two short pieces.",
  [REN,HLP],[("escaping writer","impl Render for Arguments in "+REN),("display adapter","RenderDisplay in "+HLP)],
  ["render!(format_args!(..))","render!(disp!(..))"])

p("C23","Rendering allocates nothing but its output buffer",
  "Constructing and rendering a template performs no heap allocation other than those of the embedded expressions themselves and of the output buffer, so that rendering into a buffer with enough room performs none at all. Building output of any size by appending needs a number of (re)allocations that is at most logarithmic in that size.",
  ["programs","inputs","histories"],
  "all template item kinds and value kinds, all output sizes up to a bound",
  "No test counts allocations.",
  [BUF,NOD,REN,LIB],[("stack-only node structs","NodeDecl in "+NOD),("geometric growth","reserve_internal in "+BUF)],
  ["global allocator calls"])

p("C24","Values survive abandoned and interrupted rendering exactly once",
  "Every value moved into a template is dropped exactly once, whether the template is rendered, dropped unrendered, or interrupted by a panic in any embedded expression, value, iterator or formatter at any point. After such a panic the output buffer is still a valid string holding exactly what was rendered before the interruption, and can be used further.",
  ["fault_sequences","histories"],
  "a panic injected at every point of construction and rendering of templates covering every item kind",
  "No test panics or observes drops.",
  [NOD,BUF,HLP,REN],[("by-value fields, safe moves","NodeRender in "+NOD),("drop-safe buffer","Drop for Buffer in "+BUF)],
  ["drop counts","buffer contents after unwinding"])

p("C25","Rendering only appends, and appends the same text every time",
  "Rendering a value into a buffer leaves the existing contents untouched and appends exactly the text that rendering it alone would produce, whatever the buffer already holds and however much room it has. Rendering several values together, in sequence or through nested wrappers gives the concatenation of their separate renderings.",
  ["inputs","histories"],
  "all sequences up to a length over all value kinds, from every fill state around the growth boundaries including that of the default buffer",
  "Every test starts from a fresh 16 KiB buffer and produces less than 400 bytes.",
  [BUF,REN,HLP],[("append at len","Buffer::push_str, as_mut_ptr/advance users in "+REN+" and "+ESC),("render! of several values","render! in "+HLP)],
  ["Render::render into pre-filled buffers","render!(a, b, ..)"])

p("C26","Wrappers and plain scalars render as the value they hold",
  "Unit and absent optional values render as nothing, a present optional, a borrowed-or-owned value and a non-zero integer render exactly as the value inside, and booleans render as true or false, at any nesting of wrappers and in any template position.",
  ["inputs","programs"],
  "all wrapper nestings up to a depth over all scalar kinds and boundary values, as children, attribute values, list items and iterator items",
  "A few tests use Option of a string; wrapper combinations are untested.",
  [REN],[("forwarding impls","impl Render for Option/Cow/NonZero*/bool/() in "+REN)],
  ["render!(wrapper)"])

p("C27","Raw values are the only unescaped text, and are verbatim",
  "A value marked raw appears in the output byte for byte in any position, and so do the doctype and iterator delimiters; all other text, in whatever position, contains no unescaped special character. Escaped and raw parts never affect each other.",
  ["programs","inputs"],
  "all sequences of raw and ordinary items up to a length in all positions (child, attribute name, attribute value, class list, iterator item) over texts with every special character",
  "Four tests render one raw string in three positions.",
  [HLP,BLD,DOC],[("unescaped push","RenderRaw, RenderIteratorDelimited in "+HLP)],
  ["render!(raw!(..))"])

p("C28","Components behave the same with declarative macros 2.0",
  "With the decl_macro feature enabled components keep the same call semantics as without it, and can in addition be called by path and from other modules, without importing the function.",
  ["configurations","programs"],
  "the component call space of C19 (smaller bounds) compiled with the feature on, called by name and by path",
  "The test suite does not compile with the feature, so this configuration has no tests at all.",
  [CMP],[("macro item instead of macro_rules","cfg!(feature = \"decl_macro\") branch in "+CMP)],
  ["path::component!(..)"])

with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False)+"\n")
print(len(P))
