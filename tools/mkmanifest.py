import json
T="solver-based: dynamic symbolic execution of the compiled analysis with Z3 over symbolic dependency sets"
I="solver-based: concolic execution of the extension's instrumented TypeScript with Z3, all feasible paths"
K="solver-based: bounded model checking of the source file with Kani (CBMC, SAT)"
checks={
"P01":"corpus programs run symbolically twice, the second time with everything outside the reported slice perturbed: the value must not change",
"P02":"every corpus instruction and constructed instructions, from an arbitrary state: each row must contain at least what the reference semantics demands",
"P03":"every corpus instruction and constructed instructions, from an arbitrary state: no row may contain more than the reference semantics admits",
"P04":"the engine run on every bounded control-flow graph with symbolic gen/kill/entry sets, against the least solution",
"P05":"every bounded control-flow graph with symbolic conditions' dependencies, against the path definition of control dependence",
"P07":"write one place, read another, in an arbitrary state: visible iff the places overlap",
"P08":"corpus calls and constructed calls from an arbitrary state: exactly the reference effect",
"P09":"reading any place in an arbitrary state: exactly the union of everything that influences it",
"P06":"loan sets and dereference targets for every small subset of the borrow checker's outlives facts (the facts are solver choices), against naive iteration of the documented rules",
"P10":"forward, backward and combined queries on results whose states are symbolic, against the definition of the answer",
"P11":"corpus callers and callees run symbolically twice through the analysed calls, the second time with everything outside the slice perturbed; every call from a symbolic state in both context modes: contained, or equal if it cannot be entered; with and without other calls analysed before",
"P12":"every instruction and read in each imprecise mode against the default mode, from pairs of symbolic states one included in the other",
"P13":"the checker run on results whose final states are symbolic, for every secure-insecure pair of places, and on whole crates, against the definition of an issue",
"P14":"the focus output computed from results whose states are symbolic, for every selectable expression, against the definition of slice and direct influence",
"P15":"Kani (CBMC): every UTF-8 string up to 18 (quick) or 40 (thorough) bytes through each from_str; every predicate on modes through is_extension_active, unset, set and nested; the options of the analysis command in every combination",
"P17":"focus mode driven through its commands with symbolic containers and slice ranges; what is greyed out compared at a symbolic point",
"P18":"focus mode driven through its commands with symbolic expressions, functions and selections, against the definition of what is shown",
"P19":"every bounded history of events with results arriving in any order (the events are solver choices)",
"P20":"every bounded history of commands with every outcome of every analysis (the outcomes are solver choices, exit codes symbolic)",
"P21":"activation under every placement of projects, installed version and combination of failing steps (all solver choices)",
"P16":"entry effect on an arbitrary state: exactly the reference one",
}
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
na={}
m={"version":1,"setup_cmd":"/verif/check.sh setup","hooks":{"guard":"--cfg vp_hooks","enable":"RUSTFLAGS=\"--cfg vp_hooks\"","source_commits":["63f6d9abab72275965871df97aaf4fd7edc3143b"]},
"checks":[{"property":p,"quick_cmd":f"/verif/check.sh {p} quick","thorough_cmd":f"/verif/check.sh {p} thorough","technique":K if p=="P15" else I if p in ("P17","P18","P19","P20","P21") else T,"level":"model_checking","level_note":checks[p]} for p in props if p in checks],
"not_applicable":[{"property":p,"reason":na.get(p,"check under construction")} for p in props if p not in checks]}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
