#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json
A="crates/flowistry/src/infoflow/analysis.rs"; M="crates/flowistry/src/infoflow/mutation.rs"
AL="crates/flowistry/src/mir/aliases.rs"; PI="crates/flowistry/src/mir/placeinfo.rs"; EN="crates/flowistry/src/mir/engine.rs"
DE="crates/flowistry/src/infoflow/dependencies.rs"; RE="crates/flowistry/src/infoflow/recursive.rs"; EX="crates/flowistry/src/extensions.rs"
MO="crates/flowistry/src/infoflow/mod.rs"; UT="crates/flowistry/src/mir/utils.rs"
IFC="crates/flowistry_ifc/src/analysis.rs"; FO="crates/flowistry_ide/src/focus/mod.rs"; DI="crates/flowistry_ide/src/focus/direct_influence.rs"
P=[]
def p(id,title,st,over,q,why,files,mech): 
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=mech,where=", ".join(files))])))
p("P01","A reported slice is sufficient: everything outside it is irrelevant",
 "For a function analysed by Flowistry and a variable at a return point, any two executions that reach that return and agree on every argument in the variable's reported dependencies give the variable the same value, even if every instruction outside the reported dependencies computes something else or branches differently. Panics, non-termination, interior mutability and raw pointers are outside the guarantee.",
 ["inputs","programs"],"for every pair of argument values, and every perturbation of the instructions the slice leaves out, of each program in the corpus",
 "The tests compare the slice with an expected text for one query per program; none relates a slice to what the program computes, let alone for all inputs.",
 [A,M,AL,PI,EN],"backward dependencies computed by the flow-sensitive information-flow analysis are a sound slice (noninterference)")
p("P02","Every effect of an instruction is recorded, from any prior state",
 "After an instruction, each place it may write depends on that instruction, on everything its operands (including array indices and the pointers it writes through) depended on before, and on every branch that decides whether it runs together with what those branches' conditions depended on. This holds whatever dependencies had been accumulated before it, in loops and nested branches included.",
 ["inputs","programs","histories"],"for every prior dependency state (all subsets for all places), every instruction of the corpus and every instruction formed from its places",
 "Tests only reach the dependency states a few straight programs produce; the step must be right from any state.",
 [A,M],"transfer function: Θ' = Θ[p ↦ {ℓ} ∪ deps(inputs) ∪ control deps] for each aliased place")
p("P03","An instruction adds no dependency it should not and disturbs nothing else",
 "An instruction changes the recorded dependencies only of places it may write, adds to them only the instruction itself, its operands' and pointers' dependencies and its controlling branches, and forgets earlier dependencies exactly when the overwritten place is known to be fully replaced: a direct write to a place with a single possible target that is not an array element. Writing one field leaves its siblings untouched and passing a shared reference to a call modifies nothing.",
 ["inputs","programs","histories"],"for every prior dependency state, every instruction of the corpus and every instruction formed from its places",
 "The precision tests sample one state per program; over-approximation or a lost strong update in other states stays invisible, and an unsound strong update shows only for particular aliasing.",
 [A,M,PI],"frame condition and strong/weak update of the transfer function")
p("P04","The dataflow engine returns exactly the least solution on any control flow",
 "For any control-flow graph and any monotone gen/kill analysis in which a jump has no effect of its own (as in every rustc-built body), the result at each instruction is exactly the least solution of the forward equations: the instruction's effect applied to the join over all its predecessors, with the entry state at the start. Unreachable code keeps the bottom value and the work list always drains.",
 ["programs","inputs","histories"],"for every graph up to the bounded number of blocks and every gen/kill/entry set over the bounded domain",
 "The engine is only exercised through a few source programs; loop shapes, unstructured joins and processing orders are not enumerated.",
 [EN],"iterate_to_fixpoint work-list algorithm over locations")
p("P05","Control dependence is complete and exact on every control-flow graph",
 "An instruction that mutates something depends on precisely the branches that decide, directly or through enclosing branches and loops, whether it is executed on the way to a given return, and on what those branches' conditions depended on. A branch after which the instruction runs either way is not a dependency.",
 ["programs","inputs"],"for every control-flow graph up to the bounded number of blocks and every prior dependency state",
 "Tests contain a handful of structured branches; nested, looping and multi-exit shapes are unbounded.",
 [A],"control dependencies added in the transfer function, transitively")
p("P06","A reference's possible targets are exactly the loans its lifetime permits",
 "The possible targets of a dereference are the dereference itself plus exactly those borrowed places whose loan can flow, through the outlives relations of the borrow checker, into the reference's lifetime (with the reborrowed field path appended where the types agree). Loans that no chain of outlives relations connects to the lifetime are never targets, and no connected loan is lost, including around cycles of lifetimes and through static.",
 ["programs","inputs","configurations"],"for every subset of the outlives facts of the corpus programs (up to the bound) and every reference place in them",
 "Tests fix the fact set to that of two tiny programs; chains, cycles and re-projections under arbitrary fact sets are not reached.",
 [AL,UT],"loan propagation over the outlives graph by strongly connected components")
p("P07","Overlapping places conflict, disjoint places never do",
 "A write to one place is visible when reading another if and only if one contains the other, the read place can reach the written one through references, or they are elements of the same array; writes to disjoint fields, variables or allocations are not visible (a raw pointer counts as owning what it points to). What is reachable from a value respects the mutability of every reference on the way: nothing behind a shared reference counts as mutable.",
 ["inputs","programs"],"for every pair of places of every type in the corpus, from every prior dependency state",
 "Tests list conflicts and reachable places for one program; pairs over nested tuples, structs, enums, arrays, boxes and references are not covered.",
 [PI,AL,A],"conflicts/children/reachable_values and their use on read and write")
p("P08","A call is approximated soundly and tightly by its argument types alone",
 "Without looking at the callee, a call overwrites its destination with a value depending on all arguments and everything reachable from them (and on the callee, if it is a function pointer), except that a unit destination depends on none of them; and it may modify exactly the places reachable from the arguments through mutable references, boxes or raw pointers, which then keep their old dependencies and gain those of all arguments and what is reachable from them. Nothing reachable only through shared references is modified.",
 ["inputs","programs","histories"],"for every call signature shape in the corpus and every prior dependency state",
 "Tests use a dozen signatures with one state each.",
 [M,PI,UT],"modular mutation rule for Call terminators")
p("P09","Reading a place's dependencies collects everything that can influence its value",
 "The dependencies reported for a place are exactly the union, over the place and every value reachable from it through references, of the dependencies recorded for that value's containing and contained parts and possible aliases, and for the references traversed to reach it. Reading never changes the recorded state and gives the same answer every time.",
 ["inputs","programs","histories"],"for every recorded dependency state and every place of the corpus programs",
 "Tests query one variable of one final state.",
 [A,PI],"FlowAnalysis::deps_for over reachable values, conflicts and normalisation")
p("P10","Dependency queries answer each target set exactly, in every direction",
 "A backward query returns exactly the union of its targets' dependencies at their locations (an argument target being itself), and a forward query exactly the instructions whose written places (or branch conditions) depend on everything some target depends on, plus the target arguments. Querying both directions gives the union of the two, and answering many target sets at once equals answering each alone, independent of order.",
 ["inputs","programs","histories"],"for every per-location dependency state and every bounded batch of targets over the corpus programs",
 "Tests query one target in one direction; arbitrary states, batches and combined directions are not reached.",
 [DE],"compute_dependencies forward/backward/both")
p("P11","Analysing through calls is sound, never coarser, and falls back safely",
 "With whole-program recursion enabled, slices remain sufficient for the program's real behaviour through the analysed callees, also where a callee changes data through references that its declared types do not show (type parameters, trait objects). No value's dependencies after a call contain more than in signature-only mode, in any state in which everything recorded behind a reference is also recorded for something it refers to. Calls that cannot be entered (external, recursive, diverging, function pointers, trait methods, or taking mutating closures) are treated exactly as in signature-only mode, and results do not depend on which calls were analysed before.",
 ["programs","inputs","histories","configurations"],"for every input to the corpus caller/callee programs and every prior dependency state at each call",
 "About a dozen recursion tests each fix one caller, one callee and one query.",
 [RE,MO,A],"recurse_into_call: callee summary translated to caller places, cache and recursion guard")
p("P12","Turning on a less precise mode never loses a dependency",
 "Treating all references as mutable, or assuming that pointers of the same type may alias, only ever adds dependencies compared with the default mode, in every state, for every instruction and for every read (backward query) of a place. Forward queries are not monotone and are outside the guarantee. Selecting the default modes explicitly is the same as selecting none.",
 ["configurations","inputs","programs"],"for every combination of the mutability and pointer modes and every prior dependency state",
 "Two tests exercise one imprecise mode each and never compare with the default.",
 [EX,AL,PI,UT,A],"mode switches in loan collection, mutation and alias constraints")
p("P13","The information-flow checker reports an issue exactly when one exists",
 "For every function that can return, the checker reports an issue if and only if, at the union of the function's return states, some insecurely-typed place depends on everything that some securely-typed place with at least one dependency depends on; a function that never returns has no issue, and checking it does not fail. Places are the locals and the data they own (fields at any depth, enum variants, boxes, array elements); a reference to secure data counts as secure, and what a place depends on includes what is behind the references it holds. A crate has an issue if and only if one of its bodies, closures included, has one.",
 ["inputs","programs"],"for every final dependency state and every placement of secure and insecure data in the corpus programs",
 "The checker has no tests at all.",
 [IFC],"analyze(): superset test between secure and insecure places at the joined return state")
p("P14","The editor's slice data reflects the analysis exactly",
 "For each selectable expression, the slice shown by the editor is exactly the source ranges of the dependencies in both directions of every place and location behind that expression, merged and confined to the file, and its direct influences are exactly the ranges, inside the slice, of the instructions that read or write (as a whole, not through a reference) a value one of those places reaches. Every selectable expression of the function is present once. The containers are the ranges of the function's body, of its return type and, if it has parameters, of its parameters from first to last.",
 ["inputs","programs"],"for every dependency state (bounded free bits) of the corpus functions",
 "There is no test of the focus output; editor tests need a browser.",
 [FO,DI,DE],"focus(): grouping of spans, dependency spans, direct influence")
p("P15","Analysis mode names parse to exactly their modes and nothing else does",
 "Each documented mode name parses to the corresponding mode, every other string is rejected with an error that does not crash, and the default selection is the documented one: distinguish mutability, signatures only, precise pointers. A mode option is active only if a mode has been set and it selects that option. Naming a mode among the analysis command's options selects that mode, and leaving it out selects the default, independently of the other options.",
 ["inputs","configurations"],"for every well-formed UTF-8 string up to the bounded length, and every mode combination",
 "No test parses a mode.",
 [EX,"crates/flowistry_ide/src/plugin.rs"],"FromStr for the three modes, Default, is_extension_active; the options in FlowistryPlugin::run")
p("P16","On entry every argument, and all it owns or points to, depends on that argument",
 "Before the first instruction each part of each argument, including parts behind references up to the documented depth, depends on that argument; no part of an argument depends on another argument or on any instruction, and non-argument places have no dependencies.",
 ["inputs","programs"],"for every argument type of the corpus and every entry state",
 "Tests observe only final slices of a few signatures.",
 [A,PI],"initialize_start_block over all_args")
W="ide/src/"
p("P17","The editor greys out exactly what is not in the slice",
 "While focus mode is on and a slice is selected, exactly those points of the document are greyed out that lie in one of the containers the analysis named (the function's body and signature) and in none of the slice's ranges lying inside that container, whether the ranges are disjoint, nested, overlapping, adjacent or empty. The ranges of the slice, of the selected expression and of the direct influences are highlighted as given. Switching focus mode off removes every highlight.",
 ["inputs"],"for every container, every set of up to three slice ranges and every point of the document",
 "The extension's one test needs a browser and compares a handful of slices.",
 [W+"decorations.ts",W+"range.ts"],"invert_ranges, highlight_slice, clear_ranges")
p("P18","A selection shows the slices of exactly the expressions selected",
 "The slices shown are those of the selectable expressions lying wholly within the selection, or, if there are none, of those the selection meets without lying inside them (touching counts) plus the smallest one around the selection (fewer lines, then fewer columns). They are computed for the innermost function strictly around the selection, asking the analysis once per function; outside of all functions nothing changes. A mark takes the place of the selection until it is removed, and the select command selects exactly the slice shown.",
 ["inputs","histories"],"for every two expressions, functions and selections, nested or disjoint, and focus, mark, move, unmark and select in turn",
 "The extension's one test selects single variables in small functions and needs a browser.",
 [W+"focus.ts",W+"range.ts"],"RangeTree.search, find_slice_at_selection, get_body_state, mark")
p("P19","Whatever is highlighted was computed from the text as it is now",
 "However switching focus mode, editing, saving, selecting and finishing analyses interleave (an analysis saves the file first, if it has to), the editor never shows a slice computed from an earlier version of the text, shows nothing while focus mode is off or the text has unsaved changes, and once all analyses have finished shows a slice of the current text if and only if focus mode is on and everything is saved; the status bar then says idle if it is off, unsaved if there are changes, and active otherwise. With several documents open, only slices of a document itself are shown in it, and switching focus mode off removes the highlights of all visible ones.",
 ["histories","schedules"],"for every bounded history of events and order in which analyses finish",
 "The extension's one test performs one command at a time and waits for it.",
 [W+"focus.ts",W+"setup.ts",W+"status_bar.ts"],"FocusMode: state, callbacks, results arriving late")
p("P20","A failing analysis is reported, and nothing is shown as its result",
 "However an analysis fails (the build fails with any exit code, the process is killed or cannot start, the analysis reports an error, its answer cannot be decoded, the file is not found), only results of successful analyses are ever highlighted and the status bar shows the failure; if a command of the user's asked for it, the build's errors appear in the error pane and other errors in a dialog, with their text, and asking for the last error shows the last build's errors again. The next success removes the error pane and is shown; while something runs, the status bar says so, and what.",
 ["fault_sequences","histories"],"for every bounded history of commands, edits and outcomes of each analysis",
 "No test makes an analysis fail.",
 [W+"setup.ts",W+"errors.ts",W+"focus.ts",W+"status_bar.ts"],"exec_notify_binary, call_flowistry, handle_analysis_result, ErrorPane")
p("P21","The extension runs the matching analyser, in the project of the open file",
 "The analyser runs in the workspace folder if that is a Cargo project, and otherwise in the outermost directory between it and the open file that is one; without one the extension offers no commands. It never runs an analyser of another version: if the installed one is missing or differs, the toolchain and then the matching version are installed first, by download or else from source, and if that fails (or the user gives up when the toolchain cannot be installed) no commands are offered; nothing is installed if the versions match.",
 ["configurations","fault_sequences"],"for every placement of Cargo projects on a bounded path, every installed version, and every combination of failing installation steps",
 "The installation test needs a network and covers one working installation.",
 [W+"setup.ts",W+"extension.ts",W+"download.ts"],"findWorkspaceRoot, setup, activate")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
