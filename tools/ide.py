#!/usr/bin/env python3-vt
"""P17-P21: concolic execution of the editor extension (/repo/ide/src) with Z3.   ide.py P.. quick|thorough | replay FILE"""
import json, multiprocessing, os, re, sys, time
V = os.environ.get("VERIF_DIR", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HERE = f"{V}/ide"
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import dse

# scenarios of the quick check; those the thorough one adds, with a time limit
WHAT = {
    "P17": (["grey2", "grey2x2", "grey3"], [("grey3x2", 900), ("grey4", 3000)],
            "every document of 3 lines of up to 200 columns; every 1 function container and up to 3 slice ranges, and every 2 containers and 2 ranges, at arbitrary positions, overlapping or not; one seed and one direct influence; every point of the document",
            ["highlight_slice", "invert_ranges", "highlight_ranges", "clear_ranges", "range_to_interval", "interval_to_range", "to_vsc_range"]),
    "P18": (["select1", "select2", "mark1", "bodies1", "bodies2"], [("select3", 3000), ("mark2", 2000), ("bodies2x3", 1500), ("bodies3", 2000)],
            "every document of 3 lines of up to 200 columns; every 2 nested or disjoint expressions and every selection; 1 expression through focus, mark, moving the selection, unmark, select; every 2 nested or disjoint functions and every 2 selections in turn",
            ["RangeTree", "RangeTree.search", "FocusBodyState.{load,find_slice_at_selection,render}", "FocusDocumentState.{load,get_body_state,on_change_selection,set_mark,unset_mark,select}"]),
    "P19": (["history3", "history4", "history5", "documents4", "documents5"], [("history6", 2500), ("documents6", 2500)],
            "every history of up to 5 of: focus switched on or off, the text edited, saved, the selection moved, the oldest or the newest running analysis finishing; all that is left finishing at the end; every selection and document; every history of up to 5 such events, or switching to the other document, over two visible documents",
            ["FocusMode.{focus,update_slice,get_doc_state,handle_analysis_result}", "the edit, save and selection listeners", "setup: the analysis call, which saves first", "StatusBar"]),
    "P20": (["failures2", "failures3"], [("failures4", 2500)],
            "every history of up to 3 of: focus switched on or off, marked, selection moved, edited and saved, last error asked for; each analysis succeeding, failing with any exit code, killed, unable to start, reporting an error, undecodable, or not finding the file",
            ["exec_notify_binary", "setup: the analysis call and the decoding of its answer", "FocusMode", "ErrorPane", "show_error", "hide_error", "last_error", "StatusBar"]),
    "P21": (["activation1", "activation3"], [("activation4", 600), ("activation5", 900)],
            "every placement of Cargo.toml files on a path up to 3 directories deep, with and without folder and open file; installed version right, other or missing; every combination of failing installation steps and answers",
            ["activate", "setup", "findWorkspaceRoot", "exec_notify", "download", "cargo_command", "StatusBar"]),
}

def known(prop):
    out = {}
    for l in open(f"{V}/known_findings.txt"):
        m = re.match(rf"known: property={prop} key=(\S+) (.*)", l)
        if m: out[m[1]] = m[2]
    return out

def main():
    if sys.argv[1] == "replay":
        f = json.load(open(sys.argv[2]))
        e = dse.Explorer(dse.Node(HERE), f["scenario"], 0)
        wrong = e.confirm(f["claim"], f["inputs"])
        print(f"{f['scenario']}: {f['claim']}: {'does not hold' if wrong else 'holds'}")
        if wrong: print(f"VIOLATION property={f['property']} replay={sys.argv[2]}")
        sys.exit(1 if wrong else 0)
    prop, tier = sys.argv[1], sys.argv[2]
    quick, more, bounds, functions = WHAT[prop]
    t0 = time.time()
    listed = known(prop)
    total = {k: 0 for k in dse.COUNTS}
    samples, violations, bad, unfinished = [], [], [], []
    replays = branches = findings = 0
    with multiprocessing.Pool(os.cpu_count() or 8) as pool:
        for name, limit in [(q, 400) for q in quick] + (more if tier == "thorough" else []):
            t1 = time.time()
            try:
                e = dse.decide(HERE, name, 10**9, min(limit, max(5, 840 - (time.time() - t0))) if tier == "quick" else limit, pool)
            except RuntimeError as x:
                bad.append(f"{name}: {x}")
                continue
            for k in dse.COUNTS: total[k] += getattr(e, k)
            samples.append(f"{name}: {e.paths} paths, {e.obligations} obligations, {e.queries} queries, {time.time() - t1:.1f} s" + ("" if e.complete else ", not finished"))
            if not e.complete: unfinished.append(name)
            if not e.paths or (not e.obligations and not e.found): bad.append(f"{name}: vacuous")
            # some paths run once more, not instrumented and on plain numbers
            for inputs, asserts in e.validate[:20]:
                r = e.node.run(name, inputs, True)
                replays += 1
                if r.get("abandoned") or [a[0] for a in r["asserts"]] != asserts:
                    bad.append(f"{name}: the instrumented run of {inputs} is not the plain one")
                    break
            for claim, inputs, _ in e.found:
                wrong = e.confirm(claim, inputs)
                replays += 1
                if not wrong:
                    bad.append(f"{name}: {claim}: not reproduced with {inputs}")
                    continue
                key = f"{prop}:{re.sub(r'[^a-z0-9]+', '-', f'{name}:{claim}'.lower())}"
                if key in listed:
                    findings += 1
                    print(f"KNOWN-FINDING: property={prop} {listed[key]}")
                    continue
                os.makedirs(f"{V}/evidence/replay", exist_ok=True)
                path = f"{V}/evidence/replay/{key.replace(':', '-')}.json"
                json.dump(dict(property=prop, ide=True, scenario=name, claim=claim, inputs=inputs, error=wrong if claim == "error" else None), open(path, "w"), indent=1)
                violations.append((path, name, claim))
            e.node.p.kill()
            if violations: break
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking", wall_s=time.time() - t0, violations=len(violations),
              assumptions=["numbers (positions, lengths, exit codes) and choices (events, outcomes) are symbolic; the extension's TypeScript is instrumented so that every comparison on them is a recorded branch, and every feasible branch is taken",
                           "stand-ins: the editor's API (positions, offsets, decorations, events, commands), the interval tree (documented behaviour), processes and downloads; trusted: Node, the TypeScript compiler, Z3",
                           "lodash is executed and instrumented as well"],
              coverage=dict(states=total["paths"], transitions=total["queries"], traces_validated_against_impl=replays, samples=samples, functions_encoded=functions, bounds=bounds,
                            what_is_counted="states: paths; transitions: solver queries (one per branch and per path's obligations)",
                            obligations=total["obligations"], paths_outside_the_assumptions=total["abandoned"], solver_s=total["solver_s"],
                            exhaustive=not unfinished, units_not_finished_names=unfinished, known_findings=findings))
    os.makedirs(f"{V}/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    for path, name, claim in violations:
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {name}: {claim}")
    print(f"{prop} {tier}: {total['paths']} paths, {total['obligations']} obligations, {total['queries']} queries, {len(violations)} violations, {len(unfinished)} unfinished, {time.time() - t0:.1f}s")
    for b in bad: print(b, file=sys.stderr)
    sys.exit(1 if violations else 3 if bad else 0)

main()
