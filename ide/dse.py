#!/usr/bin/env python3
"""Concolic execution of the editor extension: every path of every scenario, each decided by Z3."""
import json, subprocess, sys, time, z3

class Node:
    def __init__(self, here):
        self.p = subprocess.Popen(["node", f"{here}/worker.js"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, cwd=here)
    def run(self, scenario, inputs, concrete=False):
        self.p.stdin.write(json.dumps(dict(scenario=scenario, inputs=inputs, concrete=concrete)) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("the worker died")
        return json.loads(line)

class Explorer:
    def __init__(self, node, scenario, limit):
        self.node, self.scenario, self.limit = node, scenario, limit
        self.vars, self.memo = {}, {}
        self.paths = self.abandoned = self.queries = self.obligations = 0
        self.solver_s = 0.0
        self.found = []       # (name, inputs)
        self.errors = []
        self.validate = []    # (inputs, names of what was checked)
        self.complete = True
        self.s = z3.Solver()
        self.s.set("timeout", 20000)

    def t(self, x):
        if isinstance(x, bool): return z3.BoolVal(x)
        if isinstance(x, int): return z3.IntVal(x)
        if isinstance(x, str): return self.vars[x]
        key = json.dumps(x)
        r = self.memo.get(key)
        if r is not None: return r
        o, a = x[0], [self.t(y) for y in x[1:]]
        r = {"+": lambda: a[0] + a[1], "-": lambda: a[0] - a[1], "*": lambda: a[0] * a[1], "<": lambda: a[0] < a[1], "<=": lambda: a[0] <= a[1],
             ">": lambda: a[0] > a[1], ">=": lambda: a[0] >= a[1], "=": lambda: a[0] == a[1], "iff": lambda: a[0] == a[1],
             "ite": lambda: z3.If(a[0], a[1], a[2]), "and": lambda: z3.And(*a), "or": lambda: z3.Or(*a), "not": lambda: z3.Not(a[0])}[o]()
        self.memo[key] = r
        return r

    def solve(self, extra):
        self.queries += 1
        t0 = time.time()
        self.s.push()
        self.s.add(extra)
        r = self.s.check()
        m = {n: self.s.model().eval(v, True).as_long() for n, v in self.vars.items()} if r == z3.sat else None
        self.s.pop()
        self.solver_s += time.time() - t0
        if r == z3.unknown:
            self.complete = False
            self.errors.append("solver limit")
        return m

    def explore(self, deadline, todo, stop_at=None):
        bad = set()
        while todo:
            if stop_at and len(todo) >= stop_at: return
            if self.paths + self.abandoned >= self.limit or time.time() > deadline:
                self.complete = False
                return
            inputs, fixed = todo.pop(0) if stop_at else todo.pop()
            r = self.node.run(self.scenario, inputs)
            for n, (lo, hi) in r["vars"].items():
                if n not in self.vars:
                    self.vars[n] = z3.Int(n)
                    self.s.add(lo <= self.vars[n], self.vars[n] <= hi)
            path = r["path"]
            conds = [self.t(c) if taken else z3.Not(self.t(c)) for c, taken in path]
            # the same run again: is every input of the prefix respected?
            base = self.s
            base.push()
            for i, c in enumerate(conds):
                if i >= fixed:
                    m = self.solve(z3.Not(c))
                    if m is not None: todo.append((m, i + 1))
                base.add(c)
            if r.get("abandoned"):
                self.abandoned += 1
            elif r.get("error"):
                self.paths += 1
                m = self.solve(z3.BoolVal(True))
                if "error" not in bad:
                    bad.add("error")
                    self.found.append(("error", m or inputs, r["error"]))
            else:
                self.paths += 1
                self.obligations += len(r["asserts"])
                if len(self.validate) < 40: self.validate.append((inputs, [a[0] for a in r["asserts"]]))
                left = [a for a in r["asserts"] if a[0] not in bad]
                # all of them at once, and each only if one fails
                if not left or self.solve(z3.Or(*[z3.Not(self.t(a[1])) for a in left])) is None: left = []
                for name, term, n, c in left:
                    m = self.solve(z3.Not(self.t(term)))
                    if m is not None:
                        bad.add(name)
                        self.found.append((name, m, None))
            base.pop()

    def confirm(self, name, inputs):
        """Does the extension's own code, not instrumented and on plain numbers, fail as well?"""
        r = self.node.run(self.scenario, inputs, True)
        if name == "error": return r.get("error")
        return any(n == name and not c for n, _, _, c in r["asserts"]) and "wrong"

COUNTS = ("paths", "abandoned", "queries", "obligations", "solver_s")

def part(args):
    here, scenario, limit, deadline, todo = args
    e = Explorer(Node(here), scenario, limit)
    e.explore(deadline, todo)
    e.node.p.kill()
    return {k: getattr(e, k) for k in COUNTS}, e.found, e.errors, e.complete

def decide(here, scenario, limit, seconds, pool):
    """Every path of the scenario, on all cores."""
    deadline = time.time() + seconds
    e = Explorer(Node(here), scenario, limit)
    todo = [({}, 0)]
    e.explore(deadline, todo, stop_at=64)
    if todo and e.complete:
        # (the longer the prefix, the less is left to explore)
        parts = [todo[i::32] for i in range(32)]
        for counts, found, errors, complete in pool.imap_unordered(part, [(here, scenario, limit, deadline, p) for p in parts if p]):
            for k in COUNTS: setattr(e, k, getattr(e, k) + counts[k])
            e.found += found
            e.errors += errors
            e.complete &= complete
    seen, first = set(), []
    for f in e.found:
        if f[0] not in seen:
            seen.add(f[0])
            first.append(f)
    e.found = first
    return e

if __name__ == "__main__":
    import os, multiprocessing
    here = os.path.dirname(os.path.abspath(__file__))
    with multiprocessing.Pool(8) as pool:
        for sc in sys.argv[1:]:
            t0 = time.time()
            e = decide(here, sc, 100000, 600, pool)
            print(sc, "paths", e.paths, "abandoned", e.abandoned, "queries", e.queries, "obligations", e.obligations, "solver %.1f" % e.solver_s, "total %.1f" % (time.time() - t0), "complete", e.complete, e.errors[:2])
            for name, inputs, err in e.found:
                print("  ", name, e.confirm(name, inputs), inputs, err)
