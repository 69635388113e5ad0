#!/usr/bin/env python3
"""focus.py PROG LINE COL OPTIONS: runs the built analysis' focus command on PROG, prints per selectable expression its slice and direct influence.
OPTIONS is JSON overriding the command's mode options; LINE and COL (from 0) select the function."""
import base64, gzip, json, os, subprocess, sys
prog, line, col, opts = os.path.abspath(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), json.loads(sys.argv[4])
args = dict(bench=None, context_mode=None, mutability_mode=None, pointer_mode=None, command={"Focus": dict(file=prog, pos_line=line, pos_column=col)})
args.update(opts)
sysroot = subprocess.run(["rustc", "--print", "sysroot"], capture_output=True, text=True).stdout.strip()
env = dict(os.environ, CARGO_PRIMARY_PACKAGE="1", PLUGIN_ARGS=json.dumps(args), SYSROOT=sysroot, CARGO_CRATE_NAME="prog")
r = subprocess.run([os.path.abspath("target/debug/flowistry-driver"), "rustc", prog, "--edition", "2021", "--crate-type", "lib", "--sysroot", sysroot, "-o", os.environ["W"] + "/out.rlib"],
                   env=env, capture_output=True, text=True)
try:
    out = json.loads(gzip.decompress(base64.b64decode(r.stdout)))["Ok"]
except Exception as e:
    sys.exit(f"no result: {e}\n{r.stdout[:300]}\n{r.stderr[-2000:]}")
text = open(prog).read().split("\n")
def at(rs):
    return " ".join(sorted({f"{r['start']['line'] + 1}:{r['start']['column']}-{r['end']['line'] + 1}:{r['end']['column']}" for r in rs}))
def snip(r):
    if r["start"]["line"] == r["end"]["line"]:
        return text[r["start"]["line"]][r["start"]["column"]:r["end"]["column"]]
    return "..."
def items(rs):
    return " | ".join(sorted({f"{r['start']['line'] + 1}:{snip(r)}" for r in rs}))
for p in out["place_info"]:
    print(f"{items([p['range']])} SLICE | {items(p['slice'])} | DIRECT | {items(p['direct_influence'])} | END")
print("CONTAINERS", at(out["containers"]))
