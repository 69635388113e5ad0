#!/usr/bin/env python3
"""P15: Kani (CBMC) on /repo/crates/flowistry/src/extensions.rs (the plugin's own options are opts.rs in the harness).   modes.py quick|thorough | replay FILE"""
import json, os, re, signal, subprocess, sys, threading, time

V = os.environ.get("VERIF_DIR", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
CRATE = f"{V}/kani"
NEAR = {"mutability": "IgnoreMut", "context": "SigOnly", "pointer": "Precise"}
GROUPS = [["default", "active"]] + [[f"near{i}_{c}" for i in (0, 1, 2)] + [c] for c in NEAR]
env = {k: v for k, v in os.environ.items() if k not in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "LD_LIBRARY_PATH", "CARGO_TARGET_DIR")}
env["CARGO_NET_OFFLINE"] = "true"


def native(claim, data):
    """The claim about these values, on the real code, in both profiles. True if it holds."""
    held = True
    for profile in ([], ["--release"]):
        r = subprocess.run(["cargo", "run", "-q", "--offline", "--locked", "--target-dir", f"{CRATE}/target/native", *profile, "--bin", "replay", "--", claim, *map(str, data)],
                           cwd=CRATE, env=env, capture_output=True, text=True)
        if r.returncode not in (0, 1):
            print(r.stderr[-2000:], file=sys.stderr)
            sys.exit(2)
        held &= r.returncode == 0
    print(r.stdout.strip())
    return held


def main():
    if sys.argv[1] == "replay":
        f = json.load(open(sys.argv[2]))
        held = native(f["claim"], f["bytes"])
        if not held:
            print(f"VIOLATION property=P15 replay={sys.argv[2]}")
        sys.exit(0 if held else 1)
    tier = sys.argv[1]
    t0 = time.time()
    options, options_rc = {}, int(os.environ.get("OPTIONS_RC", "0"))  # the harness's half of P15, which check.sh runs first
    if os.path.exists(f"{V}/evidence/P15.json"):
        options = json.load(open(f"{V}/evidence/P15.json"))
    n = 40 if tier == "thorough" else 18
    kenv = dict(env)
    if tier == "thorough":
        kenv["RUSTFLAGS"] = "--cfg thorough"
    st = dict(steps=0, vccs=0, vccs_left=0, checks=0, covers=0, solver=0.0)
    samples, violations, bad = [], [], []
    def decide(c, mine):
        """One Kani harness."""
        near = c.startswith("near")
        claim = c[6:] if near else c
        parsing = claim in NEAR
        cmd = ["cargo", "kani", "-Z", "stubbing", "-Z", "concrete-playback", "--concrete-playback=print", "--target-dir", f"{CRATE}/target/{tier}-{claim if parsing else 'rest'}",
               "--default-unwind", str(17 if near else n + 2), "--exact", "--harness", f"proofs::{c}"]
        p = subprocess.Popen(cmd, cwd=CRATE, env=kenv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
        try:
            o, err = p.communicate(timeout=60 if near else 700 if tier == "thorough" else 300)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            bad.append(f"{c}: solver time limit")
            return
        for k, p in dict(steps=r"size of program expression: (\d+)", vccs=r"Generated (\d+) VCC", vccs_left=r"VCC\(s\), (\d+) remaining", checks=r"\*\* \d+ of (\d+) failed").items():
            st[k] += sum(int(x) for x in re.findall(p, o))
        st["solver"] += sum(float(x) for x in re.findall(r"Runtime (?:Solver|decision procedure): ([\d.e-]+)s", o))
        failed = re.search(r"\*\* (\d+) of (\d+) failed", o)
        covers = re.search(r"\*\* (\d+) of (\d+) cover", o)
        if not failed:
            bad.append(f"{c}: no verdict\n{(err + o)[-3000:]}")
            return
        if failed[1] == "0":
            if not covers or covers[1] != covers[2]:
                bad.append(f"{c}: vacuous")
            st["covers"] += int(covers[1]) if covers else 0
            samples.append(f"{c}: {failed[2]} assertions hold for every value, {covers and covers[0].strip('* ')}")
            return
        # what failed: the claim itself, a panic of the code, or the bounds?
        checks = re.split(r"\nCheck \d+: ", o)
        what = [re.search(r'Description: "(.*)"', k)[1] for k in checks if "Status: FAILURE" in k]
        tried = []
        plays = re.findall(r"/// Check for `(\w+)`.*?let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];", o, re.S)
        # (values that witness a cover and the failure as well are printed for the cover only)
        for _, play in sorted(plays, key=lambda p: p[0] == "cover") or [("", "")]:
            flat = [int(x) for v in re.findall(r"vec!\[([\d, ]*)\]", play) for x in v.split(",") if x.strip()]
            num = lambda i: int.from_bytes(bytes(flat[i:i + 8]), "little")
            if near:
                x, how, name = bytes(flat[:1]), int(c[4]), NEAR[claim].encode()
                data = list(name + x if how == 0 else x + name if how == 1 else x + name[1:])
            elif parsing:
                data = flat[:num(n)]
            else:
                data = flat
            tried.append(data)
            if not native(claim, data):
                os.makedirs(f"{V}/evidence/replay", exist_ok=True)
                path = f"{V}/evidence/replay/P15-{claim}.json"
                json.dump(dict(property="P15", kani=True, claim=claim, bytes=data, text=bytes(data).decode(errors="replace"), failed=what), open(path, "w"))
                mine.append((path, what))
                return
        bad.append(f"{c}: not reproduced with {tried}: {what}")

    def group(cs):
        mine = []
        for c in cs:
            before = len(mine)
            decide(c, mine)
            if len(mine) > before:
                violations.extend(mine)
                break  # the others would only find it again, more slowly

    ts = [threading.Thread(target=group, args=(g,)) for g in GROUPS]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    samples.sort()
    # a few values checked natively as well: the documented names, and near misses
    traces = 0
    if not bad and not violations:
        for c, data in [("mutability", b"IgnoreMut"), ("context", b"Recurse"), ("pointer", b"conservative"), ("default", b""), ("active", bytes([2, 2, 5]))]:
            if not native(c, data):
                bad.append(f"{c}: {data} fails natively although it was verified")
            traces += 1
    ev = dict(property="P15", tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking", wall_s=time.time() - t0, violations=len(violations) + options.get("violations", 0),
              assumptions=["Kani and CBMC; alloc::fmt::format is stubbed (the text of error messages is not part of the claim); in the near-miss claims str::to_lowercase and to_uppercase are replaced by what they do on ASCII",
                           "fluid-let, as locked, is executed too", "the modes are documented as parsing from their variants' names"],
              coverage=dict(states=st["steps"], transitions=st["vccs"], traces_validated_against_impl=traces, samples=samples,
                            functions_encoded=["<MutabilityMode as FromStr>::from_str", "<ContextMode as FromStr>::from_str", "<PointerMode as FromStr>::from_str", "<EvalMode as Default>::default", "is_extension_active", "EVAL_MODE"],
                            bounds=f"strings: every well-formed UTF-8 string of up to {n} bytes (the longest name has 14); options: every predicate on the 8 modes; mode unset, set to any mode, set to any other inside",
                            what_is_counted="states: steps of the symbolic execution; transitions: verification conditions generated", vccs_after_simplification=st["vccs_left"],
                            assertions=st["checks"], reachability_witnesses=st["covers"], solver_s=st["solver"], unwinding_assertions=True, options=options.get("coverage")))
    os.makedirs(f"{V}/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/P15.json", "w"), indent=1)
    for path, what in violations:
        print(f"VIOLATION property=P15 replay={path}")
        print("  " + json.load(open(path))["text"], what)
    print(f"P15 {tier}: {st['steps']} steps, {st['checks']} assertions, {len(violations)} violations, {len(bad)} unfinished, {time.time() - t0:.1f}s")
    for b in bad:
        print(b, file=sys.stderr)
    sys.exit(1 if violations or options_rc == 1 else 2 if bad or options_rc else 0)


main()
