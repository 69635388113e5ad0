#!/bin/bash
# check.sh <PID> quick|thorough   decide a property
# check.sh replay <file>          re-run one counterexample on the real code, without the solver
# check.sh setup                  build the harness
set -u
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR="$V" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly-2025-08-20
export CARGO_TARGET_DIR="$V/harness/target"
export RUSTFLAGS="--cfg vp_hooks"
export LD_LIBRARY_PATH="$(rustc --print sysroot)/lib:${LD_LIBRARY_PATH:-}"
unset RUST_LOG DUMP_MIR
log="$(mktemp)"
trap 'rm -f "$log"' EXIT
file="$(realpath -m -- "${2:-.}")"
if [[ "$1" =~ ^P(17|18|19|20|21)$ ]]; then
  exec python3-vt "$V/tools/ide.py" "$1" "${2:-quick}"
elif [ "$1" = replay ] && grep -q '"ide"' "$file"; then
  exec python3-vt "$V/tools/ide.py" replay "$file"
elif [ "$1" = replay ] && grep -q '"kani"' "$file"; then
  exec python3 "$V/tools/modes.py" replay "$file"
fi
cd "$V/harness"
# The harness links the flowistry crates of /repo's working tree. If the sources do not compile against
# deferred change flags (`IndexSet::insert` & co. returning a term), eager booleans are used instead.
if ! cargo build --offline --locked >"$log" 2>&1; then
  if ! cargo build --offline --locked --features eager >"$log" 2>&1; then
    tail -40 "$log" >&2
    echo "harness does not build against /repo" >&2
    exit 2
  fi
fi
case "$1" in
  setup) echo "harness built"; exit 0 ;;
  replay) exec target/debug/vp-harness replay "$file" ;;
  P15)
    # what each mode is called and when it is on: Kani; what the plugin makes of its options: the harness
    rm -f "$V/evidence/P15.json"
    target/debug/vp-harness run P15 "${2:-quick}"
    OPTIONS_RC=$? exec python3 "$V/tools/modes.py" "${2:-quick}" ;;
  *) exec target/debug/vp-harness run "$1" "${2:-quick}" ;;
esac
