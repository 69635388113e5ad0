# Sourced by demo.sh. Builds a small program against the built flowistry library and runs it.
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2025-08-20
SYS=$(rustc --print sysroot); export LD_LIBRARY_PATH=$SYS/lib
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
# driver NAME: compiles $D/NAME.rs to $W/NAME
driver() {
  local u f
  for u in target/debug/deps/librustc_utils-*.rlib; do
    for f in target/debug/deps/libfluid_let-*.rlib; do
      rustc --edition 2024 -A warnings -L dependency=target/debug/deps --extern flowistry=target/debug/libflowistry.rlib \
        --extern rustc_utils="$u" --extern fluid_let="$f" "$D/$1.rs" -o "$W/$1" 2>"$W/err" && return 0
    done
  done
  cat "$W/err" >&2; return 1
}
# slices PROGRAM: prints one line per function and variable
slices() { "$W/slice" "$D/$1" --crate-type lib --edition 2021 -A warnings --sysroot "$SYS" -o "$W/out"; }
# has VAR WHAT... / hasnt VAR WHAT...: about the slices in $W/slices
has() { local v=$1 w; shift; for w; do grep -F "$v: " "$W/slices" | grep -q " $w " || { echo "$v does not depend on $w"; exit 1; }; done; }
hasnt() { local v=$1 w; shift; grep -qF "$v: " "$W/slices" || exit 1; for w; do ! grep -F "$v: " "$W/slices" | grep -q " $w " || { echo "$v depends on $w"; exit 1; }; done; }
