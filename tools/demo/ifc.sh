#!/bin/bash
# Sourced: ifc PROG prints whether the built checker reports an issue for the crate
D=$(cd "$(dirname "$0")" && pwd)
. "$D/lib.sh"
R=$PWD
(cd "$W" && rustc "$R/crates/flowistry_ifc_traits/src/lib.rs" --edition 2021 --crate-type lib --crate-name flowistry_ifc_traits -A warnings) || exit 1
ifc() {
  (cd "$W" && CARGO_PRIMARY_PACKAGE=1 PLUGIN_ARGS=null CARGO_CRATE_NAME=x SYSROOT=$SYS "$R/target/debug/ifc-driver" rustc "$D/$1" --edition 2021 --crate-type lib -A warnings --sysroot "$SYS" \
     --extern flowistry_ifc_traits=libflowistry_ifc_traits.rlib -o out.rlib >out.txt 2>&1)
  cat "$W/out.txt" >&2
  if grep -q "insecure flow" "$W/out.txt"; then echo issue; elif grep -qiE "^error|panicked" "$W/out.txt"; then echo broken; else echo none; fi
}
. "$D/expect.sh"
exit 0
