#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
. "$D/lib.sh"
driver slice || exit 1
slices prog.rs > "$W/slices" || exit 1
. "$D/expect.sh"
exit 0
