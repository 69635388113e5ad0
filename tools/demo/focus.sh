#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
. "$D/lib.sh"
export W
focus() { python3 "$D/focus.py" "$D/$1" "$2" "$3" "${4:-{\}}" > "$W/focus"; [ -s "$W/focus" ] || { echo "no result"; exit 1; }; }
. "$D/expect.sh"
exit 0
