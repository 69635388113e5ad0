#!/bin/bash
# refresh the shared demo files of every planted bug that uses them
for d in /verif/seeded/*/; do for f in slice.rs lib.sh; do [ -f $d/$f ] && cp /verif/tools/demo/$f $d/; done; done
