#!/bin/sh
# tools/sweep.sh "<seeds>" [checks...]: run the quick checks over several seeds, print only what is not quiet
cd "$(dirname "$0")/.." || exit 2
seeds=$1; shift
[ $# -gt 0 ] || set -- $(ls sim/checks/c*.py | sed 's/.*\/c\([0-9]*\)\.py/C\1/')
for c in "$@"; do for s in $seeds; do
  o=$(VERIF_SEED=$s timeout 900 bin/check $c 2>&1); r=$?
  [ $r = 0 ] && [ $(echo "$o" | grep -c VIOLATION) = 0 ] || { echo "== $c seed $s exit $r"; echo "$o" | tail -4 | cut -c1-600; }
done; done; echo "sweep done: $* seeds $seeds"
