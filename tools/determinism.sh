#!/bin/bash
# The same seeds, twice and with another number of worker processes: the digest over everything observed must not move.
# usage: tools/determinism.sh [RUNS] [ID...]    (needs ./check.sh build first)
here=$(cd "$(dirname "$0")/.." && pwd); runs=${1:-1500}; shift
ids=${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19}
tmp=$(mktemp -d); bad=0
for c in $ids; do
  set --
  for w in 3 8 8; do
    set -- "$@" "$(FQSIM_ROOT=$tmp FQSIM_RUNS=$runs FQSIM_WORKERS=$w VERIF_SEED=${VERIF_SEED:-1} "$here/target/release/fqsim" run $c quick | grep -o 'digest [0-9a-f]*$')"
  done
  if [ -n "$1" ] && [ "$1" = "$2" ] && [ "$2" = "$3" ]; then echo "$c same: $1"; else echo "$c DIFFERS: $1 / $2 / $3"; bad=1; fi
done
rm -r "$tmp"
exit $bad
