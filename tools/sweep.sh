#!/bin/bash
# Runs every check for a while: sweep.sh SECONDS [SEED] [PROPS...]
cd "$(dirname "$0")/.."
B=$1; S=${2:-1}; shift; shift
P=${*:-$(seq -f C%02g 1 27)}
for p in $P; do
  timeout 600 ${VERIF_BUILD:-.build}/metisim check -prop $p -budget ${B}s -seed $S > /tmp/sweep.$p.log 2>&1; rc=$?
  echo "== $p rc=$rc $(tail -1 /tmp/sweep.$p.log | cut -c1-150)"
  [ $rc = 0 ] || grep -v '^C[0-9]' /tmp/sweep.$p.log | cut -c1-700 | tail -8
done
