#!/bin/bash
# Development aid: every behaviour-keeping edit in tools/refactor must leave the claimed checks quiet.
# usage: refactors.sh [-t] [NAME...]   (ID=.. restricts the checks)
cd "$(dirname "$0")/refactor" || exit 2
T=; [ "$1" = -t ] && { T=-t; shift; }
ids=${ID:-$(paste -sd, ../claimed.txt)}
[ $# = 0 ] && set -- $(ls *.txt | sed 's/.txt$//')
for n; do
  ( o=$(python3 ../mut.py $T "$ids" x < $n.txt 2>&1); if echo "$o" | grep -q '^exit 0'; then echo "quiet $n"; else echo "ALARM $n"; echo "$o" | grep -e '^  \[' -e VIOL -e PATTERN -e BUILD -e TEST -e error | cut -c1-300 | head -12; fi; echo "$o" | grep TEST ) &
  while [ $(jobs -r | wc -l) -ge 4 ]; do sleep 0.2; done
done; wait
