#!/bin/bash
# tools/determinism.sh [RUNS] [SEED]: every property's simulated runs are made
# twice, with different numbers of worker processes, and the hashes of their
# histories compared run by run; then each run's recorded schedule and faults
# are written out as an explicit trace and replayed, and the two histories
# compared (sim fidelity prints a line for every run that differs).
cd "$(dirname "$0")/.." || exit 2
runs=${1:-400} seed=${2:-1} bad=0
sim=$(python3 -c "import check; print([x for x in check.build('sim') if x][0] + '/sim')") || exit 2
t=$(mktemp -d /tmp/det.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/b.d"; cp -r "$(dirname "$sim")/." "$t/b.d/"; sim=$t/b.d/sim
for p in 01 02 03 04 05 06 07 09 10 11 12 13 14 15 16; do
  "$sim" hashes --prop S$p --seed "$seed" --runs "$runs" --workers 1 > "$t/a" 2>/dev/null
  "$sim" hashes --prop S$p --seed "$seed" --runs "$runs" --workers 7 > "$t/b" 2>/dev/null
  sort "$t/a" > "$t/c"; sort "$t/b" > "$t/d"
  if cmp -s "$t/c" "$t/d" && [ -s "$t/c" ]; then echo "S$p $(wc -l < "$t/c") histories equal"
  else echo "S$p DIFFERS"; diff "$t/c" "$t/d" | head -4; bad=1; fi
  "$sim" fidelity --prop S$p --seed "$seed" --runs "$((runs / 2))" --workers 7 2>&1 | grep '^run' | grep -v 'trace cut' > "$t/f"
  if [ -s "$t/f" ]; then echo "S$p $(wc -l < "$t/f") explicit replays differ"; head -3 "$t/f"; bad=1; fi
done
exit $bad
