#!/bin/bash
# determinism.sh [RUNS [SEED]]: the same seeds in two processes (with different
# address space layouts, environments, working directories and descriptor tables)
# must give the same executions.  Prints the first difference, if any.
n=${1:-300}; base=${2:-1}
cd /verif && ./check build || exit 2
bin=/verif/.build/release/harness
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/a" "$tmp/b"
rc=0; total=0
for sp in $(grep -oE '\("[a-z]+", "[a-z]+"' /verif/sim/harness/src/plan.rs | tr -d '(", ' | sort -u | sed -E 's/^(duo|raw|hub|typed|paths|soak|wire)/\1:/'); do
	s=${sp%%:*}; p=${sp##*:}
	(cd / && SIM_SCRATCH="$tmp/a" "$bin" hashes "$s" "$p" "$n" "$base" > "$tmp/a.out" 2>/dev/null) &
	(cd "$tmp" && exec 7</dev/null 8</dev/null && SOME_VARIABLE=$(head -c 3000 /dev/zero | tr '\0' x) SIM_SCRATCH="$tmp/b" "$bin" hashes "$s" "$p" "$n" "$base" > "$tmp/b.out" 2>/dev/null) &
	wait
	total=$((total + $(wc -l < "$tmp/a.out")))
	if ! cmp -s "$tmp/a.out" "$tmp/b.out"; then
		echo "$s $p: DIFFERENT ($(diff "$tmp/a.out" "$tmp/b.out" | grep -c '^<') of $n)"; diff "$tmp/a.out" "$tmp/b.out" | head -3
		rc=1
	fi
done
echo "$total runs compared"
exit $rc
