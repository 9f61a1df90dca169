#!/bin/bash
# One seed is one execution: digests of the first runs of every property under different workers and hash seeds.
cd "$(dirname "$0")/.." || exit 2
n=${1:-60}; shift
bad=0; t=$(mktemp -d)
for p in ${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18}; do
  PYTHONHASHSEED=1 ./check.sh "$p" --runs "$n" --jobs 8 --digests "$t/a" >/dev/null || bad=1
  PYTHONHASHSEED=77 ./check.sh "$p" --runs "$n" --jobs 3 --digests "$t/b" >/dev/null || bad=1
  if cmp -s "$t/a" "$t/b" && [ -s "$t/a" ]; then echo "$p same ($(wc -c <"$t/a") bytes)"; else echo "$p DIFFERS"; bad=1; fi
done
rm -r "$t"
exit $bad
