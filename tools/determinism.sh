#!/bin/bash
# determinism.sh N [PROPS]: digests of N runs with 1 worker, 8 workers and another hash seed
cd "$(dirname "$0")/.." || exit 2
n=${1:-40}; shift
for p in ${*:-$(ls dst/props | sed -n 's/^p\([0-9]*\).py$/P\1/p')}; do
  a=$(./check digest $p $n 1 2>/dev/null | md5sum); b=$(./check digest $p $n 8 2>/dev/null | md5sum)
  c=$(PYTHONHASHSEED=77 ./check digest $p $n 5 2>/dev/null | md5sum)
  [ "$a" == "$b" ] && [ "$a" == "$c" ] && echo "$p identical" || echo "$p DIFFERS"
done
