#!/bin/bash
# catch.sh BUG...: runs the quick check of each planted bug's property (or PROP=P..) against a
# scratch copy and notes the outcome in tools/caught.txt
for b in "$@"; do
  d=/tmp/bugs/$b
  rm -rf "/tmp/bugs/$b"; cp -a /repo "$d"; git -C "$d" apply "/verif/seeded/$b/patch.diff" || { echo "$b does not apply"; continue; }
  p=${PROP:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")}
  s=$(date +%s)
  out=$(cd /verif && DST_REPO=$d ./check $p quick 2>&1); rc=$?
  rm -rf "/tmp/bugs/$b"
  kind=$(echo "$out" | grep "^$p: " | head -1 | cut -d: -f2 | tr -d ' ')
  touch /verif/tools/caught.txt
  grep -v "^$b $p " /verif/tools/caught.txt > /tmp/caught.new; echo "$b $p $rc $kind" >> /tmp/caught.new; sort /tmp/caught.new > /verif/tools/caught.txt
  echo "$b $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -v VIOLATION | head -1 | cut -c1-200)"
done
