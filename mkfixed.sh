#!/bin/bash
# appends "fixed:" lines to known_findings.txt:  mkfixed.sh P13 <hash>...
p=$1; shift
for h in "$@"; do
  full=$(git -C /repo rev-parse $h)
  grep -q $full known_findings.txt || echo "fixed: property=$p $full $(git -C /repo log -1 --format=%s $h | sed 's/^fix: //')" >> known_findings.txt
done
