#!/bin/bash
# rec.sh <PROP>: record every "fix:" commit of /repo that known-findings.txt does not list yet
cd "$(dirname "$0")/.." || exit 2
git -C /repo log --reverse --format='%h %s' | grep -E '^[0-9a-f]+ fix: ' | while read -r h s; do
  grep -q "$h" known-findings.txt || echo "fixed: property=$1 $h ${s#fix: }" >> known-findings.txt
done
