#!/bin/bash
# fixed.sh PROP: log the newest fix: commit of /repo in known-findings.txt (development helper)
cd "$(dirname "$0")/.."
git -C /repo log --format='%h %s' ca00fb7..HEAD | grep ' fix: ' | while read -r h m; do
  grep -q " $h " known-findings.txt || echo "fixed: property=$1 $h ${m#fix: }" >> known-findings.txt
done
