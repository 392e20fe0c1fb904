#!/bin/bash
# try.sh BUG CHECK... : runs checks with a planted bug applied to /repo.
B=/verif/seeded/$1; shift
cd /repo && [ -z "$(git status --porcelain)" ] || { echo dirty; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
git apply $B/patch.diff || exit 2
for c in "$@"; do (cd /verif && S=$(date +%s); ./check.sh $c >/tmp/w/pc.log 2>&1; echo "$B check $c: $? ($(($(date +%s)-S)) s)"; grep -a VIOLATION -A1 /tmp/w/pc.log | cut -c1-300 | head -4); done
