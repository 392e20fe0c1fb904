#!/bin/bash
# plant.sh ID [CHECK...] : validates a planted bug in /repo's working tree and runs the checks against it.
B=/verif/seeded/$1; shift
cd /repo && [ -z "$(git status --porcelain)" ] || { echo dirty; exit 2; }
bash /opt/vp/build.sh >/tmp/w/pb.log 2>&1 || echo BUILD-BASE-FAILED
bash $B/demo.sh >/tmp/w/demo0.log 2>&1; echo "demo unchanged: $?"
trap 'git -C /repo checkout -- .' EXIT
git apply $B/patch.diff || { echo NOAPPLY; exit 2; }
bash /opt/vp/build.sh >/tmp/w/pb.log 2>&1 || { echo BUILD-FAILED; tail -20 /tmp/w/pb.log; exit 2; }
bash $B/demo.sh >/tmp/w/demo1.log 2>&1; echo "demo patched: $?"; tail -3 /tmp/w/demo1.log
bash /opt/vp/test.sh /tmp/w/t.json >/tmp/w/pt.log 2>&1; python3 /tmp/w/cmp.py
for c in "$@"; do (cd /verif && time ./check.sh $c >/tmp/w/pc.log 2>&1; echo "check $c: $?"; grep -a VIOLATION /tmp/w/pc.log | head -3); done
