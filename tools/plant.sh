#!/bin/bash
# plant.sh ID PROP: /repo's working tree holds the planted edit; save it, verify demo + stable tests + check, and undo.
# The demo (demo.sh and files) must already be in seeded/ID.
ID=$1; PROP=$2
D=/verif/seeded/$ID
mkdir -p $D
git -C /repo diff > /tmp/p.diff
if [ ! -s /tmp/p.diff ]; then git -C /repo apply $D/patch.diff || exit 1; cp $D/patch.diff /tmp/p.diff; fi
cp /tmp/p.diff $D/patch.diff
rm -rf /tmp/demo.$ID; cp -a $D /tmp/demo.$ID; rm -f /tmp/demo.$ID/*.diff /tmp/demo.$ID/meta.json
if grep -qE '\.(cpp|h|pyx|pxd)' /tmp/p.diff; then bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD FAILED; fi
(cd /repo && timeout 300 bash /tmp/demo.$ID/demo.sh > /tmp/demo.out 2>&1); echo "demo with patch: $? (want nonzero)"; tail -2 /tmp/demo.out
echo "missing stable tests: $(stabletest 2>/dev/null | tail -3)"
for p in $PROP; do (cd /verif && python3 check.py $p | grep -E 'VIOLATION|obligations' | cut -c1-300); done
git -C /repo checkout -- .
if grep -qE '\.(cpp|h|pyx|pxd)' /tmp/p.diff; then bash /opt/vp/build.sh >/dev/null 2>&1; fi
(cd /repo && timeout 300 bash /tmp/demo.$ID/demo.sh > /tmp/demo.out 2>&1); echo "demo without: $? (want 0)"; tail -1 /tmp/demo.out
rm -rf /tmp/demo.$ID
git -C /repo status --short
