#!/bin/bash
# bug.sh ID PROP "NEEDS" "BREAKS": diff in wt -> seeded in v2; run check in v3; demo from replay
id=$1; p=$2
cd /tmp/s/wt2 || exit 1
git diff > /tmp/w/cur.diff; [ -s /tmp/w/cur.diff ] || { echo EMPTY; exit 1; }
mkdir -p /tmp/w/v2/seeded/$id; cp /tmp/w/cur.diff /tmp/w/v2/seeded/$id/patch.diff
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open('/tmp/w/v2/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
cd /tmp/w/v3; rsync -a --delete --exclude build --exclude evidence --exclude replay --exclude .git /tmp/w/v2/ /tmp/w/v3/ 2>/dev/null || cp -a /tmp/w/v2/vlib /tmp/w/v2/harness /tmp/w/v2/run.py .
rm -f replay/$p-*
VERIF_SHRINK=${SHRINK:-40} VERIF_REPO=/tmp/s/wt2 timeout 880 python3-vt run.py $p quick > /tmp/w/bug-$id.log 2>&1; r=$?
echo "== $id rc=$r"; tail -4 /tmp/w/bug-$id.log | cut -c1-400
if [ $r = 1 ]; then
  f=$(grep -o "replay=.*" /tmp/w/bug-$id.log | tail -1 | cut -d= -f2)
  if [ -z "$NODEMO" ]; then SHOW=200 python3 /tmp/w/v2/tools/mkdemo.py $id --replay $f ${ARGS:+--args="$ARGS"}; fi
  # demo against the buggy binary
  d=/tmp/w/v2/seeded/$id
  [ -f $d/demo.py ] && { sed 's#^BIN = .*#BIN = "/tmp/w/v3/build/rel/bin/scram"#' $d/demo.py > /tmp/w/demo_bug.py; rm -f /tmp/w/dd/*; cp $d/* /tmp/w/dd/; cp /tmp/w/demo_bug.py /tmp/w/dd/demo.py; python3 /tmp/w/dd/demo.py check | cut -c1-300; echo "demo on bug: ${PIPESTATUS[0]}"; }
fi
git -C /tmp/s/wt2 checkout -q -- .
