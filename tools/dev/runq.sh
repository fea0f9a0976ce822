#!/bin/bash
# runs queued bugs one after another
cd /tmp/w/q
while true; do
  f=$(ls -tr /tmp/w/q/*.json 2>/dev/null | head -1)
  [ -z "$f" ] && { [ -e /tmp/w/q/stop ] && exit; sleep 5; continue; }
  id=$(basename $f .json)
  git -C /tmp/s/wt2 checkout -q -- .; git -C /tmp/s/wt2 apply /tmp/w/q/$id.diff
  python3 - $f <<'P' >> /tmp/w/runq.log 2>&1
import json,sys,subprocess,os
a=json.load(open(sys.argv[1]))
e=dict(os.environ)
if a[4]: e["ARGS"]=a[4]
subprocess.run(["bash","/tmp/w/bug2.sh"]+a[:4],env=e)
P
  mkdir -p /tmp/w/q/done; mv /tmp/w/q/$id.json /tmp/w/q/$id.diff /tmp/w/q/done/
done
