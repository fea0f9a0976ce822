#!/bin/bash
# save.sh ID PROP NEEDS BREAKS: queue the diff of wt
cd /tmp/s/wt; git diff > /tmp/w/q/$1.diff; [ -s /tmp/w/q/$1.diff ] || { echo EMPTY; exit 1; }
python3 - "$@" <<'P'
import json,sys,os
json.dump(sys.argv[1:5]+[os.environ.get("ARGS","")],open('/tmp/w/q/%s.json'%sys.argv[1],'w'))
P
git checkout -q -- .; echo queued $1
