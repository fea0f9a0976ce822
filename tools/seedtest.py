#!/usr/bin/env python3
"""seedtest.py [-n] [-a] ID...: confirm planted changes in private copies.

Each is tried in a mount namespace of its own where copies of /repo and /verif
are bound over the originals: apply, build, stable tests, demo (must fail), the
property's check (or all with -a, none with -n), undo, demo (must pass)."""
import json
import os
import subprocess
import sys
import time

INNER = r"""
set -u
id=$1; d=$2; mode=$3
mount --bind $d/repo /repo
mount --bind $d/verif /verif
cd /repo
s=/verif/seeded/$id
rm -rf $d/demo; cp -r $s $d/demo; rm -f $d/demo/patch.diff $d/demo/meta.json
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
if [ $mode != c ]; then
(timeout 280 bash /opt/vp/build.sh) > $d/build0.log 2>&1 || echo "BASE BUILD FAILED"
(timeout 300 bash $d/demo/demo.sh) > $d/demo0.log 2>&1; r0=$?
fi
git apply $s/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
if [ $mode != c ]; then
bash /opt/vp/test.sh $d/out.json > $d/test.log 2>&1
miss=$(python3 - $d/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def ids(x):
    if isinstance(x,dict):
        for k in ('passed','tests','stable','stable_tests','pass'):
            if k in x: return set(map(str,x[k]))
    return set(map(str,x))
m=ids(b)-set(o['passed'])
print(len(m), sorted(m)[:3] if m else '')
P
)
(timeout 300 bash $d/demo/demo.sh) > $d/demo1.log 2>&1; r1=$?
else miss=-; r0=-; r1=-; fi
res=
cd /verif
case $mode in
 n) cs= ;;
 a) cs=$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))") ;;
 *) cs=$prop ;;
esac
for c in $cs; do
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt run.py $c quick > $d/check-$c.log 2>&1; r=$?
  if [ $r = 1 ] && grep -q "^VIOLATION property=$c " $d/check-$c.log; then res="$res $c:CAUGHT"; elif [ $r = 0 ]; then res="$res $c:missed"; else res="$res $c:ERR$r"; fi
done
echo "$id prop=$prop demo(base)=$r0 demo(bug)=$r1 stable-missing=$miss checks:$res"
for c in $cs; do grep -B1 -h "^VIOLATION" $d/check-$c.log | head -2 | cut -c1-300; grep -h "HARNESS\|Traceback" -A5 $d/check-$c.log | head; done
[ "$r1" = 0 ] && tail -3 $d/demo1.log
[ "$r0" != 0 ] && [ "$r0" != - ] && tail -5 $d/demo0.log
exit 0
"""


def main():
    args = sys.argv[1:]
    mode = "p"
    while args and args[0].startswith("-"):
        mode = args.pop(0)[1:]
    for i in args:
        d = "/tmp/s/%s" % i
        subprocess.run(["rm", "-rf", d])
        os.makedirs(d)
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        subprocess.run(["cp", "-a", os.environ.get("VSRC", "/verif"), d + "/verif"], check=True)
        subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."], check=True)
        t = time.time()
        p = subprocess.run(["unshare", "-m", "bash", "-c", INNER, "x", i, d, mode],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(p.stdout.strip(), "(%.0fs)" % (time.time() - t), flush=True)
        if not os.environ.get("KEEP"):
            subprocess.run(["rm", "-rf", d])


main()
