import json,sys,glob,os
fs=sorted(glob.glob('/tmp/w/v2/replay/%s-*.json'%sys.argv[1]),key=os.path.getmtime)
n=int(sys.argv[2]) if len(sys.argv)>2 else 1
for f in fs[-n:]:
    d=json.load(open(f)); print(f); print(str(d.get('message') or d.get('msg'))[:1500]); det=d.get('detail') or {}
    print(det.get('settings')); 
    for nm,t in det.get('files') or []: print('---',nm); print(t[:3500])
    if det.get('extra'): print(str(det['extra'])[-1500:])
