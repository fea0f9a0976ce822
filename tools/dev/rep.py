"""rep.py FILE OLD NEW: replace exactly once in /tmp/s/wt"""
import sys
f='/tmp/s/wt/'+sys.argv[1]; s=open(f).read()
o,n=sys.argv[2].replace('\\n','\n'),sys.argv[3].replace('\\n','\n')
assert s.count(o)==1,(s.count(o))
open(f,'w').write(s.replace(o,n))
