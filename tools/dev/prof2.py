import sys,time,cProfile,pstats
sys.path.insert(0,'/tmp/w/v2'); sys.dont_write_bytecode=True
import run
from vlib import engine
c=run.get(sys.argv[1]); c.tier='quick'; c.seed=1; c.detail=None; c.build(); c.open()
n=int(sys.argv[2])
def go():
    for i in range(n):
        k,r,_=engine.run_case(c,seed=engine.case_seed(c.id,7,i),size=1.0)
        if k=='fail': print(str(r)[:300])
t=time.time()
if len(sys.argv)>3:
    cProfile.run('go()','/tmp/w/p.out'); pstats.Stats('/tmp/w/p.out').sort_stats('cumtime').print_stats(25)
else: go()
print((time.time()-t)/n)
c.close()
