import sys, time, traceback, signal
import trace as T, engine, anchors, pp, os
p=T.load(os.environ.get('MD','/tmp/md'))
op=anchors.opaque()
class TO(Exception): pass
def h(*a): raise TO()
signal.signal(signal.SIGALRM,h)
bad=0; tot=0
os.makedirs('/tmp/tab',exist_ok=True)
allun={}
for k in sorted(anchors.known()):
    if k not in op and 'ALL' not in os.environ: continue
    if any(x in k for x in ('Serialize','Deserialize','Debug','Visitor')): continue
    for b in p.find(k):
        if 'mac' in p.bodies[b].id: continue
        E=engine.Engine(p,opaque=op); t=time.time(); signal.alarm(20); tot+=1
        try:
            rows=E.entry(b); dt=time.time()-t
            for u,n in E.unmodelled.items(): allun[u]=allun.get(u,0)+n
            open('/tmp/tab/'+b.replace('/','_').replace('::','.')[:150],'w').write(pp.table(rows, E.loops)+'\n')
            if dt>1 or len(rows)>25: print('%-60s rows %d %.1fs'%(k,len(rows),dt))
        except Exception as e:
            bad+=1; tb=traceback.extract_tb(sys.exc_info()[2])
            print('%-50s %s %s @%s:%s'%(k,type(e).__name__,str(e)[:90],tb[-1].name,tb[-1].lineno))
        signal.alarm(0)
print(tot,bad)
open('/tmp/un.txt','w').write('\n'.join('%d %s'%(n,u) for u,n in sorted(allun.items())))
