import sys,random,time,collections
import os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/sim/py')
import eng,gens,hist,oracles,json
name=sys.argv[1]; n=int(sys.argv[2]); start=int(sys.argv[3]) if len(sys.argv)>3 else 0
props=sys.argv[4].split(',') if len(sys.argv)>4 else ['c01','c02','c03','c04','c05','c06','c08','c09','c10','c11','c12']
import os
z=eng.Zygote(int(os.environ.get("CPU","0")))
cnt=collections.Counter(); t0=time.time(); sim=0; ends=collections.Counter(); judged=collections.Counter(); slow=[]
for i in range(start,start+n):
    r=random.Random(i); sc=getattr(gens,name)(r)
    t=time.time(); ev,st=z.run(sc); dt=time.time()-t
    h=hist.H(sc,ev,st); oracles.prep(h)
    ends[h.end['status'] if h.end else 'none']+=1
    if h.end: sim+=h.end['t']/1e9
    slow.append((dt,i))
    if h.harness or h.end is None or h.end['status'].startswith('harness'):
        print(i,'HARNESS',h.harness[:3],st,h.end and h.end['status'],flush=True); cnt['harness']+=1; continue
    for p in props:
        for k,txt in getattr(oracles,p)(h)[:2]:
            cnt[p+'/'+k]+=1
            if cnt[p+'/'+k]<=4: print(i,p,k,txt[:400],h.end['status'],flush=True)
    for k,x in h.judged.items(): judged[k]+=x
print(dict(cnt),dict(ends)); print('rate',n/(time.time()-t0),'sim s',sim, 'slowest',sorted(slow)[-3:]); print(dict(judged))
