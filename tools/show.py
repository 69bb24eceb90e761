import sys,random,json
import os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/sim/py')
import eng,gens,hist,oracles
name=sys.argv[1]; i=int(sys.argv[2]) if len(sys.argv)>2 else 0; full=len(sys.argv)>3
if name.endswith('.json'): sc=json.load(open(name))['scenario']
else:
    r=random.Random(i); sc=getattr(gens,name)(r)
if full and sys.argv[3].startswith('log'):
    for c in sc['controllers']: c.setdefault('env',{})['RUST_LOG']=sys.argv[3][4:] or 'debug'
print({k:sc[k] for k in ('faults','meta','sim')}); 
for a in sc['actors']: print('ACTOR',json.dumps(a)[:300])
for k,p in sc['programs'].items(): print('PROG',k,json.dumps(p)[:300])
for c in sc['controllers']:
    for s in c['steps']:
        if s['op']=='add':
            for t in s['tasks']: print(' T',json.dumps(t)[:200])
        else: print(c['name'],json.dumps(s))
z=eng.Zygote(0); ev,st=z.run(sc)
for e in ev:
    k=e['e']
    if not full and (k in ('open','lock','unlock','reap','out','file','bindun','listen','unlink') or k=='py' and e['d'].get('ev') in ('add','opening','closing','done')): continue
    d={x:v for x,v in e.items() if x not in('q','t','env','ino','kind','host','fds','cwd','argv','p','name','e','ppid','f_nth')} if not full else {x:v for x,v in e.items() if x not in ('q','t','env')}
    if k=='write' and not full: d={'d':e['d'].replace('secs_since_epoch','').replace('nanos_since_epoch','')}
    print(e['q'],'%.6f'%(e['t']/1e9),e['e'],e.get('p',e.get('name')),(json.dumps(d))[:(220 if not full else 1500)])
print(st)
