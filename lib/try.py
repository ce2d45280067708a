import sys,time,json
import os; H=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,H+'/lib'); import sv
h=sys.argv[1]; T=float(sys.argv[2]) if len(sys.argv)>2 else 60
env=dict(a.split('=') for a in sys.argv[3:])
t=time.time(); w=sv.scratch(); tr=sv.Tree(w); tr.build([H+'/harness/%s.c'%h]); print('build',time.time()-t)
so,no,fn=tr.bins[h]
s,c,wi=sv.run_sym(so,w,'x',env,T); print(json.dumps(s)); print(len(fn),'functions',len(c),'cands',len(wi),'wits')
for x in c[:6]:
    r,o=sv.replay(no,x['vals'],w,'r',env); print(x['msg'],x['vals'],'->',r[:3], [l for l in o.splitlines() if l.startswith('#')][:3])
bad=0
for x in wi:
    r,o=sv.replay(no,x['vals'],w,'r',env); ob={l.split()[1]:float(l.split()[2]) for l in o.splitlines() if l.startswith('OBS')}
    ok= not r and all(abs(float(v)-ob.get(k,1e99))<=1e-6*(1+abs(float(v))) for k,v in x['obs'].items())
    if not ok: bad+=1; print('WITNESS MISMATCH',x,r[:3],ob) if bad<3 else 0
print('witnesses',len(wi),'bad',bad)
