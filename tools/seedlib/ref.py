"""Reference: brute-force finite-horizon values and helpers to run the built tools."""
import itertools,subprocess,tempfile,os,sys,shutil,re
BIN=os.getcwd()+'/_build/tree/src/'
class M:
    def __init__(s,S,A,O,g,T,Z,R,cost=False,b0=None,tv=None): s.S,s.A,s.O,s.g,s.T,s.Z,s.R,s.cost,s.b0,s.tv=S,A,O,g,T,Z,R,cost,b0,tv
    def text(s):
        o='discount: %r\nvalues: %s\nstates: %d\nactions: %d\nobservations: %d\n'%(s.g,'cost' if s.cost else 'reward',s.S,s.A,s.O)
        if s.b0: o+='start: '+' '.join(repr(x) for x in s.b0)+'\n'
        for a in range(s.A):
            for i in range(s.S): o+='T: %d : %d\n%s\n'%(a,i,' '.join(repr(x) for x in s.T[a][i]))
            for i in range(s.S): o+='O: %d : %d\n%s\n'%(a,i,' '.join(repr(x) for x in s.Z[a][i]))
            for i in range(s.S): o+='R: %d : %d : * : * %r\n'%(a,i,s.R[a][i])
        return o
def grid(S,n):
    for c in itertools.product(range(n+1),repeat=S-1):
        if sum(c)<=n: yield [x/n for x in c]+[1-sum(c)/n]
def value(m,h,b):
    if h==0: return max(sum(x*y for x,y in zip(b,v)) for v in m.tv) if m.tv else 0.0
    best=-1e300
    for a in range(m.A):
        q=sum(b[s]*m.R[a][s] for s in range(m.S))*(-1 if m.cost else 1)
        for o in range(m.O):
            nb=[sum(b[s]*m.T[a][s][t] for s in range(m.S))*m.Z[a][t][o] for t in range(m.S)]; p=sum(nb)
            if p>1e-12: q+=m.g*p*value(m,h-1,[x/p for x in nb])
        best=max(best,q)
    return best
def read_alpha(p):
    L=[l.strip() for l in open(p) if l.strip()]; return [(int(L[i]),[float(x) for x in L[i+1].split()]) for i in range(0,len(L),2)]
def read_pg(p): return [l.split() for l in open(p) if l.strip()]
class Run:
    def __init__(s,m,*opts,files=None,text=None,tool='pomdp-solve',timeout=60):
        s.d=tempfile.mkdtemp(prefix='demo-'); open(s.d+'/m.pomdp','w').write(text if text is not None else m.text())
        for k,v in (files or {}).items(): open(s.d+'/'+k,'w').write(v)
        cmd=[BIN+tool]
        if tool=='pomdp-solve': cmd+=['-pomdp','m.pomdp','-o','out']
        try: r=subprocess.run(cmd+[str(x) for x in opts],cwd=s.d,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout,errors='replace'); s.rc=r.returncode; s.out=r.stdout
        except subprocess.TimeoutExpired: s.rc=-99; s.out='TIMEOUT'
    def __enter__(s): return s
    def __exit__(s,*a): shutil.rmtree(s.d,ignore_errors=True)
    def alpha(s): return read_alpha(s.d+'/out.alpha')
    def pg(s): return read_pg(s.d+'/out.pg')
def env(al,b,cost=False): return max(sum(x*y for x,y in zip(b,v))*(-1 if cost else 1) for _,v in al)
def check_value(m,h,al,n=20,tol=1e-5):
    for b in grid(m.S,n):
        x=env(al,b,m.cost); y=value(m,h,b)
        if abs(x-y)>tol: print('value at',b,'is',x,'expected',y); return False
    return True
def fail(msg): print('FAIL',msg); sys.exit(1)
