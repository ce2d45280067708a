"""Common driver: builds /repo's current sources (instrumented + native), runs
symbolic harnesses and CBMC harnesses, replays counterexamples, writes evidence."""
import os,sys,subprocess,json,time,shutil,tempfile,re,hashlib,atexit,concurrent.futures as cf
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','engine'))
import instr
REPO=os.environ.get('SV_REPO','/repo'); VERIF=os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
ENG=VERIF+'/engine'
Z3=None
for c in ['/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3']:
    if os.path.exists(c+'/lib/libz3.so'): Z3=c
NPROC=min(8,os.cpu_count() or 4)
WNO=['-w','-std=gnu17','-Wno-error=implicit-function-declaration','-Wno-error=implicit-int','-Wno-error=int-conversion','-Wno-error=incompatible-pointer-types']
SKIP={'src/main.c','src/pomdp-fg-main.c','src/pomdp-tools-main.c','src/pg-isomorphism.c','src/extra.c'}
def sh(cmd,**k):
    return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
class Err(Exception): pass
def scratch():
    d=tempfile.mkdtemp(prefix='sv-',dir=os.environ.get('SV_TMP','/tmp')); 
    if not os.environ.get('SV_KEEP'): atexit.register(lambda: shutil.rmtree(d,ignore_errors=True))
    return d
def base_sums():
    try: return {l.split()[1]:l.split()[0] for l in open('/opt/vp/baseline.sha256')}
    except OSError: return {}
def fsum(p):
    try: return hashlib.sha256(open(p,'rb').read()).hexdigest()
    except OSError: return None
class Tree:
    """object archives of the current tree"""
    def __init__(s,work):
        s.w=work; s.base=base_sums(); s.sub={}; s.inc=['-I'+REPO]+['-I%s/src%s'%(REPO,x) for x in ('','/mdp','/lp-solve','/laspack')]
        s.gen()
    def gen(s):
        # as /opt/vp/build.sh: committed C is used unless only the .y/.l was edited
        def ch(f):
            w=s.base.get(f); return (w is not None) and fsum(REPO+'/'+f)!=w
        for src,outs in (('src/mdp/parser.y',['src/mdp/parser.c','src/mdp/parser.h']),('src/mdp/scanner.l',['src/mdp/scanner.c']),
                         ('src/lp-solve/lp.y',['src/lp-solve/lp.c','src/lp-solve/lp.h']),('src/lp-solve/lex.l',['src/lp-solve/lex.c'])):
            if ch(src) and not any(ch(o) for o in outs):
                g=s.w+'/gen'; os.makedirs(g,exist_ok=True)
                if src.endswith('.y'):
                    c=g+'/'+os.path.basename(outs[0]); r=sh(['bison','-y','-d','-o',c,REPO+'/'+src])
                    if r.returncode: raise Err('bison failed: '+r.stdout)
                    s.inc.insert(0,'-I'+g)
                else:
                    c=g+'/'+os.path.basename(outs[0]); r=sh(['flex','-o',c,REPO+'/'+src])
                    if r.returncode: raise Err('flex failed: '+r.stdout)
                s.sub[outs[0]]=c
    def sources(s):
        out=[]
        for d in ('src','src/mdp','src/lp-solve','src/laspack'):
            for f in sorted(os.listdir(REPO+'/'+d)):
                p=d+'/'+f
                if f.endswith('.c') and p not in SKIP: out.append(p)
        out=[p for p in out if p not in ('src/lp-solve/lp.c','src/lp-solve/lex.c','src/lp-solve/demo.c','src/lp-solve/lp2mps.c','src/lp-solve/mps2lp.c','src/lp-solve/lp_solve.c')]
        return out
    def path(s,p): return s.sub.get(p,REPO+'/'+p)
    def compile_sym(s,src,obj,extra=()):
        ll=obj+'.ll'; l2=obj+'.s.ll'
        r=sh(['clang','-O1','-S','-emit-llvm','-fno-vectorize','-fno-slp-vectorize','-ffp-contract=off','-fno-builtin-fprintf','-fno-builtin-printf','-fPIC','-D_GNU_SOURCE','-DHAVE_CONFIG_H','-ffunction-sections','-fcommon']+WNO+s.inc+['-I'+ENG]+list(extra)+['-o',ll,src])
        if r.returncode: raise Err('clang failed on %s:\n%s'%(src,r.stdout[-3000:]))
        t,f=instr.rewrite(open(ll).read()); open(l2,'w').write(t)
        r=sh(['llc-18','-O2','-relocation-model=pic','-filetype=obj','-function-sections','-o',obj,l2]) if shutil.which('llc-18') else sh(['llc','-O2','-relocation-model=pic','-filetype=obj','-function-sections','-o',obj,l2])
        if r.returncode: raise Err('llc failed on %s:\n%s'%(src,r.stdout[-3000:]))
        os.unlink(ll); os.unlink(l2)
        return f
    def compile_nat(s,src,obj,extra=()):
        ll=obj+'.ll'; l2=obj+'.s.ll'
        r=sh(['clang','-O1','-S','-emit-llvm','-fno-vectorize','-fno-slp-vectorize','-ffp-contract=off','-fPIC','-D_GNU_SOURCE','-DHAVE_CONFIG_H','-ffunction-sections','-fcommon']+WNO+s.inc+['-I'+ENG]+list(extra)+['-o',ll,src])
        if r.returncode: raise Err('clang failed on %s:\n%s'%(src,r.stdout[-3000:]))
        open(l2,'w').write(instr.guard(open(ll).read()))
        r=sh([shutil.which('llc-18') or 'llc','-O2','-relocation-model=pic','-filetype=obj','-function-sections','-o',obj,l2])
        if r.returncode: raise Err('llc failed on %s:\n%s'%(src,r.stdout[-3000:]))
        os.unlink(ll); os.unlink(l2)
    def compile_gcc(s,src,obj):
        r=sh(['gcc','-O0','-c','-ffp-contract=off','-D_GNU_SOURCE','-DHAVE_CONFIG_H','-fcommon','-w','-ffunction-sections']+s.inc+['-I'+ENG,'-o',obj,src])
        if r.returncode: raise Err('gcc failed on %s:\n%s'%(src,r.stdout[-3000:]))
    def compile_eng(s,src,obj):
        r=sh(['gcc','-O2','-c','-D_GNU_SOURCE','-std=gnu17','-w','-I'+ENG,'-o',obj,src])
        if r.returncode: raise Err('gcc failed on %s:\n%s'%(src,r.stdout[-3000:]))
    def build(s,harness,native=True):
        w=s.w; srcs=s.sources(); jobs=[]
        lib={'src/mdp':'mdp','src/lp-solve':'lpk','src/laspack':'las','src':'main'}
        os.makedirs(w+'/sym',exist_ok=True); os.makedirs(w+'/nat',exist_ok=True)
        s.ar={}; s.gcc={h for h in harness if 'GCC-REPLAY' in open(h).read()}
        if s.gcc: os.makedirs(w+'/gcc',exist_ok=True)
        with cf.ThreadPoolExecutor(NPROC) as ex:
            rt=ex.submit(s.rt)
            hs={h:ex.submit(s.compile_sym,h,w+'/sym/H_'+os.path.basename(h)[:-2]+'.o') for h in harness}
            hn={h:ex.submit(s.compile_nat,h,w+'/nat/H_'+os.path.basename(h)[:-2]+'.o') for h in harness}
            nn=ex.submit(s.compile_eng,ENG+'/native.c',w+'/nat/native.o')
            sy={p:ex.submit(s.compile_sym,s.path(p),w+'/sym/'+p.replace('/','_')[:-2]+'.o') for p in srcs}
            na={p:ex.submit(s.compile_nat,s.path(p),w+'/nat/'+p.replace('/','_')[:-2]+'.o') for p in srcs}
            gc=[ex.submit(s.compile_gcc,s.path(p),w+'/gcc/'+p.replace('/','_')[:-2]+'.o') for p in srcs] if s.gcc else []
            gc+=[ex.submit(s.compile_gcc,h,w+'/gcc/H_'+os.path.basename(h)[:-2]+'.o') for h in s.gcc]
            [f.result() for f in gc]
            for d in (hs,hn,na): [f.result() for f in d.values()]
            s.defs=set()
            for f in sy.values(): s.defs|=set(f.result())
            nn.result(); s.rto=rt.result()
        for k in ('sym','nat')+(('gcc',) if s.gcc else ()):
            for d,l in lib.items():
                objs=['%s/%s/%s.o'%(w,k,p.replace('/','_')[:-2]) for p in srcs if os.path.dirname(p)==d]
                r=sh(['ar','rcs','%s/%s/lib%s.a'%(w,k,l)]+objs)
                if r.returncode: raise Err(r.stdout)
        s.bins={}
        def link(h):
            n=os.path.basename(h)[:-2]; L=lambda k:['%s/%s/lib%s.a'%(w,k,x) for x in ('main','mdp','lpk','las')]
            so=w+'/'+n+'.sym'; no=w+'/'+n+'.nat'
            r=sh(['g++','-o',so,'-Wl,--gc-sections','-Wl,-zmuldefs',w+'/sym/H_'+n+'.o',s.rto,'-Wl,--start-group']+L('sym')+['-Wl,--end-group','-L'+Z3+'/lib','-Wl,-rpath,'+Z3+'/lib','-lz3','-lgmpxx','-lgmp','-lm','-lpthread'])
            if r.returncode: raise Err('link %s: %s'%(n,r.stdout[-3000:]))
            wrap=['-Wl,--wrap='+x for x in ('exit','abort','__assert_fail','fopen','remove','unlink','erand48','malloc','calloc','realloc','free','strdup')]
            r=sh(['gcc','-o',no,'-Wl,--gc-sections','-Wl,-zmuldefs']+wrap+[w+'/nat/H_'+n+'.o',w+'/nat/native.o','-Wl,--start-group']+L('nat')+['-Wl,--end-group','-lm'])
            if r.returncode: raise Err('link native %s: %s'%(n,r.stdout[-3000:]))
            if h in s.gcc:
                r=sh(['gcc','-o',no+'.gcc','-Wl,--gc-sections','-Wl,-zmuldefs']+wrap+[w+'/gcc/H_'+n+'.o',w+'/nat/native.o','-Wl,--start-group']+L('gcc')+['-Wl,--end-group','-lm'])
                if r.returncode: raise Err('link gcc replay %s: %s'%(n,r.stdout[-3000:]))
            r=sh(['nm',so]); fn=sorted({l.split()[-1] for l in r.stdout.splitlines() if ' T ' in l or ' t ' in l}&s.defs)
            return n,(so,no,fn)
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for n,v in ex.map(link,harness): s.bins[n]=v
    def rt(s):
        key=hashlib.sha256(b''.join(open(ENG+'/'+f,'rb').read() for f in ('rt.cpp','sym.h','memfs.inc','heap.inc'))).hexdigest()[:16]
        for d in (VERIF+'/build',):
            p='%s/rt-%s.o'%(d,key)
            if os.path.exists(p): return p
        try: os.makedirs(VERIF+'/build',exist_ok=True); p='%s/build/rt-%s.o'%(VERIF,key)
        except OSError: p=s.w+'/rt.o'
        t=p+'.%d.tmp'%os.getpid()
        r=sh(['g++','-O2','-std=c++17','-w','-I'+Z3+'/include','-I'+ENG,'-c',ENG+'/rt.cpp','-o',t])
        if r.returncode: raise Err('rt: '+r.stdout[-3000:])
        os.replace(t,p); return p
def run_sym(binp,work,tag,env=None,time_s=60):
    out='%s/%s.out'%(work,tag)
    if os.path.exists(out): os.unlink(out)
    e=dict(os.environ); e.update({'SYM_OUT':out,'SYM_TIME':str(time_s)}); e.update({k:str(v) for k,v in (env or {}).items()})
    try: r=subprocess.run([binp],env=e,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,timeout=time_s+60,cwd=work)
    except subprocess.TimeoutExpired: return None,[],[]
    cands=[];wits=[];summ=None
    if os.path.exists(out):
        for l in open(out):
            try: j=json.loads(l)
            except ValueError: continue
            if j['type']=='cand': cands.append(j)
            elif j['type']=='witness': wits.append(j)
            elif j['type']=='summary': summ=j
    return summ,cands,wits
def replay(nat,vals,work,tag,env=None,to=20):
    vf='%s/%s.val'%(work,tag)
    with open(vf,'w') as f:
        for k,v in vals.items(): f.write('%s %s\n'%(k,repr(v) if isinstance(v,float) else v))
    e=dict(os.environ); e.update({k:str(v) for k,v in (env or {}).items()})
    try: r=subprocess.run([nat,vf,str(to)],env=e,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,timeout=to+10,errors='replace',cwd=work); out=r.stdout
    except subprocess.TimeoutExpired: out='REPRODUCED hang\n'
    if os.path.exists(nat+'.gcc') and 'REPRODUCED' not in out: # the same inputs on the code as the other compiler builds it
        try: r=subprocess.run([nat+'.gcc',vf,str(to)],env=e,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,timeout=to+10,errors='replace',cwd=work); out+=''.join(l+'\n' for l in r.stdout.splitlines() if l.startswith(('REPRODUCED','#')))
        except subprocess.TimeoutExpired: out+='REPRODUCED hang\n'
    return [l[11:] for l in out.splitlines() if l.startswith('REPRODUCED ')], out
