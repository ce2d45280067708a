"""CBMC jobs: goto-cc the real source files with a harness, run cbmc, parse the result,
replay a counterexample natively."""
import os,re,subprocess,json,time,sys
import sv
# job: dict(h='cbmc/x.c', src=['src/index-list.c'], unwind=9, defs=['N=3'], to=300, args=[])
def run(job,work,idx):
    h=sv.VERIF+'/'+job['h']; out='%s/cb%d'%(work,idx); t0=time.time()
    inc=['-I'+sv.REPO]+['-I%s/src%s'%(sv.REPO,x) for x in ('','/mdp','/lp-solve','/laspack')]+['-I'+sv.VERIF+'/cbmc']
    defs=['-D'+d for d in job.get('defs',[])]+['-D_GNU_SOURCE','-DCBMC']
    srcs=[sv.REPO+'/'+s for s in job.get('src',[])]
    res={'job':job['h'],'defs':job.get('defs',[]),'unwind':job['unwind'],'cands':[]}
    gb=out+'.gb'
    r=sv.sh(['goto-cc','-o',gb]+inc+defs+[h]+srcs+['--function',job.get('entry','harness')])
    if r.returncode: raise sv.Err('goto-cc: '+r.stdout[-2000:])
    base=['cbmc',gb,'--unwind',str(job['unwind']),'--unwinding-assertions','--drop-unused-functions','--no-malloc-may-fail','--object-bits',str(job.get('objbits',10)),'--trace','--json-ui','--verbosity','8','--slice-formula']+job.get('args',[])
    for u in job.get('unwindset',[]): base+=['--unwindset',u]
    to=job.get('to',200)
    try: p=subprocess.run(base,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=to)
    except subprocess.TimeoutExpired:
        res.update(status='timeout',wall=time.time()-t0); return res
    res['wall']=time.time()-t0
    try: js=json.loads(p.stdout)
    except ValueError:
        res.update(status='error',detail=p.stdout[-1500:]); return res
    props=[];status=None;msgs=[]
    for e in js:
        if 'result' in e: props=e['result']
        if 'cProverStatus' in e: status=e['cProverStatus']
        if 'messageText' in e: msgs.append(e['messageText'])
    res['vars']=sum(int(m.group(1)) for t in msgs for m in [re.match(r'(\d+) variables, (\d+) clauses',t)] if m)
    res['clauses']=sum(int(m.group(2)) for t in msgs for m in [re.match(r'(\d+) variables, (\d+) clauses',t)] if m)
    res['solver_s']=sum(float(m.group(1)) for t in msgs for m in [re.match(r'Runtime decision procedure: ([\d.e-]+)s',t,re.I)] if m)
    res['vccs']=sum(int(m.group(2)) for t in msgs for m in [re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining',t)] if m)
    if status is None: res.update(status='error',detail=' | '.join(msgs[-5:])); return res
    res['n_props']=len(props)
    # reachability witnesses: assertions whose description starts with WITNESS must FAIL
    wit=[p for p in props if p['description'].startswith('WITNESS')]
    res['witness_total']=len(wit); res['witness_hit']=sum(1 for p in wit if p['status']=='FAILURE')
    fails=[p for p in props if p['status']=='FAILURE' and not p['description'].startswith('WITNESS')]
    res['discharged']=sum(1 for p in props if p['status']=='SUCCESS')
    unw=[p for p in fails if 'unwinding' in p['property'] or 'unwind' in p.get('description','')]
    res['unwinding_ok']=not unw
    res['unwind_fail']=[p['property'] for p in unw]
    res['fails']=[p['property']+': '+p['description'] for p in fails if p not in unw]
    for p in fails:
        if p in unw: continue
        vals={}
        for s in p.get('trace',[]):
            if s.get('stepType')=='input' and s.get('values'):
                pass
            if s.get('stepType')=='assignment':
                l=s.get('lhs','')
                m=re.match(r'IN(?:_[A-Za-z0-9]+)?(?:\[(\d+)l*\])?$',l)
                if l.startswith('IN_'):
                    v=s['value']
                    def put(name,v):
                        if 'data' in v and ('binary' in v or v.get('name') in ('integer','float','boolean')):
                            d=v.get('data');
                            if v.get('name')=='boolean': d='1' if d in ('TRUE','true','1') else '0'
                            if v.get('type','').find('char')>=0 and 'binary' in v:
                                b=int(v['binary'],2); w=len(v['binary']); b=b-(1<<w) if b>>(w-1)&1 and 'unsigned' not in v.get('type','') else b; d=str(b)
                            vals[name]=re.sub(r'[a-zA-Z]+$','',str(d)) if not str(d).startswith('0x') else str(int(d,16))
                        for e in v.get('elements',[]): put('%s[%d]'%(name,e['index']),e['value'])
                        for e in v.get('members',[]): put('%s.%s'%(name,e['name']),e['value'])
                    put(re.sub(r'l\]',']',l),v)
        res['cands'].append({'prop':p['property'],'msg':p['description'],'vals':vals,'src':(p.get('sourceLocation') or {}).get('file','')+':'+str((p.get('sourceLocation') or {}).get('line',''))})
    res['status']='ok' if not res['fails'] and res['unwinding_ok'] else ('fail' if res['fails'] else 'unwind')
    return res
def replay(job,work,idx,vals,tag):
    """native build of the same harness with the inputs fixed"""
    h=sv.VERIF+'/'+job['h']; exe='%s/cbn%d'%(work,idx)
    inc=['-I'+sv.REPO]+['-I%s/src%s'%(sv.REPO,x) for x in ('','/mdp','/lp-solve','/laspack')]+['-I'+sv.VERIF+'/cbmc']
    if not os.path.exists(exe):
        r=sv.sh(['gcc','-O1','-g','-w','-fsanitize=address','-fno-omit-frame-pointer','-DREPLAY','-D_GNU_SOURCE','-fcommon','-Wl,-zmuldefs','-o',exe]+inc+['-D'+d for d in job.get('defs',[])]+[h]+[sv.REPO+'/'+s for s in job.get('src',[])+job.get('nsrc',[])]+[sv.VERIF+'/cbmc/replay.c','-lm','-Wl,--unresolved-symbols=ignore-all'])
        if r.returncode: return None,'native build failed: '+r.stdout[-1500:]
    vf='%s/cb%d_%s.val'%(work,idx,tag)
    with open(vf,'w') as f:
        for k,v in vals.items(): f.write('%s %s\n'%(k,v))
    e=dict(os.environ); e['ASAN_OPTIONS']='detect_leaks=0:abort_on_error=0:exitcode=77'
    try: r=subprocess.run([exe,vf],env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=20,errors='replace',cwd=work)
    except subprocess.TimeoutExpired: return True,'hang'
    if r.returncode==42: return False,'assumption not met in replay'
    return r.returncode!=0, r.stdout[-1500:]+'rc=%d'%r.returncode
