#!/usr/bin/env python3
"""check.py <property id> [quick|thorough] : decide one property on /repo's current tree."""
import os,sys,json,time,traceback,concurrent.futures as cf
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE+'/lib')
import sv,cbmcrun
from props import PROPS
def load_known():
    try: return [e for e in json.load(open(HERE+'/known_findings.json'))['findings']]
    except OSError: return []
def known(kf,pid,harness,msg,vals,env=None):
    vals=dict(vals); vals.update(env or {})
    for e in kf:
        if e.get('property')!=pid or e.get('harness')!=harness: continue
        if e.get('msg') and e['msg'] not in msg: continue
        if all(str(vals.get(k))==str(v) or vals.get(k)==v for k,v in e.get('when',{}).items()): return e
    return None
def main():
    pid=sys.argv[1]; tier=(sys.argv[2] if len(sys.argv)>2 else os.environ.get('VERIF_TIER','quick')); seed=int(os.environ.get('VERIF_SEED','1') or 1)
    P=PROPS[pid]; t0=time.time(); jobs=P.get(tier) or P['quick']; kf=load_known()
    work=sv.scratch(); viol=[];knownhit=[];notes=[]; ev={'jobs':[]}
    tot=dict(states=0,transitions=0,queries=0,unsat=0,sat=0,unknown=0,solver_s=0.0,vq=0,vun=0,traces=0); samples=[]; funcs=set(); covers={}
    unconf=[]; mism=[]
    budget=P.get('budget',{}).get(tier, 600 if tier=='quick' else 820)
    rdir=HERE+'/replays'; os.makedirs(rdir,exist_ok=True); nrep=[0]
    def report(h,msg,vals,kind,env,out):
        nrep[0]+=1; rp='%s/%s-%d.json'%(rdir,pid,nrep[0])
        json.dump({'property':pid,'harness':h,'kind':kind,'message':msg,'values':vals,'env':env,'replay_output':out,'how':'python3 %s/replay.py %s'%(HERE,rp)},open(rp,'w'),indent=1)
        return rp
    sj=[j for j in jobs if j[0]=='sym']; cj=[j for j in jobs if j[0]=='cbmc']
    try:
        if sj:
            tree=sv.Tree(work); tree.build(sorted({HERE+'/harness/'+j[1]+'.c' for j in sj})); tb=time.time()-t0
        for i,j in enumerate(sj):
            _,h,env,tl=j; so,no,fn=tree.bins[h]
            if viol: notes.append('%d job(s) not run: a violation is already confirmed'%(len(sj)-i+len(cj))); break
            left=budget-(time.time()-t0)
            if left<5: notes.append('job %s %s skipped: budget'%(h,env)); continue
            summ,cands,wits=sv.run_sym(so,work,'j%d'%i,env,min(tl,left))
            funcs|=set(fn)
            if summ is None: notes.append('job %s %s: no summary (engine ended abnormally)'%(h,env)); summ={}
            rec={'harness':h,'bounds':env,'paths':summ.get('paths',0),'forks':summ.get('forks',0),'assertion_queries':summ.get('vq',0),'assertions_unsat':summ.get('vunsat',0),'decided_by_normal_form_or_enclosure':summ.get('vfold',0),
                 'z3_sat':summ.get('sat',0),'z3_unsat':summ.get('unsat',0),'z3_unknown':summ.get('unknown',0),'nonlinear_queries':summ.get('nlq',0),'solver_s':round(summ.get('solver_us',0)/1e6,2),'complete':summ.get('incomplete',1)==0 and summ.get('unknown',0)==0 and summ.get('crash',0)==0,
                 'paths_cut':summ.get('incomplete',0),'margin_only_paths':summ.get('bandonly',0),'candidates':summ.get('cands',0),'wall':round(summ.get('wall',0),2),'covers':summ.get('covers',{}),'abnormal_children':summ.get('crash',0)}
            for k,v in summ.get('covers',{}).items(): covers[h+':'+k]=covers.get(h+':'+k,0)+v
            tot['states']+=rec['paths'];tot['transitions']+=rec['forks']+summ.get('fast',0)+summ.get('sat',0)+summ.get('unsat',0);tot['queries']+=rec['z3_sat']+rec['z3_unsat']+rec['z3_unknown'];tot['unsat']+=rec['z3_unsat'];tot['sat']+=rec['z3_sat'];tot['unknown']+=rec['z3_unknown'];tot['solver_s']+=rec['solver_s'];tot['vq']+=rec['assertion_queries'];tot['vun']+=rec['assertions_unsat']
            ev['jobs'].append(rec)
            def rp(c): return c,sv.replay(no,c['vals'],work,'r%d_%d'%(i,id(c)),env)
            with cf.ThreadPoolExecutor(8) as ex:
                seen=set()
                for c,(hits,out) in ex.map(rp,cands):
                    if not hits: unconf.append({'harness':h,'msg':c['msg'],'vals':c['vals'],'bounds':env}); continue
                    for m in hits[:6]:
                        k=known(kf,pid,h,m,c['vals'],env)
                        if k: knownhit.append(k.get('what',m)); continue
                        if m in seen: continue
                        seen.add(m); viol.append((m,report(h,m,c['vals'],'sym',env,out[-2000:])))
                for c,(hits,out) in ex.map(rp,wits):
                    ob={l.split()[1]:l.split()[2] for l in out.splitlines() if l.startswith('OBS')}; good=True
                    if hits:
                        good=False
                        for m in hits[:3]:
                            k=known(kf,pid,h,m,c['vals'],env)
                            if k: knownhit.append(k.get('what',m)); continue
                            if m in seen: continue
                            seen.add(m); viol.append((m,report(h,m,c['vals'],'sym',env,out[-2000:])))
                    for k,v in c['obs'].items():
                        try:
                            if abs(float(v)-float(ob.get(k,'nan')))>1e-5*(1+abs(float(v))): good=False
                        except ValueError: good=False
                    if good or not c['modelok']:
                        tot['traces']+=good
                        if len(samples)<6: samples.append({'harness':h,'inputs':c['vals'],'observed':c['obs']})
                    else: mism.append({'harness':h,'inputs':c['vals'],'obs':c['obs'],'native':ob})
        def cb(a):
            i,j=a; return i,j[1],cbmcrun.run(j[1],work,i)
        if viol: cj=[]
        with cf.ThreadPoolExecutor(int(P.get('par',8))) as ex:
            for i,job,r in ex.map(cb,list(enumerate(cj))):
                c=r.pop('cands'); rec=dict(r); rec['functions_from']=job.get('src',[]); rec['complete']=r['status']=='ok' and r.get('witness_hit')==r.get('witness_total'); ev['jobs'].append(rec)
                tot['states']+=r.get('vars',0);tot['transitions']+=r.get('clauses',0);tot['queries']+=r.get('n_props',0);tot['unsat']+=r.get('discharged',0);tot['sat']+=r.get('witness_hit',0);tot['solver_s']+=r.get('solver_s',0.0);tot['vq']+=r.get('n_props',0);tot['vun']+=r.get('discharged',0)
                if r['status'] in('timeout','error','unwind'): notes.append('cbmc %s %s: %s %s'%(r['job'],r['defs'],r['status'],r.get('detail','') or r.get('unwind_fail','')))
                if len(samples)<6: samples.append({'cbmc_harness':r['job'],'defs':r['defs'],'properties_discharged':r.get('discharged',0),'reachability_witnesses_hit':r.get('witness_hit',0)})
                done=set()
                for n,x in enumerate(c[:12]):
                    ok,out=cbmcrun.replay(job,work,i,x['vals'],str(n))
                    m=x['msg']
                    if ok:
                        tot['traces']+=1
                        k=known(kf,pid,job['h'],m,x['vals'])
                        if k: knownhit.append(k.get('what',m)); continue
                        if m in done: continue
                        done.add(m); viol.append((m,report(job['h'],m,x['vals'],'cbmc',job,out)))
                    else: unconf.append({'harness':job['h'],'msg':m,'vals':x['vals'],'replay':out[-300:]})
    except sv.Err as e:
        print('check %s: cannot build: %s'%(pid,e),file=sys.stderr); notes.append('build error: '+str(e)[-1500:])
        write(pid,tier,seed,P,tot,samples,funcs,ev,notes,unconf,mism,t0,0,covers,knownhit); sys.exit(3)
    write(pid,tier,seed,P,tot,samples,funcs,ev,notes,unconf,mism,t0,len(viol),covers,knownhit)
    for w in sorted(set(knownhit)): print('KNOWN-FINDING: property=%s %s'%(pid,w))
    inc=[r for r in ev['jobs'] if not r.get('complete')]
    print('%s %s: %d jobs (%d incomplete), %d paths/vars, %d assertions, %d discharged, %d solver queries, %.1fs solver, %d replays ok, %d unconfirmed, %d mismatches, wall %.1fs'%(pid,tier,len(ev['jobs']),len(inc),tot['states'],tot['vq'],tot['vun'],tot['queries'],tot['solver_s'],tot['traces'],len(unconf),len(mism),time.time()-t0))
    for n in notes: print('note:',n[:300])
    if viol:
        for m,rp in viol[:10]: print('# '+m.replace('\n',' ')); print('VIOLATION property=%s replay=%s'%(pid,rp))
        sys.exit(1)
    sys.exit(0)
def write(pid,tier,seed,P,tot,samples,funcs,ev,notes,unconf,mism,t0,nv,covers,knownhit):
    os.makedirs(HERE+'/evidence',exist_ok=True)
    d={'property':pid,'tier':tier,'seed':seed,'level':P.get('level','model_checking'),'wall_s':round(time.time()-t0,2),'violations':nv,
       'assumptions':P.get('assume',[]),
       'coverage':{'states':tot['states'],'transitions':tot['transitions'],'traces_validated_against_impl':tot['traces'],'samples':samples or ['none'],
         'explanation':P.get('note',''),'functions_encoded':sorted(funcs),'n_functions_encoded':len(funcs),'assertion_queries':tot['vq'],'assertions_discharged':tot['vun'],
         'solver_queries':tot['queries'],'solver_unsat':tot['unsat'],'solver_sat':tot['sat'],'solver_unknown':tot['unknown'],'solver_time_s':round(tot['solver_s'],2),
         'jobs':ev['jobs'],'covers':covers,'notes':notes,'unconfirmed_candidates':unconf[:10],'witness_mismatches':mism[:5],'known_findings_seen':sorted(set(knownhit)),
         'exhaustive':all(r.get('complete') for r in ev['jobs']) and not notes}}
    json.dump(d,open('%s/evidence/%s.json'%(HERE,pid),'w'),indent=1)
if __name__=='__main__': main()
