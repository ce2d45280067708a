import sys,json; sys.path.insert(0,'/verif/lib')
from props import PROPS,NA
TECH_S='symbolic execution of the real code (LLVM IR from clang, every double operation lifted to exact polynomial terms, path forking) with z3 deciding branches and assertions; counterexamples replayed natively'
TECH_C='bounded model checking of the real C sources (CBMC, SAT back end); counterexamples replayed natively under ASAN'
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in PROPS:
        P=PROPS[i]; ks={j[0] for j in P['quick']}
        checks.append({'property':i,'quick_cmd':'python3 check.py %s quick'%i,'thorough_cmd':'python3 check.py %s thorough'%i,
          'technique':' + '.join([TECH_S]*('sym' in ks)+[TECH_C]*('cbmc' in ks)),'level':'model_checking','level_note':P.get('note') or 'bounded; bounds per job in lib/props.py and evidence'})
    else: na.append({'property':i,'reason':NA.get(i,'check under construction')})
json.dump({'version':1,'setup_cmd':'python3 tools/setup.py','checks':checks,'not_applicable':na},open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'n/a')
