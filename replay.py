#!/usr/bin/env python3
"""replay.py <replays/X.json>: rebuild natively from /repo and re-run one counterexample."""
import sys,json,os
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE+'/lib')
import sv,cbmcrun
j=json.load(open(sys.argv[1])); w=sv.scratch()
if j['kind']=='sym':
    t=sv.Tree(w); t.build([HERE+'/harness/'+j['harness']+'.c']); r,o=sv.replay(t.bins[j['harness']][1],j['values'],w,'r',j['env']); print(o); sys.exit(1 if r else 0)
ok,o=cbmcrun.replay(j['env'],w,0,j['values'],'r'); print(o); sys.exit(1 if ok else 0)
