#!/usr/bin/env python3
"""mkseed.py spec.py : writes /verif/seeded/<id>/ from SEEDS in spec (edits applied to a scratch copy of /repo/src for the diff)."""
import sys,os,subprocess,shutil,json,tempfile,runpy
sp=runpy.run_path(sys.argv[1]); only=sys.argv[2:]
for s in sp['SEEDS']:
    if only and s['id'] not in only: continue
    d='/verif/seeded/'+s['id']; os.makedirs(d,exist_ok=True)
    t=tempfile.mkdtemp(prefix='mkseed-'); subprocess.check_call(['git','-C','/repo','worktree','prune']); subprocess.check_call('git -C /repo archive HEAD src | tar x -C %s'%t,shell=True)
    subprocess.check_call('git init -q . && git add -A && git -c user.email=a@b -c user.name=x commit -qm x',shell=True,cwd=t)
    for f,a,b in s['edits']:
        p=t+'/'+f; x=open(p,encoding='latin1').read(); assert x.count(a)==1,(s['id'],f,x.count(a)); open(p,'w',encoding='latin1').write(x.replace(a,b))
    open(d+'/patch.diff','wb').write(subprocess.check_output(['git','diff'],cwd=t)); shutil.rmtree(t)
    if 'py' in s:
        shutil.copy('/verif/tools/seedlib/ref.py',d+'/ref.py'); open(d+'/demo.py','w').write('import sys,os\nsys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))\nfrom ref import *\n'+s['py'].lstrip('\n'))
        open(d+'/demo.sh','w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(dirname "$0")/demo.py"\n')
    if 'c' in s:
        open(d+'/demo.c','w').write(s['c'].lstrip('\n'))
        open(d+'/demo.sh','w').write('''#!/bin/bash
# links the demo with the objects of the current build
d=$(mktemp -d /tmp/demo-XXXXXX); trap 'rm -rf "$d"' EXIT
t=/repo/_build/tree/src
objs=$(ls $t/pomdp_tools-*.o | grep -v -- -main.o)
%s
gcc -w -fcommon -DHAVE_CONFIG_H -I/repo/_build/tree -I$t -I$t/mdp -I$t/lp-solve -I$t/laspack -o $d/demo "$(dirname "$0")/demo.c" $objs $t/mdp/*.a $t/lp-solve/*.a $t/laspack/*.a -lm || exit 2
cd $d; timeout 60 ./demo
'''%s.get('pre',''))
    json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    print(s['id'])
