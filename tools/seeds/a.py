MODEL3='''
m=M(2,2,3,0.9,[[[0.75,0.25],[0.25,0.75]],[[0.5,0.5],[0.125,0.875]]],[[[0.5,0.25,0.25],[0.25,0.25,0.5]],[[0.625,0.25,0.125],[0.125,0.125,0.75]]],[[4,-2],[-1,3]])
'''
SEEDS=[
dict(id='neighbor-after-self',property='C16',edits=[('src/neighbor.c','''      if ( node->obs_source[z] == proj_z ) {
        proj_z = proj_z->next;
        continue;''','''      if ( node->obs_source[z] == proj_z ) {
        if ( domination_check && ( z > 0 ))
          break;
        proj_z = proj_z->next;
        continue;''')],needs='the witness or two-pass method with the domination check on, and a vector whose only route to a missing one is a later projection vector of its second or later observation',breaks='useful vectors are never found, so the value function falls below the Bellman backup',
 py='''
import random
random.seed(5); bad=0
for k in range(40):
    d=lambda n:(lambda x:[v/16 for v in x])((lambda c:[c[0]]+[c[i]-c[i-1] for i in range(1,len(c))]+[16-c[-1]])(sorted(random.sample(range(1,16),n-1))))
    m=M(3,2,2,0.9,[[d(3) for s in range(3)] for a in range(2)],[[d(2) for s in range(3)] for a in range(2)],[[random.randint(-8,8) for s in range(3)] for a in range(2)])
    with Run(m,'-method','witness','-dom_check','true','-horizon',3) as r:
        if r.rc or not check_value(m,3,r.alpha(),9): bad=1; print(k,r.out[-100:])
sys.exit(bad)
'''),
dict(id='crosssum-last-source',property='C19',edits=[('src/cross-sum.c','''  if ( first_node->obs_source != NULL ) {
    for ( z = 0; z < gNumObservations; z++ )''','''  if ( first_node->obs_source != NULL ) {
    for ( z = 0; z < second_node->obs - 1; z++ )''')],needs='a cross-sum of a projection set with a partial cross-sum that already holds choices for lower-numbered observations (three or more observations)',breaks='the plan of the vector loses a successor, so the policy graph no longer achieves the vector',
 py='''
bad=0
for meth in (['-method','incprune'],['-method','enum'],['-method','twopass'],['-method','witness'],['-method','incprune','-inc_prune','restricted_region']):
    m=M(2,2,4,0.9,[[[0.75,0.25],[0.25,0.75]],[[0.5,0.5],[0.125,0.875]]],[[[0.5,0.125,0.25,0.125],[0.25,0.25,0.25,0.25]],[[0.625,0.125,0.125,0.125],[0.125,0.0625,0.0625,0.75]]],[[4,-2],[-1,3]])
    with Run(m,'-horizon',3,'-save_penultimate','true',*meth) as r:
        al=r.alpha(); prev=read_alpha(r.d+'/out.prev.alpha') if os.path.exists(r.d+'/out.prev.alpha') else None; pg=r.pg()
        if prev is None: fail('no penultimate file '+r.out[-300:])
        for (a,v),row in zip(al,pg):
            if int(row[1])!=a: bad=1
            for s in range(m.S):
                x=m.R[a][s]
                for o in range(m.O):
                    if not row[2+o].isdigit(): bad=1; print('no successor',meth,row); continue
                    w=prev[int(row[2+o])][1]; x+=m.g*sum(m.T[a][s][t]*m.Z[a][t][o]*w[t] for t in range(m.S))
                if abs(x-v[s])>1e-6: bad=1; print('plan gives',x,'vector',v[s],meth,row)
sys.exit(bad)
'''),
dict(id='prune-keeps-candidate',property='C13',edits=[('src/parsimonious.c','''      enqueueAlphaNode( orig_list, cur_node );

      best_node = removebestVectorNode( orig_list, gTempBelief,
                                        param->alpha_epsilon );
''','''      if ( orig_list->length < 2 )
        best_node = cur_node;
      else {
        enqueueAlphaNode( orig_list, cur_node );
        best_node = removebestVectorNode( orig_list, gTempBelief,
                                          param->alpha_epsilon );
      }
''')],needs='exactly two vectors left to prune, the first of which has a region only until the second (which beats it everywhere it is useful) is added',breaks='a vector that is nowhere best survives pruning',
 c=r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mdp.h"
#include "global.h"
#include "pomdp.h"
#include "alpha.h"
#include "params.h"
#include "cmd-line.h"
#include "parsimonious.h"
extern void initPomdpSolve( PomdpSolveParams );
int main(){
  FILE*f=fopen("m.pomdp","w"); fprintf(f,"discount: 0.9\nvalues: reward\nstates: 2\nactions: 2\nobservations: 2\nT: *\nidentity\nO: *\nuniform\nR: * : * : * : * 1.0\n"); fclose(f);
  char*av[]={"pomdp-solve","-pomdp","m.pomdp","-stdout","rep","-o","out",0};
  PomdpSolveParams p=parseCmdLineAndCfgFile(7,av); initPomdpSolve(p);
  double v[4][2]={{10,0},{0,10},{5.5,5.25},{6,6.5}}; int bad=0;
  for(int perm=0;perm<24;perm++){ int o[4],u[4]={0},x=perm; for(int i=0;i<4;i++){ int k=x%(4-i); x/=(4-i); int j=0; for(;;j++) if(!u[j]&&k--==0) break; o[i]=j; u[j]=1; }
    AlphaList l=newAlphaList(); for(int i=0;i<4;i++){ double*a=newAlpha(); memcpy(a,v[o[i]],16); appendAlphaList(l,a,0); }
    prune(l,purge_prune,p); if(l->length!=3){ printf("order %d%d%d%d: %d vectors kept, 3 useful\n",o[0],o[1],o[2],o[3],l->length); bad=1; } }
  return bad; }
'''),
dict(id='zero-discount-override',property='C23',edits=[('src/pomdp-solve.c','param->override_discount >= 0.0 )','param->override_discount > 0.0 )')],needs='-discount 0 on the command line (a boundary value of the documented range)',breaks='the requested discount is ignored and the file discount is used',
 py=MODEL3+'''
with Run(m,'-discount','0','-horizon','3') as r:
    m.g=0.0
    sys.exit(0 if r.rc==0 and check_value(m,3,r.alpha()) else 1)
'''),
dict(id='zlz-componentwise-max',property='C25',edits=[('src/zlz_speedup.c','''        for ( i = 0; i < gNumStates; i++ )
          alpha_prime[i] = alpha_node->alpha[i];''','''        for ( i = 0; i < gNumStates; i++ )
          alpha_prime[i] = Max( alpha_prime[i], alpha_node->alpha[i] );''')],needs='the ZLZ variation, and a witness point where the old vector beats the backed-up one while the latter is better in another state',breaks='the speed-up invents a vector no plan achieves, so the value function exceeds the optimum',
 py='''
import random
random.seed(3); bad=0
for k in range(30):
    d=lambda n:(lambda x:[v/16 for v in x])((lambda c:[c[0]]+[c[i]-c[i-1] for i in range(1,len(c))]+[16-c[-1]])(sorted(random.sample(range(1,16),n-1))))
    m=M(2,2,2,0.75,[[d(2) for s in range(2)] for a in range(2)],[[d(2) for s in range(2)] for a in range(2)],[[random.randint(-8,8) for s in range(2)] for a in range(2)])
    with Run(m,'-horizon',200) as r0:
        opt=r0.alpha()
    with Run(m,'-vi_variation','zlz','-witness_points','true','-terminal_values','tv','-horizon',200,files={'tv':'0\\n-20 10\\n\\n0\\n12 -20\\n'}) as r:
        with Run(m,'-terminal_values','tv','-horizon',200,files={'tv':'0\\n-20 10\\n\\n0\\n12 -20\\n'}) as r2: opt=r2.alpha()
        al=r.alpha()
        for b in grid(2,20):
            if abs(env(al,b)-env(opt,b))>1e-3: bad=1; print(k,b,env(al,b),env(opt,b))
sys.exit(bad)
'''),
]
