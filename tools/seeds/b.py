CH=r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "mdp.h"
#include "global.h"
#include "pomdp.h"
#include "alpha.h"
#include "params.h"
#include "cmd-line.h"
#include "parsimonious.h"
#include "neighbor.h"
#include "region.h"
#include "pg.h"
extern void initPomdpSolve( PomdpSolveParams );
static PomdpSolveParams setup(int S,const char*extra){ FILE*f=fopen("m.pomdp","w"); fprintf(f,"discount: 0.9\nvalues: reward\nstates: %d\nactions: 2\nobservations: 2\n%sT: *\nidentity\nO: *\nuniform\nR: * : * : * : * 1.0\n",S,extra); fclose(f);
  static char*av[]={"pomdp-solve","-pomdp","m.pomdp","-stdout","rep","-o","out",0}; PomdpSolveParams p=parseCmdLineAndCfgFile(7,av); initPomdpSolve(p); return p; }
static AlphaList mk(double*v,int n,int S){ AlphaList l=newAlphaList(); for(int i=0;i<n;i++){ double*a=newAlpha(); memcpy(a,v+i*S,S*sizeof(double)); appendAlphaList(l,a,i%2); } return l; }
'''
SEEDS=[
dict(id='reward-wildcard-skips-value',property='C03',edits=[('src/mdp/decision-tree.c','''      if (NULL != node->data.subTree.entries[i]) {
	node->data.subTree.entries[i] =
	  dtAddInternal''','''      if (NULL != node->data.subTree.entries[i]
	  && DT_TABLE == node->data.subTree.entries[i]->type) {
	node->data.subTree.entries[i] =
	  dtAddInternal''')],needs='a reward entry for one next state and all observations followed by one for all next states and one observation',breaks='the later entry does not override the earlier one where they overlap',
 py='''
t="""discount: 0.5
values: reward
states: 2
actions: 1
observations: 2
T: 0
0.5 0.5
0.25 0.75
O: 0
0.5 0.5
0.125 0.875
R: 0 : 0 : 1 : * 8
R: 0 : 0 : * : 0 16
"""
# R(0,0): s'=0: o0 16, o1 0 ; s'=1: o0 16, o1 8
q=0.5*(0.5*16+0.5*0)+0.5*(0.125*16+0.875*8)
with Run(None,'-horizon',1,text=t) as r:
    al=r.alpha(); sys.exit(0 if len(al)==1 and abs(al[0][1][0]-q)<1e-9 and abs(al[0][1][1])<1e-9 else 1)
'''),
dict(id='sparse-remove-tail',property='C06',edits=[('src/mdp/sparse-matrix.c','''    if( cur_node->column == col ) {
      trail_node->next = cur_node->next;
      XFREE( cur_node );
      (*count)--;
      return( row );
    }  /* if we found the one to remove */
''','''    if( cur_node->column >= col ) {
      trail_node->next = cur_node->next;
      XFREE( cur_node );
      (*count)--;
      return( row );
    }  /* if we found the one to remove */
''')],needs='a zero written to a cell that is empty, lying between two stored entries of the row',breaks='writing a zero removes the next non-zero entry of the row',
 py='''
t="""discount: 0.5
values: reward
states: 3
actions: 1
observations: 1
T: 0
0.5 0 0.5
0 1 0
0 0 1
T: 0 : 0 : 1 0
O: *
uniform
R: 0 : 2 : * : * 8
"""
with Run(None,'-horizon',2,text=t) as r:
    if r.rc: print(r.out[-300:]); sys.exit(1)
    al=r.alpha(); print(al); sys.exit(0 if abs(al[0][1][0]-2)<1e-9 else 1)
'''),
dict(id='relink-last-link',property='C07',edits=[('src/pg.c',"""		if ( pg->next[n][z] > max_idx )
		  {""","""		if ( pg->next[n][z] >= max_idx )
		  {""")],needs='relinking a policy graph in which some edge names the last vector of the previous set',breaks='that edge is lost instead of pointing to the closest vector',py="""
m=M(2,2,2,0.9,[[[0.75,0.25],[0.25,0.75]],[[0.5,0.5],[0.125,0.875]]],[[[0.5,0.5],[0.25,0.75]],[[0.625,0.375],[0.125,0.875]]],[[4,-2],[-1,3]])
with Run(m,'-tool','pg_relink','-pomdp','m.pomdp','-alpha1','a','-pg1','g','-alpha2','p','-o','out',tool='pomdp-tools',files={'a':'0\\n1 0\\n\\n1\\n0 1\\n\\n','p':'0\\n0 0.75\\n\\n0\\n0.75 0\\n\\n','g':'0 0 0 1\\n1 1 1 0\\n'}) as r:
    g=read_pg(r.d+'/out'); print(g); sys.exit(0 if [x[2:] for x in g]==[['1','0'],['0','1']] else 1)
"""),
dict(id='tracker-reset-on-bad-obs',property='C09',edits=[('src/utils.c','''	 if (( obs < 0 ) || ( obs >= gNumObservations ))
	 {
		fprintf( stderr, "Bad observation index.\\n" );
		fprintf( stdout, "[]\\n" );
		continue;
	 }

	 /* Make sure''','''	 if (( obs < 0 ) || ( obs >= gNumObservations ))
	 {
		fprintf( stderr, "Bad observation index.\\n" );
		fprintf( stdout, "[]\\n" );
		copyBelief( prev_belief, gInitialBelief );
		continue;
	 }

	 /* Make sure''')],needs='a line with a valid action and an out-of-range observation after at least one good line',breaks='the tracked belief is reset by a rejected line',py='''
m=M(2,2,2,0.9,[[[0.75,0.25],[0.25,0.75]],[[0.5,0.5],[0.125,0.875]]],[[[0.5,0.5],[0.25,0.75]],[[0.625,0.375],[0.125,0.875]]],[[4,-2],[-1,3]])
import subprocess
d=tempfile.mkdtemp(prefix='demo-')
try:
    open(d+'/m.pomdp','w').write(m.text())
    r=subprocess.run([BIN+'pomdp-tools','-tool','update_beliefs','-pomdp','m.pomdp'] if os.path.exists(BIN+'pomdp-tools') else ['false'],cwd=d,input='0 1\\n0 7\\n',stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    L=[l for l in r.stdout.split('\\n') if l.startswith('[')]; print(r.stdout)
    sys.exit(0 if len(L)>=4 and L[1]==L[3] and L[0]!=L[1] else 1)
finally: shutil.rmtree(d)
'''),
dict(id='tie-keeps-first',property='C11',edits=[('src/alpha.c','''    if ( Equal( cur_value, cur_best_value, epsilon )
         && ( *best_ptr != NULL )
         && isLexicographicallyBetter( list, *best_ptr, epsilon )) {''','''    if ( Equal( cur_value, cur_best_value, epsilon )
         && ( *best_ptr != NULL )
         && ( (*best_ptr)->action == list->action )
         && isLexicographicallyBetter( list, *best_ptr, epsilon )) {''')],needs='two vectors of different actions tied at the belief, the lexicographically larger one later in the set',breaks='the selected vector depends on the order of the set',
 c=CH+r'''
int main(){ setup(2,""); double v[6]={1,3, 3,1, 0,0}, b[2]={0.5,0.5}, x; AlphaList l=mk(v,3,2), n=bestVector(l,b,&x,1e-9); return !(n->alpha[0]==3); }
'''),
dict(id='domination-scan-stops',property='C12',edits=[('src/alpha.c',"""  for (i = 0; i < gNumStates; i++) 
    if ( alpha1[i] <= alpha2[i] )
      return ( FALSE );

  return ( TRUE );
} /* isDominatedVector */""","""  for (i = 0; i < gNumStates; i++) {
    if ( alpha1[i] < alpha2[i] )
      return ( FALSE );
    if (( alpha1[i] == alpha2[i] ) && ( i > 0 ))
      return ( alpha1 != alpha2 );
  }

  return ( alpha1 != alpha2 );
} /* isDominatedVector */""")],needs='two vectors that agree in a state other than the first, one being larger before it and smaller after it',breaks='a vector that is best at some belief is removed by the domination check',c=CH+r"""
int main(){ PomdpSolveParams p=setup(3,""); double v[6]={2,1,0, 1,1,5}; AlphaList l=mk(v,2,3); dominationCheck(l); int n=l->length; double w[6]={1,1,5, 2,1,0}; l=mk(w,2,3); dominationCheck(l); (void)p; return !(n==2&&l->length==2); }
"""),
dict(id='weak-bound-signed',property='C22',edits=[('src/pomdp-solve.c',"""      if ( min_p_y > max_p_x ) 
         max_p_x = min_p_y;
      
      /* This""","""      if (( min_p_y > max_p_x )
          && (( max_p_x < 0.0 ) || ( p_x->next != NULL )))
         max_p_x = min_p_y;
      
      /* This""")],needs='the weak stopping criterion with the largest change in the last of several vectors',breaks='value iteration stops although a vector moved by more than the bound',c=CH+r"""
extern int meetStopCriteria(AlphaList,AlphaList,double*,PomdpSolveParams);
int main(){ PomdpSolveParams p=setup(2,""); p->opts->stop_criteria=POMDP_SOLVE_OPTS_Stop_Criteria_weak; p->stop_delta=0.1; double v[6]={0,9,5,5,9,0}, w[6]={0,9,5,5,9.5,0}, e; AlphaList a=mk(v,3,2), b=mk(w,3,2); int r=meetStopCriteria(a,b,&e,p); printf("%d %g\\n",r,e); return r; }
"""),
dict(id='grid-limit-corner',property='C24',edits=[('src/finite-grid.c','''	 diff = fabs( prev_val - cur_val );
	 
	 if ( diff > max_diff )
	   max_diff = diff;
''','''	 diff = cur_val - prev_val;
	 
	 if ( fabs( diff ) > max_diff )
	   max_diff = diff;
''')],needs='grid method with values falling at some belief (negative change of larger size than the rises)',breaks='the grid error ignores falling values, so value iteration stops early',py='''
m=M(2,2,2,0.9,[[[0.75,0.25],[0.25,0.75]],[[0.5,0.5],[0.125,0.875]]],[[[0.5,0.5],[0.25,0.75]],[[0.625,0.375],[0.125,0.875]]],[[-4,-2],[-3,-5]])
with Run(m,'-method','grid','-fg_points',50,'-fg_type','simplex','-horizon',400,'-stop_delta','1e-6') as r:
    al=r.alpha(); x=env(al,[1,0]); y=-20.0
with Run(m,'-horizon',300) as r: y=env(r.alpha(),[1,0])
print(x,y); sys.exit(0 if abs(x-y)<2 else 1)
'''),
dict(id='pg-read-node-order',property='C28',edits=[('src/pg.c',"""    for( z = 0; z < gNumObservations; z++ )
      pg->next[old_pg->id][z] = old_pg->neighbor[z];
    
    old_pg""","""    for( z = 0; z < gNumObservations; z++ )
      pg->next[old_pg->id][z] = ( old_pg->neighbor[z] == INVALID_NODE )
        ? old_pg->id : old_pg->neighbor[z];
    
    old_pg""")],needs='a policy graph file with an X (impossible observation) entry',breaks='an undefined successor is read back as a self loop',c=CH+r"""
int main(){ setup(2,""); FILE*f=fopen("g","w"); fprintf(f,"0 1 1 X\n1 0 0 0\n"); fclose(f); PG g=PG_read("g",0); return !(g->next[0][0]==1&&g->next[0][1]<0&&g->next[1][1]==0); }
"""),
dict(id='pgval-zero-floor',property='C29',edits=[('src/pg-eval.c','''  double max_sum = -1.0 * HUGE_VAL;
  double cur_sum;
  int cur_node, state;
''','''  double max_sum = 0.0;
  double cur_sum;
  int cur_node, state;
''')],needs='a policy graph whose value is negative at the belief',breaks='the reported value of the graph is zero instead of the best node value',c=CH+r'''
#include "pg-eval.h"
int main(){ setup(2,""); for(int a=0;a<2;a++) for(int s=0;s<2;s++) ; PG pg=PG_Constructor(1,gNumStates,gNumActions,gNumObservations); pg->action[0]=0; pg->next[0][0]=pg->next[0][1]=0; PgEvalContext c=PGEC_Constructor(); if(!PGE_evaluate(pg,c)) return 2; double b[2]={0.5,0.5}; int n; for(int s=0;s<2;s++) c->soln[s][0]=-c->soln[s][0]; double v=PGEC_val(c,b,&n); printf("%g %d\n",v,n); return !(fabs(v+10)<0.01&&n==0); }
'''),
dict(id='union-length',property='C30',edits=[('src/alpha.c','''    list->tail->next = other_list->head;
    list->tail = other_list->tail;
    list->length += other_list->length;
  }''','''    list->tail->next = other_list->head;
    if ( other_list->length > 1 )
      list->tail = list->tail->next->next;
    else
      list->tail = other_list->tail;
    list->length += other_list->length;
  }''')],needs='a union with a set of three or more vectors followed by an append',breaks='the tail pointer is wrong, so a later append drops vectors',c=CH+r'''
int main(){ setup(2,""); double v[2]={1,2}, w[8]={3,4,5,6,7,8,9,9}; AlphaList a=mk(v,1,2), b=mk(w,4,2); unionTwoAlphaLists(a,b); double*x=newAlpha(); x[0]=x[1]=7; appendAlphaList(a,x,0); int n=0; for(AlphaList p=a->head;p;p=p->next) n++; return !(n==6&&a->length==6); }
'''),
dict(id='random-int-max',property='C31',edits=[('src/random.c','(int) (fran() * (max - min + 1 ))','(int) (fran() * (max - min ) + 0.5 )')],needs='drawing many integers (each call still lies in the range)',breaks='the end points are drawn half as often as the other values',c=r'''
#include <stdio.h>
#include <stdlib.h>
#include "random.h"
extern int getRandomInt(int,int);
int main(){ unsigned short s[3]={1,2,3}; setRandomSeed(s); int c[4]={0}; for(int i=0;i<40000;i++) c[getRandomInt(0,3)]++; for(int i=0;i<4;i++) if(c[i]<9000||c[i]>11000){ printf("%d: %d\n",i,c[i]); return 1; } return 0; }
'''),
dict(id='neighbor-mark-dominated',property='C38',edits=[('src/neighbor.c','''        neighbor[i] 
          = node->alpha[i] - node->obs_source[z]->alpha[i]
          + proj_z->alpha[i];''','''        neighbor[i] 
          = node->alpha[i] - projection[z]->head->alpha[i]
          + proj_z->alpha[i];''')],needs='a vector whose choice for the observation is not the first projection vector',breaks='neighbours are not the vector with one choice exchanged',py='''
import random
random.seed(5); bad=0
for k in range(30):
    d=lambda n:(lambda x:[v/16 for v in x])((lambda c:[c[0]]+[c[i]-c[i-1] for i in range(1,len(c))]+[16-c[-1]])(sorted(random.sample(range(1,16),n-1))))
    m=M(3,2,2,0.9,[[d(3) for s in range(3)] for a in range(2)],[[d(2) for s in range(3)] for a in range(2)],[[random.randint(-8,8) for s in range(3)] for a in range(2)])
    with Run(m,'-method','witness','-horizon',3) as r:
        if r.rc or not check_value(m,3,r.alpha(),9): bad=1; print(k,r.out[-100:])
sys.exit(bad)
'''),
]
