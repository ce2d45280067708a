CH=r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "mdp.h"
#include "global.h"
#include "pomdp.h"
#include "alpha.h"
#include "params.h"
#include "cmd-line.h"
#include "parsimonious.h"
#include "neighbor.h"
#include "region.h"
#include "pg.h"
#include "lp-interface.h"
extern void initPomdpSolve( PomdpSolveParams );
static PomdpSolveParams setup(int S,const char*extra){ FILE*f=fopen("m.pomdp","w"); fprintf(f,"discount: 0.9\nvalues: reward\nstates: %d\nactions: 2\nobservations: 2\n%sT: *\nidentity\nO: *\nuniform\nR: * : * : * : * 1.0\n",S,extra); fclose(f);
  static char*av[]={"pomdp-solve","-pomdp","m.pomdp","-stdout","rep","-o","out",0}; PomdpSolveParams p=parseCmdLineAndCfgFile(7,av); initPomdpSolve(p); return p; }
static AlphaList mk(double*v,int n,int S){ AlphaList l=newAlphaList(); for(int i=0;i<n;i++){ double*a=newAlpha(); memcpy(a,v+i*S,S*sizeof(double)); appendAlphaList(l,a,i%2); } return l; }
'''
M2="m=M(2,2,2,0.9,[[[0.75,0.25],[0.25,0.75]],[[0.5,0.5],[0.125,0.875]]],[[[0.5,0.5],[0.25,0.75]],[[0.625,0.375],[0.125,0.875]]],[[4,-2],[-1,3]])\n"
SEEDS=[
dict(id='unreached-state-unchecked',property='C02',edits=[('src/mdp/parser.c','''       for( j = 0; j < gNumStates; j++ ) {
	 sum = sumIMatrixRowValues( IR[a], j );
''','''       for( j = 0; j < gNumStates; j++ ) {
	 /* No observation is ever made in a state that cannot be entered. */
	 sum = 0.0;
	 for( i = 0; i < gNumStates; i++ ) {
	   I_Matrix_Row_Node e;
	   for( e = IP[a]->row[i]; e != NULL; e = e->next )
	     if( e->column == j )
	       sum += e->value;
	 }
	 if( sum <= 0.0 )
	   continue;
	 sum = sumIMatrixRowValues( IR[a], j );
''')],needs='a bad observation row for a state that the action never leads to',breaks='the file is accepted although an observation distribution does not sum to one',py='''
t="""discount: 0.9
values: reward
states: 2
actions: 1
observations: 2
T: 0
0 1
0 1
O: 0
0.25 0.25
0.5 0.5
R: * : * : * : * 1
"""
with Run(None,'-horizon',1,text=t) as r: sys.exit(0 if r.rc!=0 and not os.path.exists(r.d+'/out.alpha') else 1)
'''),
dict(id='obs-number-bound',property='C05',edits=[('src/mdp/parser.c','''                      || (yystack.l_mark[0].constBlk->theValue.theInt >= gNumObservations )) {
                      ERR_enter''','''                      || ((yystack.l_mark[0].constBlk->theValue.theInt >= gNumObservations )
                          && (yystack.l_mark[0].constBlk->theValue.theInt >= gNumStates ))) {
                      ERR_enter''')],needs='an observation given by a number outside the observations but inside the states',breaks='an out-of-range observation number is accepted',py='''
t="""discount: 0.9
values: reward
states: 3
actions: 1
observations: 2
T: 0
identity
O: 0
uniform
R: * : * : * : * 1
R: 0 : 0 : 0 : 2 5
"""
with Run(None,'-horizon',1,text=t) as r: sys.exit(0 if r.rc!=0 and not os.path.exists(r.d+'/out.alpha') else 1)
'''),
dict(id='crosssum-skip-equal',property='C15',edits=[('src/cross-sum.c','''    b = B->head;
    while ( b != NULL ) {

      /* This is where''','''    b = B->head;
    while ( b != NULL ) {

      /* Identical neighbours give identical sums. */
      while (( b->next != NULL ) && sameAlpha( b->alpha, b->next->alpha, 1e-12 ))
        b = b->next;

      /* This is where''')],needs='two equal vectors next to each other in the second list',breaks='a pairwise sum (and the choice it stands for) is missing',c=CH+r'''
#include "cross-sum.h"
int main(){ setup(2,""); double v[4]={1,2,3,4}, w[6]={5,6,5,6,7,8}; AlphaList a=mk(v,2,2), b=mk(w,3,2), c=crossSum(a,b,0); return c->length!=6; }
'''),
dict(id='save-over-longer-file',property='C27',edits=[('src/alpha.c','''   if ((file = fopen(filename , "w")) == NULL) {
     fprintf(gStdErrFile, 
             "** Error: The alpha vector file: %s cannot be opened.\\n",
             filename);
     return;''','''   if (( list->length == 0 )
       || ((file = fopen(filename , "r+")) == NULL ))
     file = fopen(filename , "w");

   if ( file == NULL ) {
     fprintf(gStdErrFile, 
             "** Error: The alpha vector file: %s cannot be opened.\\n",
             filename);
     return;''')],needs='saving a set over an existing, longer file',breaks='vectors of the old file remain behind the new ones',c=CH+r'''
int main(){ setup(2,""); double v[8]={1,2,3,4,5,6,7,8}; saveAlphaList(mk(v,4,2),"f"); saveAlphaList(mk(v,2,2),"f"); AlphaList l=readAlphaList("f",-1); return !(l&&l->length==2); }
'''),
dict(id='enum-abbreviation',property='C32',edits=[('src/program-options.c','''	 if ( strcmp( valid_values[i], found_str ) == 0 )
''','''	 if (( strlen( found_str ) > 2 )
		&& ( strncmp( valid_values[i], found_str, strlen( found_str )) == 0 ))
''')],needs='an option value that is a proper prefix of a valid one',breaks='an invalid value is accepted; two-letter valid values would be refused',py=M2+'''
with Run(m,'-horizon',1,'-method','wit') as r: a=r.rc
with Run(m,'-horizon',1,'-method','witness') as r: b=r.rc
print(a,b); sys.exit(0 if a!=0 and b==0 else 1)
'''),
dict(id='cfg-last-duplicate',property='C33',edits=[('src/associative-array.c','''		strcpy( assoc->values[i], value );
		return 0;''','''		if ( strlen( assoc->values[i] ) >= strlen( value ))
		  strcpy( assoc->values[i], value );
		else
		  strncpy( assoc->values[i], value, strlen( value ) - 1 );
		return 0;''')],needs='a key stored again with a longer value',breaks='the stored value is truncated',c=r'''
#include <stdio.h>
#include <string.h>
#include "associative-array.h"
int main(){ AssocArray a=AA_new(4,32); AA_put(a,"k","x"); AA_put(a,"j","y"); AA_put(a,"k","longer"); return strcmp(AA_get(a,"k"),"longer"); }
'''),
dict(id='rare-observation-belief',property='C08',edits=[('src/mdp/mdp.c','''         next_state = P[a]->col[j];

         pi_hat''','''         next_state = P[a]->col[j];

         /* Skip moves that cannot matter. */
         if( P[a]->mat_val[j] * getEntryMatrix( R[a], next_state, obs ) < 1e-4 )
            continue;

         pi_hat''')],needs='an observation that is rare after a rare move but the only explanation',breaks='the belief after a rare observation loses states, or the observation counts as impossible',py='''
t="""discount: 0.9
values: reward
states: 2
actions: 1
observations: 2
T: 0
0.995 0.005
0 1
O: 0
1 0
0.99 0.01
R: * : * : * : * 1
start: 1 0
"""
t=t.replace("start: 1 0\\n","").replace("states: 2\\nactions: 1\\nobservations: 2\\n","states: 2\\nactions: 1\\nobservations: 2\\nstart: 1 0\\n")
import subprocess
d=tempfile.mkdtemp(prefix='demo-')
try:
    open(d+'/m.pomdp','w').write(t)
    r=subprocess.run([BIN+'pomdp-tools','-tool','update_beliefs','-pomdp','m.pomdp'],cwd=d,input='0 1\\n',stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    print(r.stdout); L=[l for l in r.stdout.split('\\n') if l.startswith('[')]
    v=[float(x) for x in re.findall(r'[0-9.]+',L[1])] if len(L)>1 else []
    sys.exit(0 if len(v)==2 and abs(v[1]-1)<1e-6 else 1)
finally: shutil.rmtree(d)
'''),
dict(id='genip-loses-candidate',property='C16',edits=[('src/inc-prune.c','''      enqueueAlphaNode( search_list, cur_node );
      
      best_node''','''      if (( search_list->length < 2 )
          || ( ! SHOULD_DESTROY( compare_list )))
        enqueueAlphaNode( search_list, cur_node );
      
      best_node''')],needs='the restricted-region or generalised variant of incremental pruning and a candidate that is the best of the remaining vectors',breaks='a needed vector is dropped, so values are too low',py='''
import random
def case(k):
    r=random.Random(k); S=r.choice([2,3]);A=r.choice([2,3]);O=r.choice([2,3])
    def row(n):
        w=[r.choice([0,1,2,5,9]) for _ in range(n)]
        if not sum(w): w[0]=1
        q=sum(w); v=[round(x/q,3) for x in w]; v[v.index(max(v))]+=1-sum(v); return v
    return M(S,A,O,0.95,[[row(S) for _ in range(S)] for _ in range(A)],[[row(O) for _ in range(S)] for _ in range(A)],[[r.randint(-5,5) for _ in range(S)] for _ in range(A)])
bad=0
for k in (7,9,10,15):
    m=case(k)
    for ip in ('restricted_region','generalized'):
        with Run(m,'-method','incprune','-inc_prune',ip,'-horizon',4) as r, Run(m,'-method','enum','-horizon',4) as q:
            if r.rc or q.rc: print(r.out[-200:]); bad=1; continue
            for b in grid(m.S,10):
                if abs(env(r.alpha(),b)-env(q.alpha(),b))>1e-6: bad=1
sys.exit(bad)
'''),
dict(id='bellman-one-sided',property='C22',edits=[('src/common.c','''  if (( (( gMinimumImmediateReward >= 0.0 )
         && ( gValueType != COST_value_type ))
        || ( gRequireNonNegativeRewards ))
      && ( param->initial_policy == NULL ))
    return ( max_diff );
''','''  if ((( gMinimumImmediateReward >= 0.0 )
       && ( gValueType != COST_value_type )
       && ( param->initial_policy == NULL ))
      || ( gRequireNonNegativeRewards )
      || (( max_diff > 0.0 ) && ( prev_list->length == cur_list->length )))
    return ( max_diff );
''')],needs='value sets of the same size where the value falls more at one belief than it rises at another',breaks='the Bellman residual is too small, so value iteration stops early',c=CH+r'''
extern double bellmanError(AlphaList,AlphaList,PomdpSolveParams);
int main(){ PomdpSolveParams p=setup(2,""); gMinimumImmediateReward=-1; double v[4]={0,9,9,0}, w[4]={0,7,9.5,0}; double e=bellmanError(mk(v,2,2),mk(w,2,2),p); printf("%g\n",e); return !(fabs(e-2)<1e-6); }
'''),
dict(id='start-include-repeat',property='C04',edits=[('src/mdp/parser.c','''    prob = 0.0;
    for( i = 0; i < gNumStates; i++ )
      prob += gInitialBelief[i];
    if( prob <= 0.0 ) {''','''    prob = 0.0;
    for( i = 0; i < gNumStates; i++ ) {
      if(( curMatrixContext == mc_start_exclude )
	 && ( i + 1 == gNumStates ) && ( prob == 1.0 )) 
	gInitialBelief[i] = 0.0;
      prob += gInitialBelief[i];
    }
    if( prob <= 0.0 ) {''')],needs='excluding all but one of the states before the last',breaks='the last state is taken out of the start belief although it was not excluded',py='''
t="""discount: 0.9
values: reward
states: 3
actions: 1
observations: 1
start exclude: 0
T: 0
identity
O: 0
uniform
R: * : * : * : * 1
"""
import subprocess
d=tempfile.mkdtemp(prefix='demo-')
try:
    open(d+'/m.pomdp','w').write(t)
    r=subprocess.run([BIN+'pomdp-tools','-tool','update_beliefs','-pomdp','m.pomdp'],cwd=d,input='',stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    print(r.stdout); L=[l for l in r.stdout.split('\\n') if l.startswith('[')]; v=[float(x) for x in re.findall(r'[0-9.]+',L[0])]
    sys.exit(0 if abs(v[0])<1e-6 and abs(v[1]-0.5)<1e-6 else 1)
finally: shutil.rmtree(d)
'''),
dict(id='reset-keeps-old-entry',property='C01',edits=[('src/mdp/parser.c','''	for( j = 0; j < gNumStates; j++ )
	  addEntryToIMatrix( IP[a], i, j, gInitialBelief[j] );''','''	for( j = 0; j < gNumStates; j++ )
	  if(( gInitialBelief[j] > 0.0 ) || ( i < j ))
	    addEntryToIMatrix( IP[a], i, j, gInitialBelief[j] );''')],needs='a start belief with a zero entry and a reset over an earlier row that gave that state a probability',breaks='the earlier entry survives',py='''
t="""discount: 0.5
values: reward
states: 3
actions: 1
observations: 1
start: 0 0 1
T: 0
identity
T: 0 : 1 reset
O: 0
uniform
R: * : 0 : * : * 8
R: * : 2 : * : * 4
"""
with Run(None,'-horizon',2,text=t) as r:
    if r.rc: sys.exit(1)
    al=r.alpha(); sys.exit(0 if abs(al[0][1][1]-2)<1e-9 else 1)
'''),
dict(id='relink-sources-stop',property='C19',edits=[('src/common.c','''    for ( z = 0; z < gNumObservations; z++ )
      if ( list->obs_source[z] != NULL )
        list->obs_source[z] = list->obs_source[z]->prev_source;

    list = list->next;''','''    for ( z = 0; z < gNumObservations; z++ ) {
      if ( list->obs_source[z] == NULL )
        break;
      list->obs_source[z] = list->obs_source[z]->prev_source;
      /* An impossible observation: the rest has no source either. */
      if ( list->obs_source[z] == NULL ) {
        for ( z++; z < gNumObservations; z++ )
          list->obs_source[z] = NULL;
        break;
      }
    }

    list = list->next;''')],needs='an action with an impossible observation that is not the last one',breaks='plan edges of the observations after the impossible one are lost',py='''
t="""discount: 0.9
values: reward
states: 2
actions: 2
observations: 3
T: *
identity
O: 0
0.75 0 0.25
0.25 0 0.75
O: 1
0.5 0.25 0.25
0.25 0.25 0.5
R: 0 : 0 : * : * 1
R: 1 : 1 : * : * 1
"""
with Run(None,'-horizon',2,text=t) as r:
    g=r.pg(); print(g); sys.exit(0 if all(x[2]!='-' and x[4]!='-' and x[4]!='X' and (x[1]=='1' or x[3] in 'X-') for x in g) else 1)
'''),
dict(id='lp-bound-sense',property='C21',edits=[('src/lp-interface.c','''      if ( lp->sense[lp->matind[i]] == 'G' )
        row_sign = -1.0;''','''      if (( lp->sense[lp->matind[i]] == 'G' )
          && ( lp->rhs[lp->matind[i]] != 0.0 ))
        row_sign = -1.0;''')],needs='a >= row whose right-hand side is zero',breaks='the constraint is turned around',c=CH+r'''
#include "lp-interface.h"
int main(){ PomdpSolveParams p=setup(2,""); LP lp=LP_newLP(2,2,4); lp->objsen=-1; 
 lp->obj[0]=1; lp->obj[1]=0; lp->rhs[0]=1; lp->sense[0]='L'; lp->rhs[1]=0; lp->sense[1]='G';
 lp->matbeg[0]=0; lp->matcnt[0]=2; lp->matind[0]=0; lp->matval[0]=1; lp->matind[1]=1; lp->matval[1]=-1;
 lp->matbeg[1]=2; lp->matcnt[1]=2; lp->matind[2]=0; lp->matval[2]=1; lp->matind[3]=1; lp->matval[3]=1;
 for(int i=0;i<2;i++){ lp->lowbnd[i]=0; lp->upbnd[i]=INFBOUND; }
 int r=LP_solveLP(lp,NULL); printf("%d %g %g %g\n",r,lp->objval,lp->x[0],lp->x[1]); return !(r==LP_OPTIMAL&&fabs(lp->objval-0.5)<1e-6); }
'''),
]
