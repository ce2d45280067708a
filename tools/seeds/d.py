import runpy,os
_c=runpy.run_path('/verif/tools/seeds/c.py'); CH=_c['CH']
SEEDS=[
dict(id='impossible-obs-cost',property='C14',edits=[('src/projection.c',"""      alpha[cur_state] 
        = getAdjustedReward( a, cur_state ) 
        / ((double) gNumObservations);
    
    /* Make sure""","""      alpha[cur_state] 
        = getEntryMatrix( Q, a, cur_state ) 
        / ((double) gNumObservations);
    
    /* Make sure""")],needs='a cost model with an observation that is impossible for some action',breaks='part of the immediate cost is counted as a reward',py="""
m=M(2,2,2,0.5,[[[0.75,0.25],[0.25,0.75]],[[0.5,0.5],[0.125,0.875]]],[[[1,0],[1,0]],[[0.625,0.375],[0.125,0.875]]],[[4,2],[1,3]],cost=True)
m2=M(2,2,2,0.5,m.T,m.Z,[[-4,-2],[-1,-3]])
with Run(m,'-horizon',2) as r, Run(m2,'-horizon',2) as q: sys.exit(0 if r.rc==0 and q.rc==0 and len(r.alpha())==len(q.alpha()) and all(abs(x-y)<1e-6 for (_,u),(_,v) in zip(r.alpha(),q.alpha()) for x,y in zip(u,v)) and check_value(m2,2,q.alpha()) else 1)
"""),
dict(id='mdp-write-digits',property='C10',edits=[('src/mdp/mdp.c','''	fprintf( file, "R: %d : %d : * : * %.6lf\\n",
		a, Q->col[i], Q->mat_val[i] );''','''	fprintf( file, "R: %d : %d : * : * %.6lg\\n",
		a, Q->col[i], Q->mat_val[i] );''')],needs='an expected reward with more than six significant digits',breaks='the written model has rounded rewards',c=CH+r'''
int main(){ FILE*f=fopen("m.pomdp","w"); fprintf(f,"discount: 0.9\nvalues: reward\nstates: 2\nactions: 1\nobservations: 2\nT: *\nidentity\nO: *\nuniform\nR: * : 0 : * : * 1234.5625\nR: * : 1 : * : * -3\n"); fclose(f);
 if(!readMDP("m.pomdp")) return 1; if(!writeMDP("n.pomdp")) return 1; deallocateMDP(); if(!readMDP("n.pomdp")) return 1;
 printf("%g %g\n",getEntryMatrix(Q,0,0),getEntryMatrix(Q,0,1)); return !(fabs(getEntryMatrix(Q,0,0)-1234.5625)<1e-9&&fabs(getEntryMatrix(Q,0,1)+3)<1e-9); }
'''),
dict(id='adjustable-stop-delta',property='C17',edits=[('src/pomdp-solve.c','''    /* Note that we do not adjust the weka bound stoping criteria
       because we do not want to have value iteration end prematurely
       due to a coarse epsilon */
''','''    /* Differences below the precision in use cannot be told apart, so
       there is no use asking for less in the stopping criteria. */
    param->stop_delta = Max( param->stop_delta, param->epsilon );
''')],needs='the adjustable epsilon variation with a starting epsilon above the stopping delta',breaks='value iteration stops at the accuracy of the starting epsilon, not of the requested delta',py='''
m=M(2,1,2,0.5,[[[0.75,0.25],[0.25,0.75]]],[[[0.5,0.5],[0.25,0.75]]],[[4,2]])
with Run(m,'-vi_variation','adjustable_epsilon','-start_epsilon',0.5,'-end_epsilon','1e-9','-stop_delta','1e-4','-stop_criteria','weak') as r, Run(m,'-horizon',60) as q:
    if r.rc or q.rc: sys.exit(1)
    e=max(abs(env(r.alpha(),b)-env(q.alpha(),b)) for b in grid(2,20)); print(e); sys.exit(0 if e<1e-3 else 1)
'''),
dict(id='save-all-unsorted',property='C18',edits=[('src/pomdp-solve.c','''    if ( param->save_all == TRUE ) {
	 sortAlphaList( next_alpha_list );
	 handleSaveAll( next_alpha_list, param );
    }''','''    /* The list gets sorted further down anyway. */
    if ( param->save_all == TRUE )
	 handleSaveAll( next_alpha_list, param );''')],needs='-save_all and an epoch whose vectors do not come out numbered in order',breaks='the per-epoch policy graph numbers its nodes out of step with the vectors of the per-epoch solution file',py='''
bad=0
for meth in ('enum','twopass','witness','incprune'):
    m=M(2,2,2,0.9,[[[0.75,0.25],[0.25,0.75]],[[0.5,0.5],[0.125,0.875]]],[[[0.5,0.5],[0.25,0.75]],[[0.625,0.375],[0.125,0.875]]],[[4,-2],[-1,3]])
    with Run(m,'-horizon',3,'-save_all','true','-method',meth) as r:
        if r.rc: sys.exit(1)
        for n in (1,2,3):
            al=read_alpha(r.d+'/out.alpha%d'%n); g=read_pg(r.d+'/out.pg%d'%n)
            if [int(x[0]) for x in g]!=list(range(len(al))) or [int(x[1]) for x in g]!=[a for a,_ in al] or [v for _,v in al]!=sorted(v for _,v in al): bad=1
sys.exit(bad)
'''),
dict(id='region-value-cap',property='C20',edits=[('src/region.c','''  for( i = gNumStates; i < lp->cols; i++ ) {
    lp->lowbnd[i] = 0.0;
    lp->upbnd[i] = INFBOUND;
  } /* for i */''','''  for( i = gNumStates; i < lp->cols; i++ ) {
    lp->lowbnd[i] = 0.0;
    /* A vertex far out only hurts the numerical stability. */
    lp->upbnd[i] = ( i == gNumStates ) ? INFBOUND : 10000.0;
  } /* for i */''')],needs='vectors whose values exceed 10000',breaks='a vector is reported to have no region where it is best',py='''
m=M(2,3,2,0.5,[[[1,0],[0,1]]]*3,[[[0.75,0.25],[0.25,0.75]]]*3,[[30000,10],[20,40000],[26000,26000]])
with Run(m,'-horizon',1) as r: sys.exit(0 if r.rc==0 and check_value(m,1,r.alpha()) else 1)
'''),
dict(id='backup-same-size',property='C26',edits=[('src/pomdp-solve.c','''    saveAlphaList( next_alpha_list, param->backup_file ); 
''','''    if (( param->cur_epoch == 1 )
	   || ! sameAlphaList( next_alpha_list, prev_alpha_list, 
					   param->stop_delta ))
	 saveAlphaList( next_alpha_list, param->backup_file ); 
''')],needs='an epoch that changes the vectors by less than the stopping delta, then a death in the next one',breaks='the backup file holds an older value function than that of the last completed epoch',c=CH+r'''
#include "pomdp-solve.h"
static char bk[300]; static char last[4096]; 
/* stands in for the removal of the backup file: keeps what it held then */
int unlink(const char*f){ if(!strcmp(f,bk)){ FILE*g=fopen(f,"r"); int n=g?fread(last,1,sizeof last-1,g):0; last[n]=0; if(g) fclose(g); } return remove(f); }
int main(){ FILE*f=fopen("m.pomdp","w"); fprintf(f,"discount: 0.5\nvalues: reward\nstates: 2\nactions: 1\nobservations: 1\nT: *\nidentity\nO: *\nuniform\nR: * : * : * : * 1.0\n"); fclose(f);
 static char*av[]={"pomdp-solve","-pomdp","m.pomdp","-stdout","rep","-o","out","-horizon","3","-stop_delta","0.4","-stop_criteria","exact",0}; PomdpSolveParams q=parseCmdLineAndCfgFile(13,av); initPomdpSolve(q); strcpy(bk,q->backup_file);
 solvePomdp(q); FILE*g=fopen("out.alpha","r"); static char b[4096]; int n=g?fread(b,1,sizeof b-1,g):0; b[n]=0; printf("%s--\n%s",last,b); return strcmp(last,b)||n==0; }
'''),

dict(id='belief-find-sum',property='C34',edits=[('src/belief.c',"""  for (i = 0; i < gNumStates; i++)
    if ( ! Equal( b1[i], b2[i], epsilon ))
      return (FALSE);
  
  return (TRUE);""","""  /* The last component follows from the others. */
  for (i = 0; i < gNumStates - 1; i++)
    if ( ! Equal( b1[i], b2[i], epsilon ))
      return (FALSE);
  
  return (TRUE);""")],needs='beliefs over three or more states whose small differences add up in the last state',breaks='a belief is found that differs by more than the tolerance',c=CH+r"""
#include "belief.h"
int main(){ gNumStates=3; double a[3]={0.25,0.25,0.5},b[3]={0.25+0.0625,0.25+0.0625,0.375},c[3]={0.25,0.25+0.0625,0.5-0.0625}; BeliefList l=NULL; l=appendBeliefList(l,a); l=appendBeliefList(l,c);
 if(findBeliefState(l,b,0.07)!=l->next) return 1; return 0; }
"""),
dict(id='dv-similar-one-way',property='C35',edits=[('src/double-vector.c',"""  node = list2->head;
  while( node != NULL ) {

    if ( ! DV_queryList( list1, node->v, epsilon ))
      return ( FALSE );
    
    node = node->next;
  } /* while */
  
  return ( TRUE );
}  /* DV_isSimilaraList */""","""  /* The lists have the same length, so only the last one of the other
     list could have been missed. */
  if (( list2->tail != NULL )
      && ! DV_queryList( list1, list2->tail->v, epsilon ))
    return ( FALSE );
  
  return ( TRUE );
}  /* DV_isSimilaraList */""")],needs='a first list with a repeated vector and a second with an extra vector that is not its last',breaks='lists with different vectors count as similar',c=CH+r"""
#include "/repo/_build/tree/src/double-vector.c"
static DoubleVector v(double a){ DoubleVector x=DV_new(); for(int i=0;i<gNumStates;i++) x[i]=a+i; return x; }
int main(){ gNumStates=2; DoubleVectorList p=DV_newList(NULL),q=DV_newList(NULL); DV_appendList(p,v(1),NULL); DV_appendList(p,v(1),NULL); DV_appendList(q,v(5),NULL); DV_appendList(q,v(1),NULL);
 return DV_isSimilaraList(p,q,1e-6)||!DV_isSimilaraList(p,p,1e-6); }
"""),
dict(id='pgeval-selfloop-overwrite',property='C29',edits=[('src/pg-eval.c',"""      /* Accumulate, not just asign value! */
      coef[col] -= gDiscount""","""      /* Staying in the node and the state is the main variable. */
      if ( col == node + state * pg->num_nodes )
        coef[col] = 1.0;

      /* Accumulate, not just asign value! */
      coef[col] -= gDiscount""")],needs='a node that two observations lead back to',breaks='the value of a policy graph with such a node is wrong',py="""
m=M(2,1,2,0.5,[[[0.75,0.25],[0.25,0.75]]],[[[0.5,0.5],[0.25,0.75]]],[[4,-2]])
with Run(m,'-tool','pg_eval','-pomdp','m.pomdp','-pg1','g',files={'g':'0 0  0 0\\n'},tool='pomdp-tools') as r:
    # V0=4+.5(.75V0+.25V1), V1=-2+.5(.25V0+.75V1)
    import re
    a=1-0.375; d=a*a-0.125**2; v0=(4*a-2*0.125)/d; v1=(-2*a+4*0.125)/d
    x=[float(t) for t in re.findall(r'-?\\d+\\.\\d+',r.out)]; print(r.out,v0,v1)
    sys.exit(0 if r.rc==0 and any(abs(t-(v0+v1)/2)<0.02 or abs(t-v0)<0.02 for t in x) else 1)
"""),
dict(id='option-first-bound-only',property='C32',edits=[('src/program-options.c',"""  *ret_value = strtod( found_str, &end_ptr );
  if (( end_ptr == found_str ) || ( *end_ptr != '\\0' )""","""  *ret_value = strtod( found_str, &end_ptr );

  /* Allow for blanks at the end. */
  end_ptr += strspn( end_ptr, " ,;" );
  if (( end_ptr == found_str ) || ( *end_ptr != '\\0' )""")],needs='a number followed by a comma, as in -epsilon 0,',breaks='a malformed number is accepted',py="""
m=M(2,1,2,0.5,[[[0.75,0.25],[0.25,0.75]]],[[[0.5,0.5],[0.25,0.75]]],[[4,-2]])
with Run(m,'-horizon',1,'-stop_delta','0.25,') as r: sys.exit(0 if r.rc!=0 and not os.path.exists(r.d+'/out.alpha') else 1)
"""),

dict(id='compare-stale-maximal',property='C07',edits=[('src/utils.c',"""		    maximal_idx_list[0] = b_num;
		    maximal_idx_list[1] = -1;""","""		    maximal_idx_list[0] = b_num;
		    if ( b_num == 0 )
			 maximal_idx_list[1] = -1;""")],needs='two beliefs with the same difference followed by one with a larger difference',breaks='the report lists a belief as one of maximal difference that is not',py="""
A='0\\n0.0 0.0\\n\\n'; B='0\\n1.0 3.0\\n\\n'
with Run(None,'-tool','belief_alpha_compare','-states',2,'-alpha1','a','-alpha2','b','-belief','g','-o','rep',text='',files={'a':A,'b':B,'g':'1.0 0.0\\n1.0 0.0\\n0.0 1.0\\n'},tool='pomdp-tools') as r:
    t=open(r.d+'/rep').read(); l=[x for x in t.split('\\n') if 'with maximal diffs' in x][0]; print(l); sys.exit(0 if re.findall(r'\\d+',l)==['2'] else 1)
"""),
dict(id='tracker-base-prefix',property='C09',edits=[('src/utils.c',"""	 action = strtol( line, &post_action_ptr, 10 );""","""	 action = strtol( line, &post_action_ptr, 0 );""")],needs='a line whose first number starts with 0x or 0, such as 0x1 0',breaks='a malformed line changes the belief',py="""
m=M(2,2,2,0.9,[[[0.75,0.25],[0.25,0.75]],[[0.5,0.5],[0.125,0.875]]],[[[0.5,0.5],[0.25,0.75]],[[0.625,0.375],[0.125,0.875]]],[[4,-2],[-1,3]])
d=tempfile.mkdtemp(prefix='demo-'); open(d+'/m.pomdp','w').write(m.text())
o=subprocess.run([BIN+'pomdp-tools','-tool','update_beliefs','-pomdp','m.pomdp'],cwd=d,input='0x1 0\\nexit\\n',stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,timeout=60).stdout; shutil.rmtree(d); print(o)
sys.exit(0 if '[]' in o else 1)
"""),
dict(id='witness-drops-item',property='C16',edits=[('src/witness.c',"""      else
        /* We have to add all its neighbors to the agenda. Note that
           this will do nothing if node == NULL. */
        addAllNeighbors( agenda, node, projection, 
                         param->domination_check,
                         param->alpha_epsilon );
""","""      else {
        /* We have to add all its neighbors to the agenda. Note that
           this will do nothing if node == NULL. */
        addAllNeighbors( agenda, node, projection, 
                         param->domination_check,
                         param->alpha_epsilon );

        /* The new vector takes the place of this item. */
        cur_agenda_item->mark = TRUE;
      }
""")],needs='a neighbour that is a witness for more than one missing vector',breaks='the witness method loses vectors',py="""
import random
def check(seed):
    rn=random.Random(seed)
    def dist(n):
        c=[rn.randint(0,8) for _ in range(n)]; k=sum(c)
        if not k: c[0]=k=1
        return [x/k for x in c]
    S=rn.choice((2,3,3)); O=rn.choice((2,3)); A=2
    m=M(S,A,O,0.9,[[dist(S) for _ in range(S)] for _ in range(A)],[[dist(O) for _ in range(S)] for _ in range(A)],[[rn.randint(-10,10) for _ in range(S)] for _ in range(A)])
    with Run(m,'-horizon',4,'-method','witness','-witness_points','false') as r, Run(m,'-horizon',4,'-method','enum') as q:
        return not(r.rc==0 and q.rc==0 and all(abs(env(r.alpha(),b)-env(q.alpha(),b))<1e-4 for b in grid(S,24)))
for s in range(60):
    if check(s): print('seed',s); sys.exit(1)
sys.exit(0)
"""),
]
