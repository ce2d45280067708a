/* C13: LP pruning of a vector set. */
#include "solve.h"
static const double BASE[4][5][3]={
 {{4,0,1},{0,4,2},{2.5,2.5,2.25},{1,1,1},{3,1.5,0}},
 {{4,0,3},{3,2,0},{2,3,1},{0,4,2},{1.5,1.5,3}},
 {{-1,-2,-3},{-3,-1,-2},{-2,-1.5,-2.5},{-1.5,-2.5,-1},{-4,-0.5,-1}},
 {{2,2,2},{2.5,1.5,1},{1.5,2.5,2},{3,0,1},{0,3,3}} };
void sym_harness(void){
  Model m; int S=sym_cfg("S",2), n=sym_cfg("N",4), k=sym_cfg("K",2), nb=sym_cfg("B",2), how=sym_cfg("HOW",0); double v[8][MS], b[MS];
  m_default(&m,S,2,2,1);
  const char*ex[8]; int ne=0; double eps=1e-9;
  if(how==1){ ex[ne++]="-prune_rand"; ex[ne++]="3"; }
  ex[ne++]="-dom_check"; ex[ne++]=how==2?"true":"false";
  if(how==3){ ex[ne++]="-prune_epsilon"; ex[ne++]="0.25"; eps=0.25; }
  PomdpSolveParams p=solve_setup(&m,ex,ne);
  int base=sym_choice("base",nb), rot=sym_choice("rot",n), mid=sym_cfg("MID",0), extra=(how==3)?0:mid?2:sym_choice("extra",2);
  for(int i=0;i<n;i++) for(int s=0;s<S;s++) v[i][s]=BASE[base][i][s];
  /* k symbolic entries, starting at vector rot */
  for(int j=0;j<k;j++){ int i=(rot+j/S)%n, s=j%S; v[i][s]=sym_real(nm3("v",i,s,0),-4,4); }
  if(extra==1){ for(int s=0;s<S;s++) v[n][s]=v[rot][s]; n++; }                       /* exact copy of a symbolic vector */
  if(extra==2){ for(int s=0;s<S;s++) v[n][s]=0.5*(v[rot][s]+v[(rot+1)%n][s]); n++; } /* never strictly best: midpoint of two others */
  int act[8]; for(int i=0;i<n;i++) act[i]=i;
  AlphaList l=mk_list(v,n,S,act);
  if(how==4){ purgeAlphaList(l,purge_prune,p); } else prune(l,how==3?purge_epsilon_prune:purge_prune,p);
  char c[16]="left0"; c[4]='0'+l->length; sym_cover(c);
  qbelief(b,S); double tol=(how==3)?eps+1e-4:1e-4;
  for(int i=0;i<n;i++) check_not_above(v[i],l,b,S,tol,how==3?"epsilon pruning lost more than the allowed precision":"pruning lost a maximal vector");
  int q1=0; for(AlphaList q=l->head;q;q=q->next){ q1++; check_vec_below(q->alpha,v,n,b,S,1e-4,"pruning raised the value"); sym_check(q->action>=0&&q->action<n,"survivor is not one of the input vectors"); if(q->action>=0&&q->action<n) for(int s=0;s<S;s++) sym_check_eq(q->alpha[s],v[q->action][s],0,"survivor changed"); }
  sym_check(q1==l->length&&q1>0,"length");
  if(how!=3){
    /* no survivor is useless: it is not below a convex combination of the other survivors */
    double lam[8]; static const char*ln[]={"l0","l1","l2","l3","l4","l5"};
    for(AlphaList x=l->head;x;x=x->next) if(q1>1){
      double comb[MS], rest=1; int j=0; for(int s=0;s<S;s++) comb[s]=0;
      for(AlphaList y=l->head;y;y=y->next) if(y!=x){ int last=1; for(AlphaList z=y->next;z;z=z->next) if(z!=x) last=0; lam[j]=last?rest:sym_qvar(ln[j],0,1); rest=rest-lam[j]; for(int s=0;s<S;s++) comb[s]+=lam[j]*y->alpha[s]; j++; }
      sym_vbegin(); sym_vge(lam[j-1],0); for(int s=0;s<S;s++) sym_vge(comb[s]-x->alpha[s],1e-4); sym_vcheck("a vector that is nowhere best was kept"); }
    int nr=0,nx=0; for(AlphaList x=l->head;x;x=x->next){ if(x->action==rot) nr++; if(x->action==n-1) nx++; }
    if(extra==1) sym_check(nr+nx<=1,"duplicate vector kept");
    if(extra==2){ int other=0; for(int s=0;s<S;s++) if(!sym_same(v[rot][s],v[(rot+1)%(n-1)][s])) other=1; if(other) sym_check(nx==0,"vector that is a convex combination of two others was kept"); }
  }
  sym_observe("len",l->length);
}
