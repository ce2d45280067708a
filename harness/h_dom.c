/* C12: domination check. */
#include "solve.h"
static const double BASE[3][4][3]={ {{4,0,1},{0,4,2},{2.5,2.5,2.25},{1,1,1}}, {{-1,-2,-3},{-3,-1,-2},{-2,-1.5,-2.5},{-4,-3,-3.5}}, {{2,2,2},{2.5,1.5,1},{1.5,2.5,2},{1.25,1.25,0.5}} };
void sym_harness(void){
  Model m; int S=sym_cfg("S",2), n=1+sym_choice("n",sym_cfg("N",3)), k=sym_cfg("K",3); double v[8][MS], b[MS];
  m_default(&m,S,2,2,1); const char*ex[]={"-enum_purge","domonly"}; PomdpSolveParams p=solve_setup(&m,ex,0);
  int base=sym_choice("base",3), rot=sym_choice("rot",n), tie=n>1?sym_choice("tie",3+S):0, stale=sym_choice("stale",2), how=sym_choice("how",3);
  for(int i=0;i<n;i++) for(int s=0;s<S;s++) v[i][s]=BASE[base][i][s];
  for(int j=0;j<k;j++){ int i=(rot+j/S)%n, s=j%S; v[i][s]=sym_real(nm3("v",i,s,0),-4,4); }
  if(tie==1) for(int s=0;s<S;s++) v[n-1][s]=v[rot%(n-1)][s];          /* duplicate */
  if(tie==2){ for(int s=0;s<S;s++) v[n-1][s]=v[0][s]; v[n-1][S-1]=v[0][S-1]-0.5; } /* equal in all but one state */
  if(tie>=3) v[n-1][tie-3]=v[rot%(n-1)][tie-3]; /* equal in one state only */
  int act[8]; for(int i=0;i<n;i++) act[i]=i;
  AlphaList l=mk_list(v,n,S,act); if(stale) markAllAlphaList(l); /* marks left over from an earlier operation */
  if(how==0){ int r=dominationCheck(l); sym_check(r==n-l->length,"number removed"); }
  else if(how==1) purgeAlphaList(l,purge_dom,p);
  else { /* building blocks used when vectors are added one at a time */
    AlphaList l2=newAlphaList();
    for(int i=0;i<n;i++){ if(dominatedAlphaList(v[i],l2)) continue; if(queryAlphaList(l2,v[i],1e-9)) continue; if(stale) markAllAlphaList(l2); removeDominatedAlphaList(v[i],l2); double*a=newAlpha(); for(int s=0;s<S;s++) a[s]=v[i][s]; appendAlphaList(l2,a,i); }
    l=l2; }
  int q=0; for(AlphaList x=l->head;x;x=x->next) q++;
  sym_check(q==l->length&&q>0,"length"); if(q==0) return;
  char c[8]="left0"; c[4]='0'+q; sym_cover(c);
  qbelief(b,S);
  for(int i=0;i<n;i++) check_not_above(v[i],l,b,S,1e-5,"envelope lowered");
  int seen[8]={0};
  for(AlphaList x=l->head;x;x=x->next){ int a=x->action; sym_check(a>=0&&a<n,"survivor is not one of the input vectors"); if(a<0||a>=n) continue; sym_check(!seen[a]++,"vector occurs twice"); for(int s=0;s<S;s++) sym_check_eq(x->alpha[s],v[a][s],0,"vector changed"); }
  for(AlphaList x=l->head;x;x=x->next) for(AlphaList y=l->head;y;y=y->next) if(x!=y){
    sym_vbegin(); for(int s=0;s<S;s++) sym_vge(x->alpha[s]-y->alpha[s],1e-5); sym_vcheck("survivor is below another survivor in every state"); }
  sym_observe("len",q);
}
