/* C11: best vector at a belief. */
#include "solve.h"
static const double BASE[3][4][3]={ {{4,0,1},{0,4,2},{2.5,2.5,2.25},{1,1,1}}, {{-1,-2,-3},{-3,-1,-2},{-2,-1.5,-2.5},{-1.5,-2.5,-1}}, {{2,2,2},{2.5,1.5,1},{1.5,2.5,2},{3,0,1}} };
static AlphaList pick(int how,AlphaList l,double*b,double*val,double eps){
  AlphaList r=0; *val=0;
  if(how==0) r=bestVector(l,b,val,eps);
  else if(how==1) *val=bestVectorValue(l,b,&r,eps);
  else r=bestVectorPrimed(l,b,val,-1e6,eps);
  return r; }
void sym_harness(void){
  Model m; int S=sym_cfg("S",3), n=sym_cfg("N",3), k=sym_cfg("K",3); double v[8][MS], b[MS], val;
  m_default(&m,S,2,2,1); solve_setup(&m,0,0);
  int mode=sym_choice("mode",5), base=sym_choice("base",3), how=sym_choice("how",3);
  for(int i=0;i<n;i++) for(int s=0;s<S;s++) v[i][s]=BASE[base][i][s];
  int act[8]; for(int i=0;i<n;i++) act[i]=i;
  double rest=1; for(int s=0;s<S-1;s++){ b[s]=sym_real(nm3("b",s,0,0),0,1); rest=rest-b[s]; } b[S-1]=rest; sym_assume_ge(rest,0);
  if(mode==0) for(int j=0;j<k;j++) v[j%n][j/n]=sym_real(nm3("v",j%n,j/n,0),-4,4);
  if(mode==1){ /* exact ties at a corner, symbolic elsewhere */
    int c=sym_choice("corner",S); for(int s=0;s<S;s++) b[s]=(s==c); for(int i=0;i<n;i++) v[i][c]=1.5;
    int o=(c+1)%S; for(int i=0;i<n;i++) v[i][o]=sym_real(nm3("v",i,o,0),-4,4); }
  if(mode==2){ /* duplicates of one symbolic vector */
    for(int s=0;s<S;s++){ v[0][s]=sym_real(nm3("v",0,s,0),-4,4); for(int i=1;i<n;i++) v[i][s]=v[0][s]; } }
  if(mode==3){ /* tie on a symbolic edge belief: equal in the first two states, last differs, belief has no mass there */
    for(int i=0;i<n;i++) for(int s=0;s<S-1;s++) v[i][s]=v[0][s]; for(int i=0;i<n;i++) v[i][S-1]=sym_real(nm3("v",i,S-1,0),-4,4); b[S-1]=0; if(S>1){ double r=1; for(int s=0;s<S-2;s++) r=r-b[s]; b[S-2]=r; sym_assume_ge(r,0);} }
  if(mode==4){ /* large negative values (costs) */ for(int j=0;j<k;j++) v[j%n][j/n]=sym_real(nm3("v",j%n,j/n,0),-100000,-1000); }
  AlphaList l=mk_list(v,n,S,act);
  AlphaList r=pick(how,l,b,&val,1e-9);
  sym_check(r!=0,"no best vector of a non-empty set"); if(!r) return;
  int idx=-1,q=0; for(AlphaList p=l->head;p;p=p->next,q++) if(p==r) idx=q;
  sym_check(idx>=0&&r->action==idx,"result is not a member"); if(idx<0) return;
  char c[8]="i0"; c[1]='0'+idx; sym_cover(c);
  sym_check_eq(val,vdot(v[idx],b,S),1e-6,"reported value is not the vector's value at the belief");
  for(int i=0;i<n;i++) sym_check_le(vdot(v[i],b,S),val,1e-6,"another vector is better at the belief");
  /* order independence: every rotation and the reversal choose a vector of the same values */
  for(int rot=1;rot<=n;rot++){ double w[8][MS], v2; for(int i=0;i<n;i++) for(int s=0;s<S;s++) w[i][s]=v[rot==n?n-1-i:(i+rot)%n][s];
    AlphaList l2=mk_list(w,n,S,0); AlphaList r2=pick(how,l2,b,&v2,1e-9);
    if(!r2){ sym_check(0,"no best vector after reordering"); continue; }
    sym_check_eq(v2,val,1e-6,"value depends on the order of the set");
    if(mode==1||mode==2||mode==3) for(int s=0;s<S;s++) sym_check_eq(r2->alpha[s],r->alpha[s],1e-5,"tie broken differently after reordering"); }
  if(mode==1||mode==3){ /* ties: lexicographically largest wins */
    for(int i=0;i<n;i++) for(int s=0;s<S;s++) if(!sym_same(v[i][s],r->alpha[s])){ sym_check_le(v[i][s],r->alpha[s],1e-5,"tie not broken towards the lexicographically larger vector"); break; } }
  sym_observe("val",val); sym_observe("idx",idx);
}
