/* C20: region search. */
#include "solve.h"
static const double BASE[4][5][3]={
 {{4,0,1},{0,4,2},{2.5,2.5,2.25},{1,1,1},{3,1.5,0}},
 {{4,0,3},{3,2,0},{2,3,1},{0,4,2},{1.5,1.5,3}},
 {{-1,-2,-3},{-3,-1,-2},{-2,-1.5,-2.5},{-1.5,-2.5,-1},{-4,-0.5,-1}},
 {{2,2,2},{2.5,1.5,1},{1.5,2.5,2},{3,0,1},{0,3,3}} };
/* large magnitudes: a grid, since vectors that agree to nine digits are beyond the precision of the LP */
static double SCALE; static double val(const char*nm){ return SCALE>1?SCALE*(sym_choice(nm,9)-4):sym_real(nm,-4,4); }
void sym_harness(void){
  Model m; int S=sym_cfg("S",2), n=sym_cfg("N",3), k=sym_cfg("K",2), nb=sym_cfg("B",3); double sc=sym_cfg("SC",1), tl=1e-4*sc, tw=1e-6*sc, v[8][MS], a[MS], b[MS], w[MS], diff=-7;
  SCALE=sc; m_default(&m,S,2,2,1);
  const char*ex[8]; int ne=0; double eps=1e-9; int E=sym_choice("eps",2);
  if(E){ ex[ne++]="-epsilon"; ex[ne++]="0.25"; eps=0.25; }
  PomdpSolveParams p=solve_setup(&m,ex,ne); p->epsilon=eps;
  int base=sym_choice("base",nb), mode=sym_choice("mode",5), rot=sym_choice("rot",n);
  for(int i=0;i<n;i++) for(int s=0;s<S;s++) v[i][s]=sc*BASE[base][i][s];
  for(int s=0;s<S;s++) a[s]=sc*(BASE[base][n<5?n:0][s]+(n<5?0:0.5));
  AlphaList l;
  if(mode==4){ l=newAlphaList(); int r=findRegionPoint(a,l,w,&diff,p); sym_check(r!=0,"no point found against an empty set"); if(!r) return; double t=0; for(int s=0;s<S;s++){ sym_check(w[s]>=0,"witness negative"); t+=w[s]; } sym_check_eq(t,1.0,1e-9,"witness does not sum to one"); return; }
  if(mode==0||mode==3) for(int s=0;s<S&&s<k;s++) a[s]=val(nm3("a",s,0,0));
  if(mode==1) for(int j=0;j<k;j++) v[(rot+j/S)%n][j%S]=val(nm3("v",(rot+j/S)%n,j%S,0));
  if(mode==2){ a[0]=val("a0"); for(int j=0;j<k-1;j++) v[rot][j%S]=val(nm3("v",rot,j%S,0)); }
  if(mode==3) for(int s=0;s<S;s++) v[n-1][s]=v[rot%(n-1)][s]; /* repeated vector in the set */
  l=mk_list(v,n,S,0);
  for(int s=0;s<S;s++) w[s]=-9;
  int r=findRegionPoint(a,l,w,&diff,p);
  sym_cover(r?"found":"none"); sym_check(l->length==n,"set modified");
  qbelief(b,S);
  if(r){
    double t=0; for(int s=0;s<S;s++){ sym_check_le(-w[s],0,tw,"witness has a negative entry"); t+=w[s]; } sym_check_eq(t,1.0,tw,"witness is not a distribution");
    double x=vdot(a,w,S); for(int i=0;i<n;i++) sym_check_le(vdot(v[i],w,S)+diff,x,tl,"vector is not better at the witness by the reported amount");
    sym_check_le(eps,diff,1e-6,"reported advantage below the precision");
    double y=vdot(a,b,S); sym_vbegin(); for(int s=0;s<S;s++) sym_vge(b[s],0.0); for(int i=0;i<n;i++) sym_vge(y-vdot(v[i],b,S),diff+tl); sym_vcheck("witness is not the point of largest advantage");
  } else {
    double y=vdot(a,b,S); sym_vbegin(); for(int s=0;s<S;s++) sym_vge(b[s],0.0); for(int i=0;i<n;i++) sym_vge(y-vdot(v[i],b,S),eps+tl); sym_vcheck("no region reported although the vector is strictly best somewhere"); }
  sym_observe("found",r); if(r){ sym_observe("diff",diff); }
}
