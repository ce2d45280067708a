/* C22: stopping criteria of exact value iteration. */
#include "solve.h"
extern double bellmanError( AlphaList, AlphaList, PomdpSolveParams );
extern double weakBound( AlphaList, AlphaList, double );
extern int meetStopCriteria( AlphaList, AlphaList, double *, PomdpSolveParams );
static const double BASE[3][4][3]={ {{4,0,1},{0,4,2},{2.5,2.5,2.25},{1,3.5,1}}, {{-1,-2,-3},{-3,-1,-2},{-1.75,-1.5,-2.5},{-1.5,-1.75,-1}}, {{2,2.25,2},{2.5,1.5,1},{1.5,2.5,2},{3,0,1}} };
/* is there a belief where v beats every vector of l by tol? (violation if so) */
static void not_above(double v[MS],AlphaList l,const double*b,int S,double tol,const char*msg){ double x=vdot(v,b,S); sym_vbegin(); for(int s=0;s<S;s++) sym_vge(b[s],0.0); for(AlphaList p=l->head;p;p=p->next) sym_vge(x-vdot(p->alpha,b,S),tol); sym_vcheck(msg); }
void sym_harness(void){
  Model m; int S=sym_cfg("S",2), n=sym_cfg("N",2), k=sym_cfg("K",2); double u[8][MS], v[8][MS], b[MS];
  m_default(&m,S,2,2,1);
  int crit=sym_cfg("CRIT",-1); if(crit<0) crit=sym_choice("crit",3); int sign=sym_choice("sign",4), base=sym_cfg("BASE",-1); if(base<0) base=sym_choice("base",3); int rot=sym_choice("rot",2*n), big=sym_choice("delta",3);
  static const char*CN[]={"exact","weak","bellman"}; static const char*DN[]={"1e-9","1.0","8.0"}; static const double DV[]={1e-9,1.0,8.0};
  const char*ex[12]; int ne=0; ex[ne++]="-stop_criteria"; ex[ne++]=CN[crit]; ex[ne++]="-stop_delta"; ex[ne++]=DN[big];
  if(sign==0) m.R[0][0]=-1;                           /* negative rewards */
  if(sign==1) m.cost=1;                               /* positive costs */
  if(sign==2){ ex[ne++]="-terminal_values"; ex[ne++]="/mem/tv.alpha"; sym_file_put("/mem/tv.alpha","0\n1.5 2.5 1.0 \n\n"); if(S==2) sym_file_put("/mem/tv.alpha","0\n1.5 2.5\n\n"); }
  /* sign==3: non-negative rewards from zero: values never decrease */
  for(int i=0;i<n;i++) for(int s=0;s<S;s++){ u[i][s]=BASE[base][i][s]; v[i][s]=u[i][s]+((sign==3)?0.03125*(1+s+i):0.25*(GEN(i+3*s)-0.5)); }
  for(int j=0;j<k;j++){ int i=(rot+j/S)%(2*n), s=j%S; if(i<n){ double d=(sign==3)?sym_real(nm3("d",i,s,0),0,1):0; u[i][s]=sym_real(nm3("u",i,s,0),-4,4); if(sign==3) v[i][s]=u[i][s]+d; } else { i-=n; v[i][s]=u[i][s]+((sign==3)?sym_real(nm3("d",i,s,0),0,2):sym_real(nm3("d",i,s,0),-2,2)); } }
  int nu=n, nv=n, drop=sym_choice("drop",3); if(drop==1&&sign!=3) nv=n-1; if(drop==2) nu=n-1;
  if(sym_choice("same",2)){ if(rot>=n){ return; } nv=nu=n; for(int i=0;i<n;i++) for(int s=0;s<S;s++) v[sym_cfg("REV",0)?n-1-i:i][s]=u[i][s]; }
  PomdpSolveParams p=solve_setup(&m,ex,ne);
  AlphaList pu=mk_list(u,nu,S,0), pv=mk_list(v,nv,S,0);
  if(crit==0) sortAlphaList(pu);
  double err=-5; int r=meetStopCriteria(pu,pv,&err,p); double thr=DV[big]*(1.0-0.9)/(2*0.9);
  sym_cover(r?(crit==0?"stop-exact":crit==1?"stop-weak":"stop-bellman"):"go"); qbelief(b,S);
  if(crit==0){ /* exact: both sets hold the same vectors */
    sym_check(pv->length==nv,"length"); int eq=(nu==nv); AlphaList y=pv->head; if(eq) for(AlphaList x=pu->head;x&&y;x=x->next,y=y->next) for(int s=0;s<S;s++){ if(sym_same(x->alpha[s],y->alpha[s])) continue; double d=fabs(x->alpha[s]-y->alpha[s]); if(d<1e-5) sym_prune(); eq=0; }
    sym_check(!r==!eq,r?"exact criterion met by different value functions":"exact criterion not met by identical value functions"); }
  else {
    if(err<1e6){ /* finite: bounds the change everywhere, both ways */
      for(int i=0;i<nv;i++) not_above(v[i],pu,b,S,err+1e-5,"value rises by more than the reported error");
      for(int i=0;i<nu;i++) not_above(u[i],pv,b,S,err+1e-5,"value falls by more than the reported error");
      sym_check_le(0.0,err,1e-9,"reported error is negative");
      if(r) sym_check_le(err,thr,1e-9,"stopped although the error exceeds the bound"); else sym_check_le(thr,err,1e-9,"not stopped although the error is within the bound");
      if(crit==2&&err>1e-4){ /* tight: some belief attains it */ int att=0; for(int i=0;i<nv;i++){ double bb[MS],d; if(findRegionPoint(v[i],pu,bb,&d,p)&&d>=err-1e-5) att=1; } for(int i=0;i<nu;i++){ double bb[MS],d; if(findRegionPoint(u[i],pv,bb,&d,p)&&d>=err-1e-5) att=1; } sym_check(att,"reported Bellman residual is not attained"); }
    } else { sym_check(!r,"stopped with an unbounded error"); sym_check(crit==1,"Bellman residual is infinite");
      /* the weak bound gives up only when some vector is farther than stop_delta from the other set */
      double far=0; for(int w=0;w<2;w++) for(int i=0;i<(w?nu:nv);i++){ double best=1e9; for(int j=0;j<(w?nv:nu);j++){ double d=0; for(int s=0;s<S;s++){ double x=fabs((w?u[i][s]:v[i][s])-(w?v[j][s]:u[j][s])); if(x>d) d=x; } if(d<best) best=d; } if(best>far) far=best; }
      sym_check_le(DV[big],far,1e-6,"weak bound is infinite although all vectors are close"); }
  }
  sym_observe("r",r); sym_observe("err",err<1e6?err:1e6);
}
