/* C21: the LP layer over the bundled simplex code. */
#include "solve.h"
#include "lp-interface.h"
#define MV 4
#define MR 4
static void small(double d){ if(sym_native||sym_is_const(d)) return; if(fabs(d)<0.02) sym_prune(); }
void sym_harness(void){
  Model m; int nv=sym_cfg("V",2),nr=sym_cfg("R",2),k=sym_cfg("K",2); double A[MR][MV],c[MV],b[MR],lo[MV],up[MV]; char sn[MR]; int inf[MV];
  m_default(&m,2,2,2,1); PomdpSolveParams p=solve_setup(&m,0,0);
  static const double TA[]={1.0,0.5,-0.75,1.25,0.625,-1.0,0.875,1.5,-0.5,0.375,1.125,-1.25}, TC[]={1.0,0.75,-0.5,1.375}, TB[]={1.0,0.625,-0.25,1.5};
  int sh=sym_choice("shape",sym_cfg("SH",3)), mx=sym_choice("max",2), zr=sym_cfg("Z",0)?sym_choice("zero",nv*nr+1)-1:-1;
  for(int i=0;i<nr;i++){ for(int j=0;j<nv;j++) A[i][j]=TA[(i*nv+j+5*sh)%12]; b[i]=TB[(i+sh)%4]; static const char SN[]="LGE"; sn[i]=SN[sym_choice(nm3("sense",i,0,0),3)]; }
  for(int j=0;j<nv;j++){ c[j]=TC[(j+sh)%4]; int w=sym_choice(nm3("bnd",j,0,0),sym_cfg("BD",4)); lo[j]=w==2?0.25:w==3?-0.5:0; up[j]=w==0?1:w==2?0.75:w==3?2:INFBOUND; inf[j]=(w==1); }
  int zb=sym_cfg("ZB",0)?sym_choice("zerorhs",nr):-1; if(zb>=0){ b[zb]=0; if(sym_choice("zeroobj",2)) c[zb%nv]=0; }
  int fo=sym_choice("focus",4);
  if(fo==0) for(int j=0;j<k&&j<nv;j++) c[j]=sym_real(nm3("c",j,0,0),-2,2);
  if(fo==1) for(int i=0;i<k&&i<nr;i++) if(i!=zb) b[i]=sym_real(nm3("b",i,0,0),-2,2);
  if(fo==2){ A[0][0]=sym_real("a0",-2,2); if(k>1&&zb!=nr-1) b[nr-1]=sym_real("b0",-2,2); }
  if(fo==3){ A[nr-1][nv-1]=sym_real("a0",-2,2); if(k>1) c[0]=sym_real("c0",-2,2); }
  if(fo>=2){ /* ill-conditioned bases are outside the bounds: every 1x1, 2x2, 3x3 minor with the symbolic coefficient is zero or at least 0.02 */
    int ri=fo==2?0:nr-1, ci=fo==2?0:nv-1; small(A[ri][ci]);
    for(int i=0;i<nr;i++) for(int j=0;j<nv;j++) if(i!=ri&&j!=ci){ small(A[ri][ci]*A[i][j]-A[ri][j]*A[i][ci]);
      for(int e=i+1;e<nr;e++) for(int f=j+1;f<nv;f++) if(e!=ri&&f!=ci) small(A[ri][ci]*(A[i][j]*A[e][f]-A[i][f]*A[e][j])-A[ri][j]*(A[i][ci]*A[e][f]-A[i][f]*A[e][ci])+A[ri][f]*(A[i][ci]*A[e][j]-A[i][j]*A[e][ci])); } }
  if(zr>=0) A[zr/nv][zr%nv]=0;
  int nz=0; for(int i=0;i<nr;i++) for(int j=0;j<nv;j++) if(!(sym_is_const(A[i][j])&&A[i][j]==0)) nz++;
  LP lp=LP_newLP(nr,nv,nz); lp->objsen=mx?MAXIMIZE:MINIMIZE; int q=0;
  for(int j=0;j<nv;j++){ lp->obj[j]=c[j]; lp->lowbnd[j]=lo[j]; lp->upbnd[j]=up[j]; lp->matbeg[j]=q; for(int i=0;i<nr;i++) if(!(sym_is_const(A[i][j])&&A[i][j]==0)){ lp->matind[q]=i; lp->matval[q]=A[i][j]; q++; } lp->matcnt[j]=q-lp->matbeg[j]; }
  for(int i=0;i<nr;i++){ lp->rhs[i]=b[i]; lp->sense[i]=sn[i]; }
  int st=LP_solveLP(lp,p->stat);
  static const char*qn[]={"qy0","qy1","qy2","qy3"}, *ln[]={"ql0","ql1","ql2","ql3"};
  double y[MV],l[MR]; for(int j=0;j<nv;j++) y[j]=sym_qvar(qn[j],-1,10);
  if(st==LP_OPTIMAL){ sym_cover("optimal"); double o=0,oy=0;
    for(int j=0;j<nv;j++){ sym_check_le(lo[j],lp->x[j],1e-6,"solution below a lower bound"); if(!inf[j]) sym_check_le(lp->x[j],up[j],1e-6,"solution above an upper bound"); o+=c[j]*lp->x[j]; oy+=c[j]*y[j]; }
    for(int i=0;i<nr;i++){ double r=0; for(int j=0;j<nv;j++) r+=A[i][j]*lp->x[j]; if(sn[i]=='E') sym_check_eq(r,b[i],1e-5,"solution violates an equality"); else if(sn[i]=='L') sym_check_le(r,b[i],1e-5,"solution violates a constraint"); else sym_check_le(b[i],r,1e-5,"solution violates a constraint"); }
    sym_check_eq(lp->objval,o,1e-5,"objective value is not that of the solution");
    sym_vbegin(); for(int j=0;j<nv;j++){ sym_vge(y[j],lo[j]); if(!inf[j]) sym_vge(up[j],y[j]); }
    for(int i=0;i<nr;i++){ double r=0; for(int j=0;j<nv;j++) r+=A[i][j]*y[j]; if(sn[i]!='G') sym_vge(b[i],r); if(sn[i]!='L') sym_vge(r,b[i]); }
    sym_vge(mx?oy-o:o-oy,2e-3); sym_vcheck("a feasible point has a better objective");
    sym_observe("obj",lp->objval); }
  else { sym_cover("none"); sym_check(st==LP_INFEASIBLE||st==LP_UNBOUNDED,"unknown status");
    for(int i=0;i<nr;i++) l[i]=sym_qvar(ln[i],-40,40);
    sym_vbegin(); for(int j=0;j<nv;j++){ sym_vge(y[j],lo[j]); if(!inf[j]) sym_vge(up[j],y[j]); }
    for(int i=0;i<nr;i++){ double r=0; for(int j=0;j<nv;j++) r+=A[i][j]*y[j]; double sl=sn[i]=='E'?0:1e-4; if(sn[i]!='G') sym_vge(b[i]-r,sl); if(sn[i]!='L') sym_vge(r-b[i],sl); if(sn[i]=='L') sym_vge(l[i],0); if(sn[i]=='G') sym_vge(0,l[i]); }
    for(int j=0;j<nv;j++) if(inf[j]){ double r=mx?c[j]:-c[j]; for(int i=0;i<nr;i++) r-=A[i][j]*l[i]; sym_vge(-1e-4,r); }
    sym_vcheck("a bounded feasible program is reported as having no solution"); }
  LP_freeLP(lp);
}
