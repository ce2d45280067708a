/* Start pomdp-solve's real option parsing + initialisation on a symbolic model. */
#ifndef SOLVE_H
#define SOLVE_H
#include "common.h"
#include "alpha.h"
#include "params.h"
#include "cmd-line.h"
#include "pomdp-solve.h"
#include "projection.h"
#include "parsimonious.h"
#include "cross-sum.h"
#include "region.h"
extern AlphaList improveV( AlphaList, PomdpSolveParams );
extern void initPomdpSolve( PomdpSolveParams );
static PomdpSolveParams solve_setup(Model*m, const char**extra, int nextra){
  static char*argv[64]; int n=0;
  m_text(m); sym_file_put("/mem/model.pomdp",MT);
  argv[n++]="pomdp-solve"; argv[n++]="-pomdp"; argv[n++]="/mem/model.pomdp"; argv[n++]="-stdout"; argv[n++]="/mem/report"; argv[n++]="-o"; argv[n++]="/mem/out";
  for(int i=0;i<nextra;i++) argv[n++]=(char*)extra[i];
  argv[n]=0;
  PomdpSolveParams p=parseCmdLineAndCfgFile(n,argv);
  initPomdpSolve(p);
  return p; }
static AlphaList mk_list(double v[][MS],int n,int S,const int*act){
  AlphaList l=newAlphaList(); for(int i=0;i<n;i++){ double*a=newAlpha(); for(int s=0;s<S;s++) a[s]=v[i][s]; appendAlphaList(l,a,act?act[i]:0); } return l; }
static double vdot(const double*a,const double*b,int S){ double r=0; for(int s=0;s<S;s++) r+=a[s]*b[s]; return r; }
static void qbelief(double*b,int S){ static const char*nm[]={"qb0","qb1","qb2"}; double rest=1; for(int s=0;s<S-1;s++){ b[s]=sym_qvar(nm[s],0,1); rest-=b[s]; } b[S-1]=rest; }
/* violation: exists belief at which v beats every vector of list by more than tol */
static void check_not_above(const double*v,AlphaList l,const double*b,int S,double tol,const char*msg){
  for(AlphaList p=l->head;p;p=p->next){ int same=1; for(int s=0;s<S;s++) if(!sym_same(p->alpha[s],v[s])) same=0; if(same){ sym_check(1,msg); return; } }
  double x=vdot(v,b,S);
  sym_vbegin(); for(int s=0;s<S;s++) sym_vge(b[s],0.0);
  for(AlphaList p=l->head;p;p=p->next) sym_vge(x-vdot(p->alpha,b,S),tol);
  sym_vcheck(msg); }
static void check_vec_below(const double*v,double ref[][MS],int n,const double*b,int S,double tol,const char*msg){
  for(int i=0;i<n;i++){ int same=1; for(int s=0;s<S;s++) if(!sym_same(ref[i][s],v[s])) same=0; if(same){ sym_check(1,msg); return; } }
  double x=vdot(v,b,S); sym_vbegin(); for(int s=0;s<S;s++) sym_vge(b[s],0.0);
  for(int i=0;i<n;i++) sym_vge(x-vdot(ref[i],b,S),tol);
  sym_vcheck(msg); }
#endif
