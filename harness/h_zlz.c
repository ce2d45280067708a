/* C25: the point-based speed-up between DP steps. */
#include "step.h"
#include "stats.h"
#include "zlz_speedup.h"
static const char*METH[][6]={ {"-method","enum",0}, {"-method","twopass",0}, {"-method","witness",0}, {"-method","incprune",0} };
void sym_harness(void){
  Model m; int S=sym_cfg("S",2),A=sym_cfg("A",2),O=sym_cfg("O",2),nv=2,M=sym_cfg("M",3),k=sym_cfg("K",1),wit=sym_cfg("WIT",1),pu=sym_cfg("EP",0); double v[8][MS];
  m_default(&m,S,A,O,sym_cfg("SEED",1)); m.g=0.0625;
  int f=sym_choice("focus",4);
  for(int i=0;i<nv;i++) for(int s=0;s<S;s++) v[i][s]=0; nv=1;
  if(f==0) for(int j=0;j<k;j++) m.R[j%A][j/A]=sym_real(nm3("R",j%A,j/A,0),0,4);
  if(f==1){ double x=sym_real("T0",0.05,0.95); m.T[0][0][0]=x; m.T[0][0][1]=1.0-x; for(int t=2;t<S;t++) m.T[0][0][t]=0; }
  if(f==2){ double x=sym_real("Z0",0.05,0.95); m.Z[0][0][0]=x; m.Z[0][0][1]=1.0-x; for(int t=2;t<O;t++) m.Z[0][0][t]=0; }
  if(f==3){ m.cost=1; m.R[0][0]=sym_real("R",0,4); } /* values fall: the step must not invent anything */
  const char*ex[12]; int n=0; for(int i=0;METH[M][i];i++) ex[n++]=METH[M][i];
  ex[n++]="-vi_variation"; ex[n++]="zlz"; ex[n++]="-stop_criteria"; ex[n++]="bellman"; ex[n++]="-stop_delta"; ex[n++]="0.01"; if(wit){ ex[n++]="-witness_points"; ex[n++]="true"; }
  if(pu){ ex[n++]="-enum_purge"; ex[n++]=pu==1?"domonly":"none"; }
  PomdpSolveParams p=solve_setup(&m,ex,n);
  p->stat=newSolutionStats(p->report_file,p->stat_summary);
  AlphaList prev=mk_list(v,nv,S,0), U=improveV(prev,p);
  if(sym_cfg("D",1)>1){ clearObsSourceAlphaList(U); prev=U; U=improveV(prev,p); }
  double u[32][MS]; int nu=0; for(AlphaList x=U->head;x&&nu<32;x=x->next,nu++) for(int s=0;s<S;s++) u[nu][s]=x->alpha[s];
  AlphaList base=duplicateAlphaList(U);
  int before=p->update_count; double delta=2.0;
  ZLZ_ViSpeedup(U,delta,p);
  int upd=p->update_count-before; char c[8]="upd00"; c[3]='0'+upd/10; c[4]='0'+upd%10; sym_cover(c);
  double b[MS]; qbelief(b,S); int q=0; for(AlphaList x=U->head;x;x=x->next) q++; sym_check(q==U->length&&q>0,"length"); if(!q) return;
  for(int i=0;i<nu;i++) check_not_above(u[i],U,b,S,1e-4,"speed-up lowered the value function");
  /* reachable: upd further exact steps; union of all of them is an upper bound whether values rise or fall */
  double r[200][MS]; int nr=0; for(int i=0;i<nu;i++){ for(int s=0;s<S;s++) r[nr][s]=u[i][s]; nr++; }
  AlphaList cur=base; if(upd>8) upd=8;
  for(int t=0;t<upd;t++){ AlphaList nx=improveV(cur,p); clearObsSourceAlphaList(nx); cur=nx; for(AlphaList x=cur->head;x&&nr<200;x=x->next){ for(int s=0;s<S;s++) r[nr][s]=x->alpha[s]; nr++; } }
  for(AlphaList x=U->head;x;x=x->next){ sym_check(x->action>=0&&x->action<A,"action"); check_vec_below(x->alpha,r,nr,b,S,1e-4,"speed-up exceeds what further steps can reach"); }
  sym_observe("len",U->length); sym_observe("v0",U->head->alpha[0]);
}
