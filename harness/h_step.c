/* C16/C19: one DP step of every exact method = Bellman backup; plans consistent. */
#include "step.h"
static const char*METH[][6]={ {"-method","enum",0}, {"-method","twopass",0}, {"-method","witness",0}, {"-method","incprune","-inc_prune","normal",0}, {"-method","incprune","-inc_prune","restricted_region",0}, {"-method","incprune","-inc_prune","generalized",0},
  };
static const char*PURGE[]={"none","domonly","normal_prune","epsilon_prune"};
void sym_harness(void){
  Model m; int S=sym_cfg("S",2),A=sym_cfg("A",2),O=sym_cfg("O",2),nv=sym_cfg("V",2),M=sym_cfg("M",3),k=sym_cfg("K",2),nf=sym_cfg("F",7); double v[8][MS];
  { int ns=sym_cfg("SEEDS",0); m_default(&m,S,A,O,sym_cfg("SEED",1)+(ns?sym_choice("seed",ns):0)); }
  int f=step_focus(&m,v,nv,nf,k);
  m.cost=sym_cfg("COST",0);
  int big=sym_cfg("BIG",0); if(big){ for(int a=0;a<A;a++) for(int s=0;s<S;s++) m.R[a][s]=m.R[a][s]*big; for(int i=0;i<nv;i++) for(int s=0;s<S;s++) v[i][s]=v[i][s]*big; }
  int op=sym_cfg("OPT",0)?sym_choice("opt",7):0;
  const char*ex[32]; int n=0; for(int i=0;METH[M][i];i++) ex[n++]=METH[M][i];
  int PU=sym_cfg("PU",2); const char*pn[]={"none","domonly","normal_prune"};
  if(PU!=9){ ex[n++]="-proj_purge"; ex[n++]=pn[PU]; }
  if(sym_cfg("Q",0)){ ex[n++]="-q_purge"; ex[n++]="normal_prune"; }
  ex[n++]="-dom_check"; ex[n++]=sym_cfg("DOM",0)?"true":"false";
  if(op==1){ ex[n++]="-alg_rand"; ex[n++]="3"; }
  if(op==2){ ex[n++]="-prune_rand"; ex[n++]="3"; }
  if(op==3){ ex[n++]="-witness_points"; ex[n++]="true"; }
  if(op==4){ ex[n++]="-enum_purge"; ex[n++]="domonly"; }
  if(op==5){ ex[n++]="-epsilon"; ex[n++]="0.0001"; }
  if(op==6){ ex[n++]="-alg_rand"; ex[n++]="2"; ex[n++]="-prune_rand"; ex[n++]="1"; ex[n++]="-witness_points"; ex[n++]="true"; ex[n++]="-rand_seed"; ex[n++]="7:11:13"; }
  PomdpSolveParams p=solve_setup(&m,ex,n);
  AlphaList prev=mk_list(v,nv,S,0);
  AlphaList l=improveV(prev,p);
  char c[16]="left00"; c[4]='0'+l->length/10; c[5]='0'+l->length%10; sym_cover(c);
  brute(&m,v,nv);
  if(sym_cfg("CHK",3)&1) check_backup(&m,l,big?1e-4*big:op==5?1e-3:1e-4);
  if(sym_cfg("CHK",3)&2) check_plans(&m,l,prev,v,nv,big?1e-6*big:1e-6,1);
  sym_observe("len",l->length); if(l->head) sym_observe("v0",l->head->alpha[0]);
}
