/* C24: one step of the finite-grid method; grid generation. */
#include "step.h"
#include "belief.h"
#include "belief-state.h"
#include "finite-grid.h"
extern BeliefList gFiniteGrid;
static const char*TY[]={"simplex","pairwise","initial","search"};
static int near(const double*a,const double*b,int S){ for(int s=0;s<S;s++){ if(sym_same(a[s],b[s])) continue; double d=fabs(a[s]-b[s]); if(d<1e-6){ if(sym_native) continue; sym_prune(); } return 0; } return 1; }
static int ingrid(const double*b,int S){ for(BeliefList p=gFiniteGrid;p;p=p->next) if(near(p->b,b,S)) return 1; return 0; }
void sym_harness(void){
  Model m; int S=sym_cfg("S",2),A=2,O=2,nv=sym_cfg("V",2),k=sym_cfg("K",2); double v[8][MS];
  m_default(&m,S,A,O,sym_cfg("SEED",1));
  int ty=sym_cfg("TY",-1); if(ty<0) ty=sym_choice("type",4);
  int ib=sym_choice("init",2); if(ib){ for(int s=0;s<S;s++) m.b0[s]=s==0?0.25:s==1?0.75:0; }
  int f=step_focus(&m,v,nv,8,k); { double lv=sym_cfg("LV",0); for(int i=0;i<nv;i++) for(int s=0;s<S;s++) v[i][s]=v[i][s]+lv; } /* LV: values that fall */
  int tie=sym_cfg("DET",0); if(tie) { for(int a=0;a<A;a++) for(int s=0;s<S;s++){ for(int t=0;t<S;t++) m.T[a][s][t]=(t==(a?(s+1)%S:s)); for(int o=0;o<O;o++) m.Z[a][s][o]=tie==1?(o==(s>0)):(o==0?0.5:0.5); } }
  if(sym_cfg("IMP",0)) for(int a=0;a<A;a++) for(int s=0;s<S;s++){ m.Z[a][s][0]=1; m.Z[a][s][1]=0; }
  const char*ex[16]; int n=0; ex[n++]="-method"; ex[n++]="grid"; ex[n++]="-fg_type"; ex[n++]=TY[ty];
  char pts[8]; int P=sym_cfg("P",4); pts[0]='0'+P/10; pts[1]='0'+P%10; pts[2]=0; ex[n++]="-fg_points"; ex[n++]=pts;
  int pu=sym_cfg("PU",-1); if(pu<0) pu=sym_choice("purge",3); static const char*pn[]={"none","domonly","normal_prune"}; ex[n++]="-fg_purge"; ex[n++]=pn[pu];
  ex[n++]="-fg_save"; ex[n++]="true";
  if(ib){ /* start line */ m_text(&m); }
  PomdpSolveParams p;
  { static char*argv[64]; int c=0; m_text(&m); if(ib){ mt("start:"); for(int s=0;s<S;s++){ mt(" "); mtv(m.b0[s]); } mt("\n"); }
    /* 'start' precedes the tables */
    if(ib){ static char T2[1<<16]; int q=0; char*st=strstr(MT,"start:"); char*tt=strstr(MT,"T:"); int hl=tt-MT; memcpy(T2,MT,hl); q=hl; int sl=strlen(st); memcpy(T2+q,st,sl); q+=sl; memcpy(T2+q,tt,st-tt); q+=st-tt; T2[q]=0; memcpy(MT,T2,q+1); }
    sym_file_put("/mem/model.pomdp",MT);
    argv[c++]="pomdp-solve"; argv[c++]="-pomdp"; argv[c++]="/mem/model.pomdp"; argv[c++]="-stdout"; argv[c++]="/mem/report"; argv[c++]="-o"; argv[c++]="/mem/out";
    for(int i=0;i<n;i++) argv[c++]=(char*)ex[i]; argv[c]=0; p=parseCmdLineAndCfgFile(c,argv); initPomdpSolve(p); }
  /* the grid */
  int G=0; for(BeliefList g=gFiniteGrid;g;g=g->next){ G++; double t=0; for(int s=0;s<S;s++){ t+=g->b[s]; sym_check_le(0,g->b[s],1e-9,"grid belief has a negative entry"); } sym_check_eq(t,1.0,1e-6,"grid belief does not sum to one"); }
  sym_check(G>0,"empty grid"); double e[MS];
  if(ty<2){ int want=S; for(int i=0;i<S;i++){ for(int s=0;s<S;s++) e[s]=s==i; sym_check(ingrid(e,S),"simplex corner missing"); }
    if(ty==1) for(int i=0;i<S;i++) for(int j=0;j<i;j++){ want++; for(int s=0;s<S;s++) e[s]=(s==i||s==j)?0.5:0; sym_check(ingrid(e,S),"pairwise midpoint missing"); }
    sym_check(G==want,"number of grid points"); }
  else { int base=1; BeliefList g=gFiniteGrid; double bb[1+MA*MO][MS];
    for(int s=0;s<S;s++) bb[0][s]=(ty==2&&ib)?m.b0[s]:1.0/S;
    if(ty==3) for(int a=0;a<A;a++) for(int o=0;o<O;o++){ int c=0; for(int s=0;s<S;s++){ bb[base][s]=0; if(!(sym_is_const(m.Z[a][s][o])&&m.Z[a][s][o]==0)){ bb[base][s]=1; c++; } } if(c){ for(int s=0;s<S;s++) bb[base][s]/=c; base++; } }
    for(int i=0;i<base;i++) sym_check(ingrid(bb[i],S),"initial belief missing from the grid");
    int closed=G<=P; if(closed) sym_cover("closed"); else sym_cover("cut");
    for(;g;g=g->next){ int ok=0; for(int i=0;i<base;i++) if(near(g->b,bb[i],S)) ok=1;
      for(BeliefList h=gFiniteGrid;h;h=h->next) for(int a=0;a<A;a++) for(int o=0;o<O;o++){ double nb[MS],t=0; for(int s=0;s<S;s++){ nb[s]=0; for(int q=0;q<S;q++) nb[s]+=h->b[q]*m.T[a][q][s]; nb[s]*=m.Z[a][s][o]; t+=nb[s]; }
        if(sym_is_const(t)&&t<1e-12) continue; for(int s=0;s<S;s++) nb[s]/=t; if(!ok&&near(nb,g->b,S)) ok=1; if(closed&&g==gFiniteGrid) sym_check(ingrid(nb,S),"reachable belief missing although the limit was not reached"); }
      sym_check(ok,"grid belief is not reachable from the initial ones"); } }
  /* saved grid */
  BeliefList r=readBeliefList("/mem/out.belief",0); int j=0; { BeliefList g=gFiniteGrid; for(;g&&r;g=g->next,r=r->next,j++) for(int s=0;s<S;s++) sym_check_eq(r->b[s],g->b[s],1e-5,"saved grid differs"); sym_check(!g&&!r,"saved grid has another number of points"); }
  /* one step */
  AlphaList prev=mk_list(v,nv,S,0); AlphaList l=improveV(prev,p); brute(&m,v,nv);
  sym_check(l->length>0,"empty result");
  double b[MS]; qbelief(b,S);
  for(AlphaList x=l->head;x;x=x->next){ int same=0; for(int i=0;i<nbv&&!same;i++){ same=1; for(int s=0;s<S;s++) if(!sym_same(bv[i].v[s],x->alpha[s])) same=0; } if(same){ sym_check(1,"ok"); continue; }
    double y=vdot(x->alpha,b,S); sym_vbegin(); for(int s=0;s<S;s++) sym_vge(b[s],0.0); for(int i=0;i<nbv;i++) sym_vge(y-vdot(bv[i].v,b,S),1e-4); sym_vcheck("grid step overestimates the Bellman backup"); }
  for(BeliefList g=gFiniteGrid;g;g=g->next) for(int i=0;i<nbv;i++){ int same=0; for(AlphaList x=l->head;x&&!same;x=x->next){ same=1; for(int s=0;s<S;s++) if(!sym_same(bv[i].v[s],x->alpha[s])) same=0; } if(same) continue;
    double y=vdot(bv[i].v,g->b,S); sym_vbegin(); for(AlphaList x=l->head;x;x=x->next) sym_vge(y-vdot(x->alpha,g->b,S),1e-4); sym_vcheck("grid step below the Bellman backup at a grid belief"); }
  check_plans(&m,l,prev,v,nv,1e-6,0);
  sym_check(l->length<=G,"more vectors than grid points");
  if(sym_cfg("ERR",1)){ double err=FG_computeError(prev,l,p), best=0;
    for(BeliefList g=gFiniteGrid;g;g=g->next){ double x=-1e9,y=-1e9; for(AlphaList q=prev->head;q;q=q->next){ double z=vdot(q->alpha,g->b,S); if(z>x) x=z; } for(AlphaList q=l->head;q;q=q->next){ double z=vdot(q->alpha,g->b,S); if(z>y) y=z; } double d=fabs(x-y); if(d>best) best=d; }
    sym_check_eq(err,best,1e-6,"grid error is not the largest change at a grid belief"); sym_observe("err",err); }
  sym_observe("len",l->length); sym_observe("G",G); if(l->head) sym_observe("v0",l->head->alpha[0]);
}
