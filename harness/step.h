/* Shared by the DP-step harnesses: symbolic model focus + brute-force Bellman backup. */
#ifndef STEP_H
#define STEP_H
#include "solve.h"
static const double VB[4][4][3]={ {{4,0,1},{0,3,2},{2.25,2,1.5},{1,1,3}}, {{-3,1,0},{1,-2,-1},{-0.5,-0.25,1},{-4,-4,2}}, {{5,5,5},{6,4,4.5},{4,7,5},{4.5,4.5,6.5}}, {{0,0,0},{1,-1,0.5},{-1,1.25,0.25},{0.25,0.125,-0.5}} };
/* k symbolic parameters, chosen by focus */
static int step_focus(Model*m,double v[][MS],int nv,int nf,int k){
  int f=sym_cfg("FO",-1); if(f<0) f=sym_choice("focus",nf);
  int S=m->S,A=m->A;
  for(int s=0;s<nv;s++) for(int t=0;t<S;t++) v[s][t]=VB[f%4][s][t];
  if(f==0){ for(int j=0;j<k;j++) m->R[j%A][j/A]=sym_real(nm3("R",j%A,j/A,0),0,4); }
  if(f==1){ for(int j=0;j<k;j++){ v[j%nv][j/nv]=sym_real(nm3("v",j%nv,j/nv,0),-4,4); } }
  if(f==2){ /* first row of T and Z of action 0 */
    double x=sym_real("T0",0.02,0.98); m->T[0][0][0]=x; m->T[0][0][1]=1.0-x; for(int t=2;t<S;t++) m->T[0][0][t]=0;
    if(k>1){ double z=sym_real("Z0",0.02,0.98); m->Z[A-1][1][0]=z; m->Z[A-1][1][1]=1.0-z; for(int t=2;t<m->O;t++) m->Z[A-1][1][t]=0; } }
  if(f==3){ m->g=sym_real("g",0.05,0.999); if(k>1) m->R[0][0]=sym_real("R00",0,4); }
  if(f==4){ /* impossible observation for action 0, symbolic reward and value */
    for(int s=0;s<S;s++){ double q=m->Z[0][s][0]; m->Z[0][s][0]=0; m->Z[0][s][1]+=q; }
    m->R[0][0]=sym_real("R00",0,4); if(k>1) v[0][0]=sym_real("v00",-4,4); }
  if(f==5){ /* structural ties: duplicate actions, shared vectors */
    for(int s=0;s<S;s++){ for(int t=0;t<S;t++) m->T[1][s][t]=m->T[0][s][t]; for(int o=0;o<m->O;o++) m->Z[1][s][o]=m->Z[0][s][o]; }
    m->R[0][0]=sym_real("R00",0,4); if(k>1) m->R[1][1]=sym_real("R11",0,4); }
  if(f==6){ /* uninformative observations, deterministic transitions, equal vectors at a corner */
    for(int a=0;a<A;a++) for(int s=0;s<S;s++){ for(int t=0;t<S;t++) m->T[a][s][t]=(t==(s+a)%S); for(int o=0;o<m->O;o++) m->Z[a][s][o]=(o==m->O-1)?1.0-0.25*(m->O-1):0.25; }
    m->R[0][1]=sym_real("R01",0,4); if(k>1) v[1][1]=sym_real("v11",-4,4); }
  if(f==7){ /* projections coincide: action 0 resets to state 0, where two next-stage vectors agree */
    for(int s=0;s<S;s++) for(int t=0;t<S;t++) m->T[0][s][t]=(t==0);
    m->R[0][1]=sym_real("R01",0,4); v[1][0]=v[0][0]; if(k>1) v[nv-1][1]=sym_real("v11",-4,4); }
  if(f==8&&S>2){ /* three states, observation 0 identifies state 0, every next-stage vector agrees there */
    for(int s=0;s<S;s++) for(int t=0;t<S;t++) m->T[0][s][t]=(t==s);
    for(int s=0;s<S;s++) for(int o=0;o<m->O;o++) m->Z[0][s][o]=(o==(s?1:0));
    for(int i=0;i<nv;i++){ v[i][0]=2; v[i][1]=(i==0)?3:(i==1)?0:1.75; v[i][2]=(i==1)?3:(i==0)?0:1.75; }
    v[nv-1][1]=sym_real("v1",0.25,2.75); if(k>1) m->R[1][1]=sym_real("R11",-4,4); for(int s=0;s<S;s++) if(s!=1) m->R[1][s]=-5; }
  return f; }
static int MPOW(int b,int e){ int r=1; while(e--) r*=b; return r; }
typedef struct { int a; int src[MO]; double v[MS]; } BV;
static BV bv[400]; static int nbv;
static void brute(Model*m,double v[][MS],int nv){
  nbv=0; int n=MPOW(nv,m->O);
  static double g[MA][MO][16][MS];
  for(int a=0;a<m->A;a++) for(int o=0;o<m->O;o++) for(int i=0;i<nv;i++) for(int s=0;s<m->S;s++){ double x=0; for(int t=0;t<m->S;t++) x+=m->T[a][s][t]*m->Z[a][t][o]*v[i][t]; g[a][o][i][s]=x*m->g; }
  for(int a=0;a<m->A;a++) for(int c=0;c<n;c++){ int x=c; BV*b=&bv[nbv++]; b->a=a; for(int o=0;o<m->O;o++){ b->src[o]=x%nv; x/=nv; }
    for(int s=0;s<m->S;s++){ double q=m->R[a][s]; if(m->cost) q=-q; for(int o=0;o<m->O;o++) q+=g[a][o][b->src[o]][s]; b->v[s]=q; } } }
static void check_backup(Model*m,AlphaList l,double tol){
  double b[MS]; qbelief(b,m->S);
  for(int i=0;i<nbv;i++) check_not_above(bv[i].v,l,b,m->S,tol,"result below the Bellman backup");
  int q=0; for(AlphaList p=l->head;p;p=p->next){ q++; int same=0;
    for(int i=0;i<nbv&&!same;i++){ same=1; for(int s=0;s<m->S;s++) if(!sym_same(bv[i].v[s],p->alpha[s])) same=0; }
    if(same){ sym_check(1,"ok"); continue; }
    double x=vdot(p->alpha,b,m->S); sym_vbegin(); for(int s=0;s<m->S;s++) sym_vge(b[s],0.0);
    for(int i=0;i<nbv;i++) sym_vge(x-vdot(bv[i].v,b,m->S),tol);
    sym_vcheck("result above the Bellman backup"); }
  sym_check(q==l->length&&q>0,"list length"); }
/* plan of every vector reproduces it; base = vectors of prev list by id */
static void check_plans(Model*m,AlphaList l,AlphaList prev,double v[][MS],int nv,double tol,int strict){
  for(AlphaList p=l->head;p;p=p->next){
    sym_check(p->action>=0&&p->action<m->A,"action out of range"); if(p->action<0||p->action>=m->A) continue;
    int a=p->action, ok=1; double w[MS]; for(int s=0;s<m->S;s++){ w[s]=m->R[a][s]; if(m->cost) w[s]=-w[s]; }
    for(int o=0;o<m->O&&ok;o++){
      int imp=1; for(int s=0;s<m->S;s++) if(!(sym_is_const(m->Z[a][s][o])&&m->Z[a][s][o]==0)) imp=0;
      AlphaList src=p->obs_source?p->obs_source[o]:0;
      if(src==0){ if(imp) continue; sym_check(0,"no successor for a possible observation"); ok=0; break; }
      int idx=-1,k=0; for(AlphaList q=prev->head;q;q=q->next,k++) if(q==src) idx=k;
      sym_check(idx>=0,"successor is not a vector of the previous set"); if(idx<0){ ok=0; break; }
      for(int s=0;s<m->S;s++){ double x=0; for(int t=0;t<m->S;t++) x+=m->T[a][s][t]*m->Z[a][t][o]*v[idx][t]; w[s]+=x*m->g; } }
    if(ok) for(int s=0;s<m->S;s++) sym_check_eq(p->alpha[s],w[s],tol,"plan does not achieve the vector"); } }
#endif
