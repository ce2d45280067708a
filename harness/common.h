/* Shared harness helpers: small POMDP models with symbolic entries. */
#ifndef COMMON_H
#define COMMON_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "sym.h"
#include "mdp.h"
#include "global.h"
#include "pomdp.h"
#define MS 4
#define MA 4
#define MO 4
typedef struct {
  int S,A,O,cost;
  double g, T[MA][MS][MS], Z[MA][MS][MO], R[MA][MS], b0[MS];
} Model;
/* text emitter: values may be negative only if concrete */
static char MT[1<<16]; static int MTn;
static void mt(const char *s){ int n=strlen(s); memcpy(MT+MTn,s,n+1); MTn+=n; }
static void mti(int i){ char b[16]; int k=0,n=0; char r[16]; if(i==0) b[n++]='0'; while(i){ r[k++]='0'+i%10; i/=10; } while(k) b[n++]=r[--k]; b[n]=0; mt(b); }
static void mtv(double v){ if(sym_is_const(v)&&v<0){ mt("-"); v=-v; } mt(sym_tok(v)); }
static void m_header(int S,int A,int O,double g,int cost){
  MTn=0; MT[0]=0; mt("discount: "); mtv(g); mt(cost?"\nvalues: cost\nstates: ":"\nvalues: reward\nstates: "); mti(S); mt("\nactions: "); mti(A); mt("\nobservations: "); mti(O); mt("\n"); }
static void m_text(Model*m){
  m_header(m->S,m->A,m->O,m->g,m->cost);
  for(int a=0;a<m->A;a++) for(int s=0;s<m->S;s++){ mt("T: "); mti(a); mt(" : "); mti(s); mt("\n"); for(int t=0;t<m->S;t++){ mtv(m->T[a][s][t]); mt(" "); } mt("\n"); }
  for(int a=0;a<m->A;a++) for(int s=0;s<m->S;s++){ mt("O: "); mti(a); mt(" : "); mti(s); mt("\n"); for(int t=0;t<m->O;t++){ mtv(m->Z[a][s][t]); mt(" "); } mt("\n"); }
  for(int a=0;a<m->A;a++) for(int s=0;s<m->S;s++){ mt("R: "); mti(a); mt(" : "); mti(s); mt(" : * : * "); mtv(m->R[a][s]); mt("\n"); } }
static void m_load(Model*m){ m_text(m); sym_file_put("/mem/model.pomdp",MT); initializePomdp("/mem/model.pomdp",1e-9); }
/* fixed generic numbers */
static double GEN(int i){ static const double t[]={0.37,0.81,0.22,0.64,0.53,0.14,0.92,0.45,0.71,0.29,0.58,0.86,0.33,0.67,0.18,0.76}; return t[((i%16)+16)%16]; }
static void m_default(Model*m,int S,int A,int O,int seed){
  int k=seed; memset(m,0,sizeof *m); m->S=S; m->A=A; m->O=O; m->g=0.9; m->cost=0;
  for(int a=0;a<A;a++) for(int s=0;s<S;s++){ double rest=1.0; for(int t=0;t<S-1;t++){ double v=rest*GEN(k++); v=floor(v*64)/64.0; m->T[a][s][t]=v; rest-=v; } m->T[a][s][S-1]=rest; }
  k=seed*3+5;
  for(int a=0;a<A;a++) for(int s=0;s<S;s++){ double rest=1.0; for(int t=0;t<O-1;t++){ double v=rest*GEN(k); k+=3; v=floor(v*64)/64.0; m->Z[a][s][t]=v; rest-=v; } m->Z[a][s][O-1]=rest; }
  k=seed*5+2;
  for(int a=0;a<A;a++) for(int s=0;s<S;s++){ m->R[a][s]=floor(GEN(k)*256)/64.0; k+=5; }
  for(int s=0;s<S;s++) m->b0[s]=1.0/S; }
static char*nm3(const char*p,int a,int b,int c){ static char r[8][64]; static int i; i=(i+1)%8; char*o=r[i]; int n=0; while(*p) o[n++]=*p++; o[n++]='0'+a; o[n++]='_'; o[n++]='0'+b; o[n++]='_'; o[n++]='0'+c; o[n]=0; return o; }
/* symbolic distribution over n outcomes, every entry in [lo,..] */
static void sym_dist(double*out,int n,const char*pre,int a,int b,double lo){
  double rest=1.0; for(int i=0;i<n-1;i++){ out[i]=sym_real(nm3(pre,a,b,i),lo,(n==2)?1.0-lo:(1.0-lo)/(n-1)); rest=rest-out[i]; } out[n-1]=rest; }
#endif
