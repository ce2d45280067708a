/* C23: a whole solve: h dynamic-programming steps from the terminal values, discount override, result and plan files. */
#include "step.h"
extern void solvePomdp( PomdpSolveParams );
static const char*METH[][6]={ {"-method","enum",0}, {"-method","twopass",0}, {"-method","witness",0}, {"-method","incprune","-inc_prune","normal",0}, {"-method","incprune","-inc_prune","restricted_region",0}, {"-method","incprune","-inc_prune","generalized",0} };
static const char*HS[]={"0","1","2","3"};
static double cur[400][MS];
void sym_harness(void){
  Model m; int S=sym_cfg("S",2),A=sym_cfg("A",2),O=sym_cfg("O",2),M=sym_cfg("M",3),H=sym_cfg("H",2),nt=0; double v[8][MS];
  m_default(&m,S,A,O,sym_cfg("SEED",1)); m.cost=sym_choice("cost",2);
  int f=sym_choice("focus",4), ov=sym_choice("discount",f==0?4:2), tv=sym_choice("terminal",H>2?2:3), save=sym_choice("save",2); double g=m.g;
  const char*ex[24]; int n=0; for(int i=0;METH[M][i];i++) ex[n++]=METH[M][i];
  ex[n++]="-horizon"; ex[n++]=HS[H];
  ex[n++]="-stop_criteria"; { static const char*c[]={"weak","exact","bellman"}; ex[n++]=c[sym_cfg("CRIT",0)]; }
  if(ov){ static const char*ds[]={"","0.5","0","1"}; static const double dv[]={0,0.5,0,1}; ex[n++]="-discount"; ex[n++]=ds[ov]; g=dv[ov]; }
  ex[n++]="-save_penultimate"; ex[n++]="true";
  if(save){ ex[n++]="-save_all"; ex[n++]="true"; }
  if(tv){ nt=tv; double t[2][3]={{1.5,-0.25,0.75},{-0.5,2.0,1.25}}; MTn=0; MT[0]=0;
    for(int i=0;i<nt;i++){ mti(i); mt("\n"); for(int s=0;s<S;s++){ if(f==3&&i==0&&s==0) t[0][0]=sym_real("t0",0.5,4); v[i][s]=t[i][s]; mtv(t[i][s]); mt(" "); } mt("\n\n"); }
    sym_file_put("/mem/tv.alpha",MT); ex[n++]="-terminal_values"; ex[n++]="/mem/tv.alpha"; }
  else { nt=1; for(int s=0;s<S;s++) v[0][s]=0; }
  if(f==0) m.R[A-1][1]=sym_real("R",0,4);
  if(f==1){ double x=sym_real("T0",0.05,0.95); m.T[0][0][0]=x; m.T[0][0][1]=1.0-x; for(int t=2;t<S;t++) m.T[0][0][t]=0; }
  if(f==2){ double x=sym_real("Z0",0.05,0.95); m.Z[0][0][0]=x; m.Z[0][0][1]=1.0-x; for(int t=2;t<O;t++) m.Z[0][0][t]=0; }
  if(f==3&&!tv) m.g=g=ov?g:sym_real("g",0.05,0.999);
  PomdpSolveParams p=solve_setup(&m,ex,n);
  if(f==3&&!tv&&ov) sym_prune();
  solvePomdp(p);
  m.g=g;
  /* reference: H unpruned backups */
  int nc=nt; for(int i=0;i<nt;i++) for(int s=0;s<S;s++) cur[i][s]=v[i][s];
  for(int h=0;h<H;h++){ double w[8][MS]; if(nc>8){ sym_check(0,"harness: too many"); return; } for(int i=0;i<nc;i++) for(int s=0;s<S;s++) w[i][s]=cur[i][s]; brute(&m,w,nc); nc=nbv; for(int i=0;i<nc;i++) for(int s=0;s<S;s++) cur[i][s]=bv[i].v[s]; }
  AlphaList l=readAlphaList("/mem/out.alpha",0);
  sym_check(l!=0&&l->length>0,"no solution file"); if(!l||!l->length) return;
  double b[MS]; qbelief(b,S);
  for(int i=0;i<nc;i++) check_not_above(cur[i],l,b,S,1e-4,"reported value function is below the h-step optimum");
  for(AlphaList x=l->head;x;x=x->next) check_vec_below(x->alpha,cur,nc,b,S,1e-4,"reported value function is above the h-step optimum");
  char c[8]="len00"; c[3]='0'+l->length/10; c[4]='0'+l->length%10; sym_cover(c);
  if(g==0){ sym_observe("len",l->length); return; } /* nothing follows the first step */
  /* plan file against the stored next-to-last value function */
  AlphaList pv; if(H>1){ sym_check(sym_file_get("/mem/out.prev.alpha")!=0,"next-to-last value function not saved"); if(!sym_file_get("/mem/out.prev.alpha")) return; pv=readAlphaList("/mem/out.prev.alpha",0); } else { pv=mk_list(v,nt,S,0); }
  const char*t=sym_file_get("/mem/out.pg"); sym_check(t!=0,"no plan file"); if(!t) return;
  int k=0; for(AlphaList x=l->head;x;x=x->next,k++){
    char*e; long id=strtol(t,&e,10); sym_check(e!=t&&id==k,"plan file: node number"); if(e==t) return; t=e; long a=strtol(t,&e,10); sym_check(e!=t&&a==x->action&&a>=0&&a<A,"plan file: action differs from the value file"); if(e==t||a<0||a>=A) return; t=e;
    double w[MS]; for(int s=0;s<S;s++) w[s]=m.cost?-m.R[a][s]:m.R[a][s]; int ok=1;
    for(int o=0;o<O;o++){ long j=strtol(t,&e,10); int bad=(e==t||j<0||j>=pv->length); sym_check(!bad,"plan file: successor out of range"); if(bad){ ok=0; break; } t=e; AlphaList y=pv->head; while(j--) y=y->next;
      for(int s=0;s<S;s++){ double q=0; for(int s2=0;s2<S;s2++) q+=m.T[a][s][s2]*m.Z[a][s2][o]*y->alpha[s2]; w[s]+=g*q; } }
    if(!ok) return;
    for(int s=0;s<S;s++) sym_check_eq(x->alpha[s],w[s],1e-5,"plan file does not achieve the reported values"); }
  { char*e; strtol(t,&e,10); sym_check(e==t,"plan file has more nodes than the value file"); }
  if(save){ /* per-epoch files exist and the last one is the solution */
    char fn[32]="/mem/out.alpha0"; for(int h=1;h<=H;h++){ fn[14]='0'+h; sym_check(sym_file_get(fn)!=0,"value function of an epoch not saved"); }
    AlphaList z=sym_file_get(fn)?readAlphaList(fn,0):0; if(z){ int eq=sameAlphaList(z,l,1e-9); sym_check(eq,"saved last epoch differs from the solution"); } }
  sym_observe("len",l->length); sym_observe("v0",l->head->alpha[0]);
}
