/* C29: policy-graph evaluation.  GCC-REPLAY: what the tool prints must not depend on the compiler's evaluation order, so solver witnesses and counterexamples also run on a gcc build. */
#include "step.h"
#include "pg.h"
#include "pg-eval.h"
#define main tools_main
#include "pomdp-tools-main.c"
#undef main
void sym_harness(void){
  Model m; int S=sym_cfg("S",2),O=sym_cfg("O",2),A=2,n=sym_cfg("N",2); double v[8][MS]; m_default(&m,S,A,O,sym_cfg("SEED",1)); m.g=sym_cfg("G",250)/1000.0; m.cost=sym_choice("cost",2);
  /* FO 0: rewards, 1: transitions, 2: observations, 3: impossible observations, 4: discount, 5: scale of all rewards */
  int f=sym_cfg("FO",-1); if(f<0) f=sym_choice("focus",4);
  if(f==0){ m.R[0][0]=sym_real("R00",-4,4); if(sym_cfg("K",1)>1) m.R[1][1]=sym_real("R11",0.5,4); }
  if(f==1){ double x=sym_real("T0",0.02,0.98); m.T[0][0][0]=x; m.T[0][0][1]=1.0-x; for(int t=2;t<S;t++) m.T[0][0][t]=0; }
  if(f==2){ double z=sym_real("Z0",0.02,0.98); m.Z[0][1][0]=z; m.Z[0][1][1]=1.0-z; for(int t=2;t<O;t++) m.Z[0][1][t]=0; }
  if(f==3){ for(int s=0;s<S;s++){ double q=m.Z[1][s][0]; m.Z[1][s][0]=0; m.Z[1][s][1]+=q; } m.R[1][0]=sym_real("R10",0.5,4); }
  if(f==4){ m.g=sym_real("g",0.05,0.3); }
  if(f==5){ double x=sym_real("scale",0.25,2); for(int a=0;a<A;a++) for(int s=0;s<S;s++) m.R[a][s]*=x; }
  m_load(&m);
  int act[8],nx[8][MO]; static char B[4096]; int q=0;
  #define PUT(c) B[q++]=(c)
  for(int i=0;i<n;i++){ act[i]=sym_choice(nm3("a",i,0,0),A); PUT('0'+i); PUT(' '); PUT('0'+act[i]); PUT(' '); for(int z=0;z<O;z++){ int im=f==3&&act[i]==1&&z==0; nx[i][z]=im?-1:sym_choice(nm3("n",i,z,0),n); PUT(' '); PUT(im?'X':'0'+nx[i][z]); } PUT('\n'); } PUT(0);
  sym_file_put("/mem/g.pg",B);
  PG g=PG_read("/mem/g.pg",TRUE); sym_check(g!=0,"valid graph rejected"); if(!g) return;
  PgEvalContext c=PGEC_Constructor();
  int rep=sym_choice("again",2); if(rep){ PG o=PG_Constructor(1,S,A,O); o->action[0]=1; for(int z=0;z<O;z++) o->next[0][z]=0; PGE_evaluate(o,c); }
  sym_check(PGE_evaluate(g,c)!=0,"evaluation failed");
  for(int i=0;i<n;i++) for(int s=0;s<S;s++){ int a=act[i]; double w=m.R[a][s]; for(int t=0;t<S;t++) for(int z=0;z<O;z++){ if(nx[i][z]<0) continue; w+=m.g*m.T[a][s][t]*m.Z[a][t][z]*c->soln[t][nx[i][z]]; }
    sym_check_eq(c->soln[s][i],w,(f==5?10:4)*1e-4,"value equations are not satisfied"); }
  double b[MS],best=-1e9; int bi=-1; for(int s=0;s<S;s++) b[s]=s==0?0.25:0.75/(S-1); int w=-1; double r=PGEC_val(c,b,&w);
  sym_check(w>=0&&w<n,"best node"); if(w<0||w>=n) return; double y=0; for(int s=0;s<S;s++) y+=b[s]*c->soln[s][w]; sym_check_eq(r,y,1e-6,"value of the best node");
  for(int i=0;i<n;i++){ double x=0; for(int s=0;s<S;s++) x+=b[s]*c->soln[s][i]; sym_check_le(x,r,1e-6,"a better node exists"); }
  if(sym_cfg("VIA",0)){ /* the same through the tool: what it prints */
    int st=sym_choice("start",2); if(st){ MTn=0; m_text(&m); char*t=strstr(MT,"T: "); static char tail[1<<15]; strcpy(tail,t); MTn=t-MT; MT[MTn]=0; mt("start: "); for(int s=0;s<S;s++){ mtv(b[s]); mt(" "); } mt("\n"); mt(tail); sym_file_put("/mem/model.pomdp",MT); } else for(int s=0;s<S;s++) b[s]=1.0/S;
    static char*av[]={"pomdp-tools","-tool","pg_eval","-pg1","/mem/g.pg","-pomdp","/mem/model.pomdp",0}; FILE*so=stdout; stdout=fopen("/mem/report","w"); int rc=SYM_TRY(); if(rc==0){ rc=tools_main(7,av); SYM_END(); } fclose(stdout); stdout=so; sym_check(rc==0,"the tool fails");
    const char*t=sym_file_get("/mem/report"),*h="Solution found is:\n"; t=t?strstr(t,h):0; sym_check(t!=0,"no solution in the tool's report"); if(!t) return; t+=strlen(h);
    for(int i=0;i<n;i++) for(int s=0;s<S;s++){ while(*t==' '||*t=='\n') t++; char*e; double x=strtod(t,&e); sym_check(e!=t,"reported values are missing"); if(e==t) return; t=e; sym_check_eq(x,c->soln[s][i],0.006,"reported value of a node"); }
    const char*h2="Initial belief state value: "; t=strstr(t,h2); sym_check(t!=0,"no value of the start belief"); if(!t) return; t+=strlen(h2); double mx=-1e9; for(int i=0;i<n;i++){ double x=0; for(int s=0;s<S;s++) x+=b[s]*c->soln[s][i]; if(x>mx) mx=x; }
    char*e; double x=strtod(t,&e); sym_check_eq(x,mx,0.006,"reported value of the start belief"); t=e; while(*t==' ') t++; int ok=strncmp(t,"at node ",8)==0; sym_check(ok,"no node for the start belief"); if(!ok) return; int k=atoi(t+8); sym_check(k>=0&&k<n,"reported node is not a node of the graph"); if(k<0||k>=n) return; x=0; for(int s=0;s<S;s++) x+=b[s]*c->soln[s][k]; sym_check_le(mx,x,1e-4,"reported node is not a best one"); sym_cover(st?"tool, start given":"tool, uniform start"); }
  sym_cover("evaluated"); sym_observe("node",f==5?w:0);
}
