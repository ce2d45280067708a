/* C18: the whole program through its own main: the report agrees with the files and the files with each other; bad input gives an error and touches no result. */
#include "step.h"
#include <unistd.h>
#define main solve_main
#include "main.c"
#undef main
static const char*METH[][6]={ {"-method","enum",0}, {"-method","twopass",0}, {"-method","witness",0}, {"-method","incprune","-inc_prune","normal",0}, {"-method","incprune","-inc_prune","restricted_region",0}, {"-method","incprune","-inc_prune","generalized",0}, {"-method","grid","-fg_type","pairwise",0}, {"-method","grid","-fg_type","initial","-fg_points",0} };
static const char*CUR;
static int find(const char*s){ const char*q=CUR?strstr(CUR,s):0; if(!q){ sym_check(0,"expected line missing from the report"); return 0; } CUR=q+strlen(s); return 1; }
static int num(int*v){ char*e; while(*CUR==' ') CUR++; *v=strtol(CUR,&e,10); if(e==CUR){ sym_check(0,"expected number missing from the report"); return 0; } CUR=e; return 1; }
static int setting(const char*name,const char*val){ static char b[64]; strcpy(b,"\n"); strcat(b,name); strcat(b," = "); strcat(b,val); strcat(b,"\n"); const char*r=sym_file_get("/mem/report"); int ok=r&&strstr(r,b); sym_check(ok,"the report does not show the setting in force"); return ok; }
/* number of vectors in an alpha file, -1 if it is absent or not well formed */
static int vectors(const char*f,int S,int A){ const char*t=sym_file_get(f); int n=0; if(!t) return -1; for(;;){ char*e; while(*t==' '||*t=='\n') t++; if(!*t) return n; long a=strtol(t,&e,10); if(e==t||a<0||a>=A||*e!='\n') return -1; t=e; for(int s=0;s<S;s++){ strtod(t,&e); if(e==t) return -1; t=e; } n++; } }
static int nodes(const char*f,int A,int O,int prev){ const char*t=sym_file_get(f); int n=0; if(!t) return -1; for(;;){ char*e; while(*t==' '||*t=='\n') t++; if(!*t) return n; long a=strtol(t,&e,10); if(e==t||a!=n) return -1; t=e; a=strtol(t,&e,10); if(e==t||a<0||a>=A) return -1; t=e;
    for(int o=0;o<O;o++){ while(*t==' ') t++; if(*t=='X'||*t=='-'){ t++; continue; } a=strtol(t,&e,10); if(e==t||a<0||a>=prev) return -1; t=e; } while(*t==' ') t++; if(*t!='\n') return -1; n++; } }
static int load(const char*f,int S,int*act,double(*v)[3],int max){ const char*t=sym_file_get(f); int n=0; for(;t&&n<max;n++){ char*e; while(*t==' '||*t=='\n') t++; if(!*t) break; act[n]=strtol(t,&e,10); t=e; for(int s=0;s<S;s++){ v[n][s]=strtod(t,&e); t=e; } } return n; }
/* every node of a graph names the action and the successors of the vector at the same place of the value function, over the vectors of the epoch before */
static void plans(Model*m,const char*fa,const char*fp,const char*fprev){ static double v[24][3],w[24][3]; static int a[24],b[24]; int S=m->S,n=load(fa,S,a,v,24),k=load(fprev,S,b,w,24); const char*t=sym_file_get(fp); if(n==24||k==24||!t) return; sym_cover("plans");
  for(int i=0;i<n;i++){ char*e; int ok=1,z[4]; strtol(t,&e,10); t=e; int act=strtol(t,&e,10); t=e; for(int o=0;o<m->O;o++){ while(*t==' ') t++; if(*t=='X'||*t=='-'){ z[o]=-1; t++; } else { z[o]=strtol(t,&e,10); t=e; if(z[o]<0||z[o]>=k) ok=0; } }
    sym_check(act==a[i],"the graph of an epoch gives another action than its value function"); if(!ok||act!=a[i]) continue;
    for(int s=0;s<S;s++){ double x=m->cost?-m->R[act][s]:m->R[act][s]; for(int p=0;p<S;p++) for(int o=0;o<m->O;o++) if(z[o]>=0) x+=m->g*m->T[act][s][p]*m->Z[act][p][o]*w[z[o]][p]; sym_check_eq(v[i][s],x,1e-5,"a node of the graph of an epoch does not have the value of its vector"); } } }
static const char*OLD="0\n7 7 7\n\n";
static void bad(void){ Model m; static char*av[16]; int n=0,k=sym_choice("bad",13); m_default(&m,2,2,2,1); m.R[0][0]=sym_real("R",0.5,4);
  av[n++]="pomdp-solve"; av[n++]="-stdout"; av[n++]="/mem/report"; av[n++]="-o"; av[n++]="/mem/out"; av[n++]="-horizon"; av[n++]="2"; sym_file_put("/mem/out.alpha",OLD); sym_file_put("/mem/out.pg",OLD);
  if(k==1){ m.T[0][0][0]+=0.25; } if(k==2) m.Z[1][1][0]=m.Z[1][1][0]*0.5; m_text(&m);
  if(k==3){ char*q=strstr(MT,"states"); q[0]='z'; } if(k==4) MT[strlen(MT)/2]=0; if(k==5){ strcat(MT,"\nT: 7 : 0 : 0 0.5\n"); } if(k==6){ strcat(MT,"\nR: 0 : nowhere : * : * 1\n"); }
  if(k==12){ MT[0]=0; }
  if(k!=0) sym_file_put("/mem/model.pomdp",MT);
  if(k!=7){ av[n++]="-pomdp"; if(k!=8) av[n++]="/mem/model.pomdp"; }
  if(k==9) av[n++]="-nosuch"; if(k==10){ av[n++]="-method"; av[n++]="newton"; } if(k==11){ av[n++]="-stop_delta"; av[n++]="small"; }
  av[n]=0; int rc=SYM_TRY(); if(rc==0){ rc=solve_main(n,av); SYM_END(); }
  char c[8]="bad00"; c[3]='0'+k/10; c[4]='0'+k%10; sym_cover(c);
  sym_check(rc!=0,"bad input is accepted"); sym_check(rc!=99,"assertion failure on bad input");
  const char*t=sym_file_get("/mem/out.alpha"),*u=sym_file_get("/mem/out.pg"); sym_check(t&&!strcmp(t,OLD)&&u&&!strcmp(u,OLD),"a failed run touches the result files"); }
void sym_harness(void){
  if(sym_cfg("BAD",0)){ bad(); return; }
  Model m; int S=sym_cfg("S",2),A=2,O=sym_cfg("O",2),M=sym_cfg("M",3); static char*av[48]; int n=0; m_default(&m,S,A,O,sym_cfg("SEED",1)+sym_choice("seed",sym_cfg("SEEDS",3))); m.cost=sym_choice("cost",2);
  int H=1+sym_choice("horizon",3), save=sym_choice("save",2), pen=sym_choice("pen",2), sum=sym_choice("summary",2), tv=sym_choice("terminal",2), f=sym_choice("focus",2); static const char*HS[]={"0","1","2","3"};
  if(f) m.R[0][0]=sym_real("R",0.5,4); else m.g=sym_real("g",0.25,0.95);
  m_text(&m); sym_file_put("/mem/model.pomdp",MT); sym_file_put("/mem/out.alpha",OLD); sym_file_put("/mem/out.pg",OLD);
  av[n++]="pomdp-solve"; av[n++]="-pomdp"; av[n++]="/mem/model.pomdp"; av[n++]="-stdout"; av[n++]="/mem/report"; av[n++]="-o"; av[n++]="/mem/out"; av[n++]="-horizon"; av[n++]=(char*)HS[H]; for(int i=0;METH[M][i];i++) av[n++]=(char*)METH[M][i]; if(M==7) av[n++]="5";
  if(save){ av[n++]="-save_all"; av[n++]="true"; } if(pen) av[n++]="-save_penultimate"; if(sum){ av[n++]="-stat_summary"; av[n++]="true"; }
  if(tv){ sym_file_put("/mem/tv.alpha",S==2?"0\n3 -2\n\n1\n-1 2.5\n\n":"0\n3 -2 1\n\n1\n-1 2.5 0\n\n"); av[n++]="-terminal_values"; av[n++]="/mem/tv.alpha"; }
  av[n]=0; int rc=SYM_TRY(); if(rc==0){ rc=solve_main(n,av); SYM_END(); } sym_check(rc==0,"the program fails"); if(rc) return;
  static char bk[64]; sprintf(bk,"##pomdp-solve-%d##",(int)getpid()); sym_check(sym_file_get(bk)==0,"backup file left behind");
  setting("horizon",HS[H]); setting("method",METH[M][1]); setting("save_all",save?"true":"false"); setting("save_penultimate",pen?"true":"false"); setting("stat_summary",sum?"true":"false"); setting("pomdp","/mem/model.pomdp"); setting("o","/mem/out"); setting("terminal_values",tv?"/mem/tv.alpha":"");
  int nv=vectors("/mem/out.alpha",S,A), sz[4], x; sym_check(nv>0,"solution file is not a well formed list of vectors"); if(nv<=0) return;
  CUR=sym_file_get("/mem/report"); if(!find("[Initial policy has")||!num(&x)) return; sym_check(x==(tv?2:1),"size of the initial policy in the report"); sz[0]=tv?2:1;
  for(int e=1;e<=H;e++){ if(!find("Epoch: ")||!num(&x)) return; sym_check(x==e,"epochs are reported out of order"); if(!find("...")||!num(&x)) return; sz[e]=x; if(!find(" vectors")) return;
    char fa[]="/mem/out.alpha0",fp[]="/mem/out.pg0"; fa[14]='0'+e; fp[11]='0'+e; if(save){ sym_check(vectors(fa,S,A)==x,"number of vectors reported for an epoch differs from the saved value function"); sym_check(nodes(fp,A,O,sz[e-1])==x,"saved policy graph of an epoch is not well formed or of another size"); if(e>1&&M<6){ char fq[]="/mem/out.alpha0"; fq[14]='0'+e-1; plans(&m,fa,fp,fq); } } else sym_check(!sym_file_get(fa)&&!sym_file_get(fp),"epoch saved although not asked for"); }
  { char fa[]="/mem/out.alpha0"; fa[14]='0'+H+1; sym_check(!sym_file_get(fa),"file of an epoch that was not run"); }
  sym_check(sz[H]==nv,"number of vectors reported differs from the solution file"); if(M<6) sym_check(nodes("/mem/out.pg",A,O,sz[H-1])==nv,"policy graph file is not well formed or of another size");
  if(pen&&H>1) sym_check(vectors("/mem/out.prev.alpha",S,A)==sz[H-1],"next-to-last value function has another size than reported"); else sym_check(!sym_file_get("/mem/out.prev.alpha"),"next-to-last value function saved although there is none or it was not asked for");
  if(pen&&H>1&&M<6) plans(&m,"/mem/out.alpha","/mem/out.pg","/mem/out.prev.alpha");
  sym_check(strstr(CUR,"Epoch: ")==0,"an epoch beyond the horizon is reported"); if(!find("Solution found.  See file:\n\t/mem/out.alpha\n\t/mem/out.pg\n")) return;
  if(sum){ if(!find("Statistic Summary")||!find("\nEpoch")||!find("\n")) return; for(int e=1;e<=H;e++){ while(*CUR=='\n') CUR++; if(!num(&x)) return; sym_check(x==e,"statistics: epoch"); if(!num(&x)) return; sym_check(x==sz[e],"statistics: size of an epoch"); if(!find("\n")) return; } sym_cover("summary"); }
  else sym_check(strstr(CUR,"Statistic Summary")==0,"statistics although not asked for");
  char c[8]="n00"; c[1]='0'+nv/10; c[2]='0'+nv%10; sym_cover(c); sym_observe("n",nv);
}
