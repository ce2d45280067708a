/* C07 (OP 0-5): pomdp-tools file operations.  C09 (OP 6,7): the belief tracker.  Real code: utils.c and everything below it. */
#include "solve.h"
#include "belief.h"
#include "utils.h"
#include "pg.h"
#include "lp-interface.h"
#define main tools_main
#include "pomdp-tools-main.c"
#undef main
static int S;
/* a tool, called directly or through the program's own main */
static int tool(int via,const char*name,const char*a1,const char*a2,const char*pg1,const char*bel,const char*out,int states,const char*eps,const char*pomdp){
  static char*av[32]; int n=0; static char ns[4]; if(!via) return 0;
  av[n++]="pomdp-tools"; if(a2){ av[n++]="-alpha2"; av[n++]=(char*)a2; } av[n++]="-tool"; av[n++]=(char*)name; if(a1){ av[n++]="-alpha1"; av[n++]=(char*)a1; } if(pg1){ av[n++]="-pg1"; av[n++]=(char*)pg1; } if(bel){ av[n++]="-belief"; av[n++]=(char*)bel; }
  if(out){ av[n++]="-o"; av[n++]=(char*)out; } if(states){ ns[0]='0'+states; ns[1]=0; av[n++]="-states"; av[n++]=ns; } if(eps){ av[n++]="-epsilon"; av[n++]=(char*)eps; } if(pomdp){ av[n++]="-pomdp"; av[n++]=(char*)pomdp; } av[n]=0;
  gNumStates=gNumObservations=0; int rc=SYM_TRY(); if(rc==0){ rc=tools_main(n,av); SYM_END(); } sym_check(rc==0,"the tool fails"); return 1; }
static const char*CUR; /* cursor in the output text */
static int find(const char*s){ const char*q=CUR?strstr(CUR,s):0; if(!q){ sym_check(0,"expected line missing from the report"); return 0; } CUR=q+strlen(s); return 1; }
static int num(const char*s,int*v){ if(!find(s)) return 0; *v=atoi(CUR); return 1; }
static int val(const char*s,double*v){ if(!find(s)) return 0; while(*CUR==' ') CUR++; *v=atof(CUR); return 1; }
static int ints(int*o){ int n=0; char*e; for(;;){ while(*CUR==' ') CUR++; if(*CUR<'0'||*CUR>'9') break; o[n++]=strtol(CUR,&e,10); CUR=e; if(n>=40) break; } return n; }
static double vmax(double v[][MS],int n,const double*b){ double m=vdot(v[0],b,S); for(int i=1;i<n;i++){ double x=vdot(v[i],b,S); if(x>m) m=x; } return m; }
/* indices attaining the maximum; values closer than the margin but not equal are outside the bounds */
static int best(double v[][MS],int n,const double*b,int*o){ double m=vmax(v,n,b); int k=0; for(int i=0;i<n;i++){ double x=vdot(v[i],b,S); if(sym_same(x,m)) o[k++]=i; else { double d=m-x; if(d<1e-3){ if(d>-1e-12&&d<1e-12) o[k++]=i; else sym_prune(); } } } return k; }
static void vecs(double v[][MS],int n,const char*pre,int k,int rot){ for(int i=0;i<n;i++) for(int s=0;s<S;s++) v[i][s]=floor(GEN(3*i+5*s+rot*7+pre[0])*64)/16.0-2; for(int j=0;j<k;j++){ int i=(rot+j/S)%n,s=(rot+j)%S; v[i][s]=sym_real(nm3(pre,i,s,0),-4,4); } }
static void save(double v[][MS],int n,const int*act,const char*f){ AlphaList l=mk_list(v,n,S,act); saveAlphaList(l,(char*)f); destroyAlphaList(l); }
static int beliefs(double b[][MS],int nb,const char*f){ BeliefList l=0; for(int i=0;i<nb;i++){ double rest=1; for(int s=0;s<S-1;s++){ b[i][s]=i==0?sym_real(nm3("b",s,0,0),0.01,1.0/(S-1)-0.01):(i-1==s)?1.0:(i>S)?floor(8*GEN(i+s)/S)/8.0:0.0; rest-=b[i][s]; } b[i][S-1]=rest; l=appendBeliefList(l,b[i]); }
  saveBeliefList(l,(char*)f); return nb; }
/* report of which vectors are best where */
static void mapping(double v[][MS],int n,double b[][MS],int nb){ int own[8][40]={{0}},no[8]={0},sh[8][40]={{0}},ns[8]={0},k,o[40],q;

  for(int i=0;i<nb;i++){ int w[40],nw=best(v,n,b[i],w); double x; if(!num("Belief[",&k)) return; sym_check(k==i,"belief points in order"); if(!find("Best Alpha Indices:")) return; q=ints(o); sym_check(q==nw,"number of best vectors of a belief"); for(int j=0;j<nw&&j<q;j++) sym_check(o[j]==w[j],"best vectors of a belief"); if(!val("Best Alpha Value:",&x)) return; sym_check_eq(x,vmax(v,n,b[i]),1e-6,"value of a belief");
    for(int j=0;j<nw;j++) if(nw==1) own[w[j]][no[w[j]]++]=i; else sh[w[j]][ns[w[j]]++]=i; sym_cover(nw==1?"unique":"shared"); }
  for(int i=0;i<n;i++){ if(!num("Alpha[",&k)) return; sym_check(k==i,"vectors in order"); if(!find("Uniquely best:")) return; q=ints(o); sym_check(q==no[i],"beliefs at which a vector is the only best"); for(int j=0;j<q&&j<no[i];j++) sym_check(o[j]==own[i][j],"beliefs at which a vector is the only best");
    if(!find("Non-uniquely best:")) return; q=ints(o); sym_check(q==ns[i],"beliefs at which a vector is tied"); for(int j=0;j<q&&j<ns[i];j++) sym_check(o[j]==sh[i][j],"beliefs at which a vector is tied"); } }
static double adiff(const double*a,const double*b){ double m=0; for(int s=0;s<S;s++){ double d=a[s]-b[s]; if(d<0) d=-d; if(d>m) m=d; } return m; }
static void wtext(const char*f,int n,int O,int nx[][MO],const int*act){ static char B[1<<12]; int k=0; for(int i=0;i<n;i++){ B[k++]='0'+i; B[k++]=' '; B[k++]='0'+act[i]; for(int z=0;z<O;z++){ B[k++]=' '; B[k++]=nx[i][z]<0?'X':'0'+nx[i][z]; } B[k++]='\n'; } B[k]=0; sym_file_put(f,B); }
void sym_harness(void){
  Model m; int op=sym_cfg("OP",0), n=sym_cfg("N",3), K=sym_cfg("K",2), nb=sym_cfg("B",3); S=sym_cfg("S",2); double v[8][MS],w[8][MS],b[40][MS]; int act[8]; for(int i=0;i<8;i++) act[i]=(i*2+1)%5;
  m_default(&m,S,2,2,1); PomdpSolveParams p=0; int rot=0, via=(op>=6?sym_cfg("VIA",0):sym_choice("via",2));
  if(op<=5){ if(via&&op<5){ gNumStates=S; } else p=solve_setup(&m,0,0); rot=sym_choice("rot",n); vecs(v,n,"v",K,rot); int tie=sym_choice("tie",3); if(tie==1) for(int s=0;s<S;s++) v[n-1][s]=v[rot==n-1?0:rot][s]; if(tie==2) v[n-1][0]=v[rot==n-1?0:rot][0]; }
  if(op==0||op==1){ save(v,n,act,"/mem/a"); if(op==0){ if(!tool(via,"sort_alphas","/mem/a",0,0,0,"/mem/o",S,0,0)) UTIL_sortAlphaFile("/mem/a","/mem/o"); } else if(!tool(via,"purge_alphas","/mem/a",0,0,0,"/mem/o",S,0,0)) UTIL_purgeAlphaFile("/mem/a","/mem/o",p);
    AlphaList l=readAlphaList("/mem/o",0); sym_check(l!=0,"no result file"); if(!l) return; int used[8]={0},c=0; AlphaList q=0;
    for(AlphaList x=l->head;x;x=x->next){ c++; int hit=-1; for(int i=0;i<n&&hit<0;i++){ int e=!used[i]&&x->action==act[i]; for(int s=0;e&&s<S;s++) if(!sym_same(x->alpha[s],v[i][s])){ double d=x->alpha[s]-v[i][s]; if(d>1e-9||d<-1e-9) e=0; } if(e) hit=i; } sym_check(hit>=0,"result contains a vector that was not in the file"); if(hit>=0) used[hit]=1; 
      if(q){ int dec=0; for(int s=0;s<S&&!dec;s++){ if(sym_same(q->alpha[s],x->alpha[s])) continue; double d=q->alpha[s]-x->alpha[s]; if(d<5e-7&&d>-5e-7) sym_prune(); dec=d>0?1:-1; } sym_check(dec<=0,"result is not in lexicographic order"); } q=x; }
    if(op==0) sym_check(c==n,"sorting changed the number of vectors");
    else { double qb[MS]; qbelief(qb,S); for(int i=0;i<n;i++) check_not_above(v[i],l,qb,S,1e-4,"purging lost a maximal vector"); sym_cover(c==n?"all kept":"some removed"); }
    sym_observe("n",c); sym_cover("done"); }
  if(op==2||op==3){ beliefs(b,nb,"/mem/b"); save(v,n,act,"/mem/a");
    if(op==3){ if(!tool(via,"map_beliefs","/mem/a",0,0,"/mem/b","/mem/o",S,"1e-9",0)) UTIL_mapBeliefList("/mem/b","/mem/a",1e-9,"/mem/o"); fflush(0); CUR=sym_file_get("/mem/o"); int k; if(num("Belief File: /mem/b (",&k)) sym_check(k==nb,"number of beliefs"); if(num("Alpha File: /mem/a (",&k)) sym_check(k==n,"number of vectors"); mapping(v,n,b,nb); }
    else { int n2=sym_cfg("N2",2), r2=sym_choice("same",2); for(int i=0;i<n2;i++) for(int s=0;s<S;s++) w[i][s]=r2?v[i][s]:floor(GEN(i*3+s+9)*64)/16.0-2; if(sym_choice("shift",2)){ double d=sym_real("shift",0.01,2); for(int s=0;s<S;s++) w[0][s]=w[0][s]+d; }
      save(w,n2,act,"/mem/a2"); if(!tool(via,"belief_alpha_compare","/mem/a","/mem/a2",0,"/mem/b","/mem/o",S,"1e-9",0)) UTIL_compareAlphaFilesUsingBeliefs("/mem/a","/mem/a2","/mem/b",1e-9,"/mem/o"); fflush(0); CUR=sym_file_get("/mem/o"); mapping(v,n,b,nb); mapping(w,n2,b,nb);
      int diff[40],nd=0,k,q,o[40],mx[40],nm=0; double mxd=0,d,x;
      for(int i=0;i<nb;i++){ double a=vmax(v,n,b[i]), c=vmax(w,n2,b[i]); if(!val("Best Alpha1 Value:",&x)) return; sym_check_eq(x,a,1e-6,"first value of a belief"); if(!val("Best Alpha2 Value:",&x)) return; sym_check_eq(x,c,1e-6,"second value of a belief"); if(!val("Difference:",&x)) return; sym_check_eq(x,c-a,1e-6,"difference at a belief");
        d=c-a; if(sym_same(a,c)) continue; if(d<0) d=-d; if(d<1e-3){ if(d<1e-12) continue; sym_prune(); } diff[nd++]=i; 
        if(!nm){ mxd=d; mx[0]=i; nm=1; } else if(sym_same(d,mxd)) mx[nm++]=i; else { double e=d-mxd; if(e<1e-3&&e>-1e-3){ if(e<1e-12&&e>-1e-12){ mx[nm++]=i; continue; } sym_prune(); } if(e>0){ mxd=d; mx[0]=i; nm=1; } } }
      if(!num("Number of beliefs with value difference:",&k)) return; sym_check(k==nd,"number of beliefs that differ"); if(!find("Belief indices with diffs:")) return; q=ints(o); sym_check(q==nd,"beliefs that differ"); for(int i=0;i<q&&i<nd;i++) sym_check(o[i]==diff[i],"beliefs that differ");
      if(nd){ if(!val("Maximal difference:",&x)) return; sym_check_eq(x,mxd,1e-5,"maximal difference"); if(!num("(",&k)) return; sym_check(k==nm,"number of beliefs with the maximal difference"); if(!find("Belief indices with maximal diffs:")) return; q=ints(o); for(int i=0;i<q&&i<nm;i++) sym_check(o[i]==mx[i],"beliefs with the maximal difference"); }
      sym_cover(nd==0?"equal":nd==nb?"all differ":"some differ"); } }
  if(op==4){ int n2=sym_cfg("N2",3); double eps=sym_choice("eps",2)?0.75:1e-9; vecs(w,n2,"w",0,1); if(sym_choice("eq",2)) for(int s=0;s<S;s++) w[1][s]=v[0][s]; int act2[8]; for(int i=0;i<8;i++) act2[i]=(i*3+1)%5; save(v,n,act,"/mem/a"); save(w,n2,act2,"/mem/a2"); if(!tool(via,"compare_alphas","/mem/a","/mem/a2",0,0,"/mem/o",S,eps>0.5?"0.75":"1e-9",0)) UTIL_compareAlphaFiles("/mem/a","/mem/a2",eps,"/mem/o"); fflush(0); CUR=sym_file_get("/mem/o");
    for(int i=0;i<n;i++){ int k; double d[8],x; for(int j=0;j<n2;j++){ d[j]=adiff(v[i],w[j]); double t=d[j]-eps; if(t<1e-4&&t>-1e-4&&!sym_is_const(d[j])) sym_prune(); }
      if(!num("Index ",&k)) return; sym_check(k==i,"vectors in order"); if(!num("[action=",&k)) return; sym_check(k==act[i],"action of a vector");
      const char*le=strchr(CUR,'\n'), *no=strstr(CUR,"NONE"); int any=0,used[8]={0}; for(int j=0;j<n2;j++) if(d[j]<=eps) any++; sym_check((no&&no<le)==(any==0),"whether a matching vector exists"); int rep=any?any:1; double last=0; if(!any){ if(!find("best is")) return; }
      for(int r=0;r<rep;r++){ const char*c=strchr(CUR,':'); if(!c||c>le){ sym_check(0,"a matching vector is not reported"); return; } CUR=c+1; k=atoi(CUR); if(k<0||k>=n2){ sym_check(0,"index of a match"); return; } sym_check(!used[k]++,"a match is reported twice"); if(!val("[diff=",&x)) return; sym_check_eq(x,d[k],2e-5,"difference to a match"); sym_check_le(last,d[k],1e-9,"matches in order of distance"); last=d[k]; if(any) sym_check_le(d[k],eps,1e-9,"reported match is not within the tolerance"); else for(int j=0;j<n2;j++) sym_check_le(d[k],d[j],1e-9,"reported vector is not the closest"); int ac; if(!num("action=",&ac)) return; sym_check(ac==act2[k],"action of a match"); }
      const char*df=strstr(CUR,"ACTION DIFFERS"); (void)df; CUR=le; sym_cover(any?"match":"no match"); } }
  if(op==5){ int O=2,np=sym_cfg("N2",3), nx[8][MO], f=sym_choice("pat",4); for(int i=0;i<n;i++) for(int z=0;z<O;z++) nx[i][z]=(f==3&&i==z)?-1:(i*(f+1)+z*2+f)%np; vecs(w,np,"w",0,2); if(sym_choice("eq",2)) for(int s=0;s<S;s++) w[1][s]=v[0][s]; int a2[8]; for(int i=0;i<n;i++) a2[i]=i%2;
    save(v,n,a2,"/mem/a"); save(w,np,a2,"/mem/p"); wtext("/mem/g",n,O,nx,a2); if(!tool(via,"pg_relink","/mem/a","/mem/p","/mem/g",0,"/mem/o",0,0,"/mem/model.pomdp")) UTIL_relinkPolicyGraph("/mem/a","/mem/g","/mem/p","/mem/o"); const char*t=sym_file_get("/mem/o"); if(!t){ sym_check(0,"no relinked graph"); return; } CUR=t;
    for(int i=0;i<n;i++){ char*e; int x=strtol(CUR,&e,10); if(e==CUR){ sym_check(0,"relinked graph is too short"); return; } sym_check(x==i,"node number"); CUR=e; x=strtol(CUR,&e,10); CUR=e; sym_check(x==a2[i],"action of a node");
      for(int z=0;z<O;z++){ while(*CUR==' ') CUR++; if(nx[i][z]<0){ sym_check(*CUR=='X'||*CUR=='-',"undefined successor"); CUR++; continue; } x=strtol(CUR,&e,10); if(e==CUR||x<0||x>=n){ sym_check(0,"successor is not a node of the graph"); return; } CUR=e; for(int j=0;j<n;j++) sym_check_le(adiff(w[nx[i][z]],v[x]),adiff(w[nx[i][z]],v[j]),1e-9,"successor is not the closest vector"); } sym_cover("relinked"); } }
  if(op==6||op==7){ /* belief tracker */
    static char in[4096]; static const char*BADL[]={"","x","9 0","-1 0","0","0 9","0 -1","0 0 0","0 x","0 0x"," \t "}; int steps=sym_cfg("STEPS",2), nl=0, cnt=0; double z;
    if(op==6){ for(int t=0;t<S;t++){ m.T[0][0][t]=0; } z=sym_real("t",0.05,0.95); m.T[0][0][0]=z; m.T[0][0][S-1]=1-z; for(int t=0;t<2;t++) m.Z[1][S-1][t]=0; m.Z[1][S-1][1]=1; if(sym_choice("imp",2)) for(int s=0;s<S;s++) for(int t=0;t<S;t++) m.T[1][s][t]=(t==S-1); z=sym_real("z",0.05,0.95); m.Z[0][0][0]=z; m.Z[0][0][1]=1-z; }
    m_text(&m); double x[MS]; int full=1; for(int s=0;s<S;s++) x[s]=1.0/S; if(op==6&&S==2){ /* explicit start */ double c=sym_real("s0",0.02,0.98); MTn=0; m_text(&m); char*o=strstr(MT,"T: "); static char tail[1<<15]; strcpy(tail,o); *o=0; MTn=o-MT; mt("start: "); mtv(c); mt(" "); mtv(1-c); mt("\n"); mt(tail); x[0]=c; x[1]=1-c; }
    sym_file_put("/mem/model.pomdp",MT); initializePomdp("/mem/model.pomdp",1e-5);
    int a[4],o[4],bad[4],ex=0; in[0]=0; for(int i=0;i<steps;i++){ bad[i]=-1; if(op==7&&i==0&&sym_cfg("CHR",0)){ static const char*PRE[]={"","0","0","0 ","0 0","exit",""},*POST[]={"0 0"," 0","1 0","0","","","exit"},*SKIP[]={" +-0"," 01","0"," +-0"," 01"," "," "}; int p=sym_choice("place",7),c=32+sym_choice("chr",95); if(strchr(SKIP[p],c)) sym_prune(); char cc[2]={c,0}; strcat(in,PRE[p]); strcat(in,cc); strcat(in,POST[p]); strcat(in,"\n"); bad[i]=12; sym_cover("any character"); continue; }
    int k=sym_choice(nm3("line",i,0,0),op==7?14:4); if(op==7&&k<11){ bad[i]=k; strcat(in,BADL[k]); } else if(op==7&&k==11){ for(int j=0;j<400;j++) strcat(in,"y"); bad[i]=11; } else if(op==7&&k==13){ a[i]=0; o[i]=1; strcat(in,"0 1"); } else if(op==7){ ex=1; strcat(in,"exit\n"); steps=i; break; } else { a[i]=k/2; o[i]=k%2; char c[6]={'0'+a[i],' ','0'+o[i],0}; strcat(in,c); if(k==3) strcat(in,"  \r"); } strcat(in,"\n"); }
    int fin=0; if(op==7&&!ex){ strcat(in,"1 0"); if(sym_choice("nl",2)) strcat(in,"\n"); fin=1; }
    sym_file_put("/mem/in",in); FILE*so=stdout,*si=stdin; stdout=fopen("/mem/out","w"); stdin=fopen("/mem/in","r"); if(!tool(via,"update_beliefs",0,0,0,0,0,0,0,"/mem/model.pomdp")) UTIL_doBeliefUpdates(); fclose(stdout); fclose(stdin); stdout=so; stdin=si; CUR=sym_file_get("/mem/out");
    for(int i=0;i<=steps+fin;i++){ double y[MS]; if(!full) break;
      if(!find("[")) return; for(int s=0;s<S;s++){ while(*CUR==' '||*CUR==',') CUR++; y[s]=atof(CUR); while(*CUR&&*CUR!=','&&*CUR!=']') CUR++; sym_check_eq(y[s],x[s],2e-6,"reported belief is not the posterior"); } cnt++; if(!find("]\n")) return; if(i==steps+fin) break;
      if(i<steps&&bad[i]>=0){ sym_check(strncmp(CUR,"[]\n",3)==0,"bad input line is not answered with an empty list"); CUR+=3; sym_cover("bad line"); continue; }
      int aa=i<steps?a[i]:1,oo=i<steps?o[i]:0; double nxt[MS],tot=0; for(int t=0;t<S;t++){ nxt[t]=0; for(int s=0;s<S;s++) nxt[t]+=x[s]*m.T[aa][s][t]; nxt[t]*=m.Z[aa][t][oo]; tot+=nxt[t]; }
      if(sym_same(tot,0.0)||tot==0){ for(int s=0;s<S;s++) x[s]=0; sym_cover("impossible observation"); if(!find("[")) return; for(int s=0;s<S;s++){ while(*CUR==' '||*CUR==',') CUR++; y[s]=atof(CUR); while(*CUR&&*CUR!=','&&*CUR!=']') CUR++; sym_check_eq(y[s],0,1e-9,"impossible observation is not answered with zeros"); } full=0; }
      else { if(tot<1e-3) sym_prune(); for(int s=0;s<S;s++) x[s]=nxt[s]/tot; sym_cover("posterior"); } }
    if(full) sym_check(strstr(CUR,"[")==0,"output continues after the end of the input"); sym_cover("tracker"); }
}
