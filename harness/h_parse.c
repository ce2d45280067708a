/* C01-C05: what a model file says is what the program works with.
   Real code: readMDP (scanner, parser, hash, immediate rewards, decision tree,
   sparse matrices), convertMatrices, getImmediateReward.
   The file text is built from enumerated forms with symbolic numbers; the
   reference is "the last entry that covers a cell wins". */
#include "common.h"
#include "imm-reward.h"
static int S,A,O,mdp; static double Tm[MA][MS][MS],Zm[MA][MS][MO],Rm[MA][MS][MS][MO],b0[MS];
static int names; static const char *SN[]={"sa","as","s-2","T1"},*AN[]={"left","sa","uniform2"},*ON[]={"sa","o_b","left"};
static void rs(int s){ if(s<0) mt("*"); else if(names&1) mt(SN[s]); else mti(s); }
static void ra(int a){ if(a<0) mt("*"); else if(names&2) mt(AN[a]); else mti(a); }
static void ro(int o){ if(o<0) mt("*"); else if(names&2) mt(ON[o]); else mti(o); }
#define EACH(v,x,n) for(int v=((x)<0?0:(x)); v<=((x)<0?(n)-1:(x)); v++)
static double dv(const char*n,int i,int j,int k){ return sym_real(nm3(n,i,j,k),0.05,0.3); }
static int un; /* unique suffix */
static void dist(double*out,int n){ sym_dist(out,n,"p",un++%10,un/10,0.04); }
/* -- transitions -- */
static void t_single(int a,int s,int t,double v){ mt("T: "); ra(a); mt(" : "); rs(s); mt(" : "); rs(t); mt(" "); mtv(v); mt("\n"); EACH(i,a,A) EACH(j,s,S) EACH(k,t,S) Tm[i][j][k]=v; }
static void t_row(int a,int s,int how,double*p){ mt("T: "); ra(a); mt(" : "); rs(s);
  if(how==1) mt(" uniform\n"); else if(how==2) mt(" reset\n"); else { mt("\n"); for(int k=0;k<S;k++){ mtv(p[k]); mt(k==S-1?"\n":"  "); } }
  EACH(i,a,A) EACH(j,s,S) for(int k=0;k<S;k++) Tm[i][j][k]= how==1?1.0/S: how==2? b0[k]: p[k]; }
static void t_all(int a,int how,double (*p)[MS]){ mt("T: "); ra(a);
  if(how==1) mt("\nuniform\n"); else if(how==2) mt(" identity\n"); else { mt(" "); for(int j=0;j<S;j++) for(int k=0;k<S;k++){ mtv(p[j][k]); mt(k==S-1?"\n":" "); } }
  EACH(i,a,A) for(int j=0;j<S;j++) for(int k=0;k<S;k++) Tm[i][j][k]= how==1?1.0/S: how==2?(j==k): p[j][k]; }
static void o_single(int a,int s,int o,double v){ mt("O: "); ra(a); mt(" : "); rs(s); mt(" : "); ro(o); mt(" "); mtv(v); mt("\n"); EACH(i,a,A) EACH(j,s,S) EACH(k,o,O) Zm[i][j][k]=v; }
static void o_row(int a,int s,int how,double*p){ mt("O: "); ra(a); mt(" : "); rs(s);
  if(how==1) mt("\nuniform\n"); else { mt(" "); for(int k=0;k<O;k++){ mtv(p[k]); mt(k==O-1?"\n":" "); } }
  EACH(i,a,A) EACH(j,s,S) for(int k=0;k<O;k++) Zm[i][j][k]= how==1?1.0/O: p[k]; }
static void o_all(int a,int how,double (*p)[MO]){ mt("O: "); ra(a);
  if(how==1) mt(" uniform\n"); else { mt("\n"); for(int j=0;j<S;j++) for(int k=0;k<O;k++){ mtv(p[j][k]); mt(k==O-1?"\n":" "); } }
  EACH(i,a,A) for(int j=0;j<S;j++) for(int k=0;k<O;k++) Zm[i][j][k]= how==1?1.0/O: p[j][k]; }
static void mts(double v,int neg){ if(neg){ mt("-"); } mtv(v); }
static int sg,sgn; /* sign pattern */
static double rv(int*neg){ double v=sym_real(nm3("r",un%10,(un/10)%10,un/100),0.1,9); un++; sg=sg*5+1; *neg= sym_cfg("ALL",0)? (sg>>2)&1: sgn; return v; }
static void r_single(int a,int s,int t,int o,int zero){ int ng=0; double v= zero?0.0: rv(&ng); mt("R: "); ra(a); mt(" : "); rs(s); mt(" : "); rs(t); if(!mdp){ mt(" : "); ro(o); } mt(" "); mts(v,ng); mt("\n"); if(ng) v=-v;
  EACH(i,a,A) EACH(j,s,S) EACH(k,t,S){ if(mdp) Rm[i][j][k][0]=v; else EACH(q,o,O) Rm[i][j][k][q]=v; } }
static void r_row(int a,int s,int t,int zmask){ /* POMDP: over observations (t given); MDP: over next states (t ignored) */
  mt("R: "); ra(a); mt(" : "); rs(s); if(!mdp){ mt(" : "); rs(t); } mt("\n"); int n=mdp?S:O;
  for(int q=0;q<n;q++){ int ng=0; double v=(zmask>>q&1)?0.0:rv(&ng); mts(v,ng); mt(q==n-1?"\n":" "); if(ng) v=-v;
    EACH(i,a,A) EACH(j,s,S) if(mdp) Rm[i][j][q][0]=v; else EACH(k,t,S) Rm[i][j][k][q]=v; } }
static void r_all(int a,int s,int zmask){ /* POMDP: next x obs; MDP: cur x next */
  mt("R: "); ra(a); if(!mdp){ mt(" : "); rs(s); } mt("\n"); int n=mdp?S:O, c=0;
  for(int k=0;k<S;k++) for(int q=0;q<n;q++){ int ng=0; double v=(zmask>>(c++)&1)?0.0:rv(&ng); mts(v,ng); mt(q==n-1?"\n":" "); if(ng) v=-v;
    EACH(i,a,A) if(mdp) Rm[i][k][q][0]=v; else EACH(j,s,S) Rm[i][j][k][q]=v; } }
static int sc(const char*n,int k){ return sym_choice(n,k); }
static int cost;
static void header(int bad){
  static const char*cm[]={"","# comment: states 9 0.5 T: 0 identity\n"}; MTn=0; MT[0]=0; if(names) mt(cm[1]);
  mt(cost?"discount: 0.9\nvalues: cost\nstates: ":"discount: 0.9\nvalues: reward\nstates: "); if(names&1) for(int i=0;i<S;i++){ mt(SN[i]); mt(" "); } else mti(S);
  mt("\nactions: "); if(names&2) for(int i=0;i<A;i++){ mt(AN[i]); mt("\n"); } else mti(A);
  if(!mdp){ mt("\nobservations: "); if(names&2) for(int i=0;i<O;i++){ mt(ON[i]); mt(" "); } else mti(O); }
  mt("\n"); }
static void rest_T(void){ for(int a=0;a<A;a++) t_all(a,2,0); }
static void fix_T(void){ for(int a=0;a<A;a++) for(int s=0;s<S;s++){ double p[MS],r=1; for(int k=0;k<S-1;k++){ p[k]=floor(r*GEN(a*5+s*3+k)*32)/32; r-=p[k]; } p[S-1]=r; t_row(a,s,0,p); } }
static void fix_O(void){ for(int a=0;a<A;a++) for(int s=0;s<S;s++){ double p[MO],r=1; for(int k=0;k<O-1;k++){ p[k]=floor(r*GEN(a*7+s*2+k+3)*32)/32; r-=p[k]; } p[O-1]=r; o_row(a,s,0,p); } }
static void t_entry(int f,int x){ double p[MS],P[MS][MS]; int a1=x&1, s1=(x>>1)%S;
  switch(f){
  case 0: t_all(-1,1,0); break;              case 1: t_all(-1,2,0); break;
  case 2: for(int j=0;j<S;j++) dist(P[j],S); t_all(-1,0,P); break;
  case 3: for(int j=0;j<S;j++) dist(P[j],S); t_all(a1,0,P); break;
  case 4: dist(p,S); t_row(a1,s1,0,p); break;
  case 5: dist(p,S); t_row(-1,s1,0,p); break;
  case 6: dist(p,S); t_row(a1,-1,0,p); break;
  case 7: t_row(a1,s1,1,0); break;           case 8: t_row(-1,s1,2,0); break;
  case 9: dist(p,S); for(int k=0;k<S;k++) t_single(a1,s1,k,p[k]); break;
  case 10: dist(p,S); for(int k=S-1;k>=0;k--) t_single(-1,s1,k,p[k]); break;
  case 11: dist(p,S); for(int k=0;k<S;k++) t_single(a1,-1,(k+1)%S,p[(k+1)%S]); break;
  case 12: for(int k=0;k<S;k++) t_single(a1,s1,k,k==(s1+1)%S?1.0:0.0); break;
  case 13: if(S==2) t_single(a1,-1,-1,0.5); else { t_single(-1,s1,-1,0.25); t_single(-1,s1,1,0.5); } break;
  case 14: t_row(a1,-1,2,0); break;          case 15: t_all(a1,2,0); break;
  case 16: t_all(a1,1,0); break;             case 17: t_row(-1,-1,1,0); break;
  case 18: p[0]=0; p[1]=1; p[2]=0; p[3]=0; t_row(a1,s1,0,p); break; } }
static void o_entry(int f,int x){ double p[MO],P[MS][MO]; int a1=x&1, s1=(x>>1)%S;
  switch(f){
  case 0: o_all(-1,1,0); break;
  case 1: for(int j=0;j<S;j++) dist(P[j],O); o_all(-1,0,P); break;
  case 2: for(int j=0;j<S;j++) dist(P[j],O); o_all(a1,0,P); break;
  case 3: dist(p,O); o_row(a1,s1,0,p); break;
  case 4: dist(p,O); o_row(-1,s1,0,p); break;
  case 5: dist(p,O); o_row(a1,-1,0,p); break;
  case 6: o_row(a1,s1,1,0); break;           case 7: o_row(-1,-1,1,0); break;
  case 8: dist(p,O); for(int k=0;k<O;k++) o_single(a1,s1,k,p[k]); break;
  case 9: dist(p,O); for(int k=O-1;k>=0;k--) o_single(-1,s1,k,p[k]); break;
  case 10: dist(p,O); for(int k=0;k<O;k++) o_single(a1,-1,k,p[k]); break;
  case 11: for(int k=0;k<O;k++) o_single(a1,s1,k,k==O-1?1.0:0.0); break;
  case 12: if(O==2) o_single(a1,-1,-1,0.5); else { o_single(-1,s1,-1,0.25); o_single(-1,s1,1,0.5); } break;
  case 13: o_all(a1,1,0); break; } }
static void r_entry(int f,int x){ int a1=x&1, s1=(x>>1)%S, t1=(x+1)%S, o1=x%(O?O:1);
  switch(f){
  case 0: r_single(-1,-1,-1,-1,0); break;    case 1: r_single(a1,-1,-1,-1,0); break;
  case 2: r_single(a1,s1,-1,-1,0); break;    case 3: r_single(-1,s1,t1,-1,0); break;
  case 4: r_single(a1,s1,t1,o1,0); break;    case 5: r_single(-1,-1,-1,o1,0); break;
  case 6: r_single(-1,-1,t1,-1,0); break;    case 7: r_single(a1,-1,-1,o1,0); break;
  case 8: r_row(a1,s1,t1,0); break;          case 9: r_row(a1,-1,t1,1); break;
  case 10: r_row(-1,s1,-1,0); break;         case 11: r_row(-1,-1,-1,2); break;
  case 12: r_all(a1,s1,0); break;            case 13: r_all(a1,-1,2); break;
  case 14: r_all(-1,s1,5); break;            case 15: r_single(a1,s1,-1,o1,1); break;
  case 16: r_single(-1,s1,-1,-1,1); break;   case 17: r_row(-1,s1,t1,0); break;
  case 18: r_all(-1,-1,0); break;            case 19: r_single(a1,-1,t1,-1,0); break;
  case 20: break; } }
static int readit(void){ sym_file_put("/mem/model.pomdp",MT); int ok=0; if(SYM_TRY()==0){ ok=readMDP("/mem/model.pomdp"); SYM_END(); } else sym_check(0,"reading a model file aborted"); return ok; }
static void cmp_TO(void){
  for(int a=0;a<A;a++) for(int s=0;s<S;s++){
    for(int t=0;t<S;t++) sym_check_eq(getEntryMatrix(P[a],s,t),Tm[a][s][t],1e-9,"transition probability differs from the last covering entry");
    if(!mdp) for(int o=0;o<O;o++) sym_check_eq(getEntryMatrix(R[a],s,o),Zm[a][s][o],1e-9,"observation probability differs from the last covering entry"); } }
static void cmp_R(int deep){
  for(int a=0;a<A;a++) for(int s=0;s<S;s++){ double q=0;
    for(int t=0;t<S;t++){ if(mdp){ if(deep) sym_check_eq(getImmediateReward(a,s,t,0),Rm[a][s][t][0],1e-9,"reward differs from the last covering entry"); q+=Tm[a][s][t]*Rm[a][s][t][0]; }
      else for(int o=0;o<O;o++){ if(deep) sym_check_eq(getImmediateReward(a,s,t,o),Rm[a][s][t][o],1e-9,"reward differs from the last covering entry"); q+=Tm[a][s][t]*Zm[a][t][o]*Rm[a][s][t][o]; } }
    sym_check_eq(getEntryMatrix(Q,a,s),q,1e-8,"expected reward differs from the weighted sum of rewards");
    if(!mdp) sym_check_eq(getAdjustedReward(a,s),cost?-q:q,1e-8,"the reward the solvers use has the wrong value or direction"); } }
void sym_harness(void){
  int mode=sym_cfg("MODE",1), dims=sym_cfg("MODE",1)==6?0:sc("dims",2); A=2; mdp=0; names=0;
  S=dims?3:2; O=dims?2:3; for(int s=0;s<S;s++) b0[s]=1.0/S;
  if(mode==1){ /* transitions */
    mdp=sc("mdp",2); names=sc("names",2)*3; 
    int base=sc("base",4), f1=sc("f1",19), x1=sc("x1",2)*3, f2=sc("f2",20), x2=sc("x2",2)?2:0;
    header(0); if(!mdp){ mt("start:"); double p[MS]; dist(p,S); for(int s=0;s<S;s++){ mt(" "); mtv(p[s]); b0[s]=p[s]; } mt("\n"); }
    else { mt("start: "); mti(1); mt("\n"); for(int s=0;s<S;s++) b0[s]=s==1; }
    if(base==3){ double P0[MS][MS]; for(int a=0;a<A;a++){ for(int j=0;j<S;j++) dist(P0[j],S); t_all(a,0,P0); } } else t_entry(base,0);

    t_entry(f1,x1); if(f2<19) t_entry(f2,x2);
    if(!mdp) fix_O(); if(!mdp) mt("R: * : * : * : * 1\n"); else mt("R: * : * : * 1\n");
    sym_check(readit()==1,"well-formed model rejected"); sym_cover("T"); cmp_TO(); if(!mdp) for(int s=0;s<S;s++) sym_check_eq(gInitialBelief[s],b0[s],1e-9,"start belief changed by later entries");
  } else if(mode==2){ /* observations */
    names=sc("names",2)*3; int base=sc("base",3), f1=sc("f1",14), x1=sc("x1",2)*3, f2=sc("f2",15), x2=sc("x2",2)?2:0;
    header(0); fix_T(); if(base==2){ double P0[MS][MO]; for(int a=0;a<A;a++){ for(int j=0;j<S;j++) dist(P0[j],O); o_all(a,0,P0); } } else o_entry(base,0);
    o_entry(f1,x1); if(f2<14) o_entry(f2,x2); mt("R: * : * : * : * 1\n");
    sym_check(readit()==1,"well-formed model rejected"); sym_cover("O"); cmp_TO();
  } else if(mode==3){ /* rewards */
    mdp=sc("mdp",2); static const int F0[]={20,0,12,8,13,18}; int f0= sym_cfg("ALL",0)? sc("f0",21): F0[sc("f0",6)], f1=sc("f1",21), f2=sc("f2",21), x1= sym_cfg("ALL",0)? sc("x1",2)*3: (f0+f1+f2)%2*3, x2=(f0+f2)&1?2:0; cost=(f1>>1)&1; names=(f1&1)*3; sg=f0+3*f1+x2; sgn=(f0+f1+f2)%2;
    if(mdp&&(f1==5||f1==7||f2==5||f2==7||f0==5||f0==7||f1==15||f2==15||f0==15)) sym_prune();
    header(0); fix_T(); if(!mdp) fix_O(); r_entry(f0,0); r_entry(f1,x1); r_entry(f2,x2);
    sym_check(readit()==1,"well-formed model rejected"); sym_cover("R"); cmp_R(1);
  } else if(mode==4){ /* start belief */
    names=sc("names",2)*3; int f=sc("f",8), bad=0; S=2+sc("S",3); header(0); double p[MS];
    switch(f){
    case 0: break;                                            case 1: mt("start: uniform\n"); break;
    case 2: dist(p,S); mt("start: "); for(int s=0;s<S;s++){ mtv(p[s]); mt(" "); b0[s]=p[s]; } mt("\n"); break;
    case 3: { int k=sc("k",S); if(!names) sym_prune(); mt("start: "); rs(k); mt("\n"); for(int s=0;s<S;s++) b0[s]=s==k; } break;
    case 4: case 5: { int mask=1+sc("mask",(1<<S)-(f==5?2:1)), rev=sc("rev",2), n=0; mt(f==4?"start include:":"start exclude:");
       for(int q=0;q<S;q++){ int s=rev?S-1-q:q; if(mask>>s&1){ mt(" "); rs(s); n++; } } if(rev){ mt(" "); int s=0; while(!(mask>>s&1)) s++; rs(s); } mt("\n");
       for(int s=0;s<S;s++) b0[s]= f==4? ((mask>>s&1)?1.0/n:0.0): ((mask>>s&1)?0.0:1.0/(S-n)); } break;
    case 6: { int k=sc("k",S); mt("start:"); for(int s=0;s<S;s++){ mt(s==k?" 1":" 0"); b0[s]=s==k; } mt("\n"); } break;
    case 7: { int w=sc("w",3); mt(w==0?"start include: *\n":w==1?"start exclude: *\n":"start exclude:"); if(w==2){ for(int s=0;s<S;s++){ mt(" "); rs(s); } mt("\n"); } if(w) bad=1; } break; }
    if(f!=0&&f!=1&&f!=7){} else for(int s=0;s<S;s++) b0[s]=1.0/S;
    t_all(-1,2,0); fix_O(); t_row(1,S-1,2,0); mt("R: * : * : * : * 1\n");
    int ok=readit(); sym_cover(nm3("start",f,0,0)); if(bad){ sym_check(!ok,"empty start state list accepted"); return; }
    sym_check(ok==1,"well-formed model rejected"); if(!ok) return;
    for(int s=0;s<S;s++) sym_check_eq(gInitialBelief[s],b0[s],1e-9,"start belief is not the one specified"); cmp_TO();
  } else if(mode==5){ /* acceptance: probability data and discount */
    int f=sc("f",13), good=1, cond=2; double e=0,tot=0; S=dims?3:2; double Pt[MS][MS],Pz[MS][MO];
    int row=sc("row",S); double disc=0.9; int dneg=0, nodisc=0;
    int kind=(f==0)?sc("kind",5):0;    /* 0,1: T row / matrix, 2,3: O row / matrix, 4: start */
    MTn=0; MT[0]=0;
    if(f==1){ disc=sym_real("d",0,1.5); dneg=sc("dneg",2); }
    int miss=f==2?sc("miss",5):-1, perm=f==3?sc("perm",5):0;
    for(int q=0;q<5;q++){ int x=(q*(perm==4?3:1)+perm)%5; if(x==miss) continue;
      if(x==0){ mt("discount: "); if(dneg) mt("-"); mtv(disc); mt("\n"); } if(x==1) mt("values: reward\n"); if(x==2){ mt("states: "); mti(S); mt("\n"); } if(x==3){ mt("actions: "); mti(A); mt("\n"); } if(x==4&&f!=12){ mt("observations: "); mti(O); mt("\n"); } }
    if(f==2) good=0;
    if(f==12){ /* models without observations */
      int k=sc("k",13), x=sc("x",3); /* x: exact, one too many, one too few */ good= x==0; 
      if(k==12) mt("start: 1\n");
      if(k==10){ mt("start: "); mt(x==0?"1":x==1?"1 0":""); mt("\n"); }
      if(k==11){ mt("start: "); mti(x==0?S-1:x==1?S:S+7); mt("\n"); }
      for(int a=0;a<A;a++) t_all(a,2,0);
      if(k<2){ mt(k?"T: 1 : * ":"T: 1 : 0 "); for(int j=0;j<S+(x==1)-(x==2);j++) mt(j==0?"1 ":"0 "); mt("\n"); }
      else if(k==2){ mt("T: 0\n"); for(int j=0;j<S*S+(x==1)-(x==2);j++) mt(j%(S+1)==0?"1 ":"0 "); mt("\n"); }
      else if(k==3){ mt("R: 0 : 0 : 1 "); for(int j=0;j<1+(x==1)-(x==2);j++) mt("1.5 "); mt("\n"); }
      else if(k==4||k==5){ mt(k==4?"R: 0 : 1 ":"R: * : * "); for(int j=0;j<S+(x==1)-(x==2);j++) mt(j&1?"-2 ":"1.5 "); mt("\n"); }
      else if(k==6){ mt("R: 0\n"); for(int j=0;j<S*S+(x==1)-(x==2);j++) mt(j&1?"-2 ":"1.5 "); mt("\n"); }
      else if(k==7){ mt(x==0?"R: 1 : 1 : 0 1\n":x==1?"R: 1 : 1 : 0 : 0 1\n":"R: * : * : * : * 1\n"); }
      else if(k==8){ mt(x==0?"R: 1 : 1 : * 1\n":x==1?"R: 1 : 9 : * 1\n":"R: 1 : 1 : 9 1\n"); }
      else if(k==9){ mt(x==0?"T: 1 : 1 identity\n":x==1?"O: 1 : 1 : 0 1\n":"O: * uniform\n"); if(x==0) good=0; }
      else if(k==12){ mt(x==0?"T: 1 : 1 reset\n":x==1?"T: 1 reset\n":"T: 1 : 1 : 1 reset\n"); }
      int ok=readit(); sym_cover(nm3("mdp",k,x,0));
      sym_check(!!ok==good,good?"well-formed model without observations rejected":"ill-formed model without observations accepted"); return; }
    double p[8]; int n= kind==2||kind==3? O: S;
    if(f==0){ /* one distribution whose sum is off by e */
      double r=1; for(int k=0;k<n-1;k++){ p[k]=sym_real(nm3("p",k,0,0),0.01,0.9/n); r-=p[k]; } int w=sc("w",3); e= w==0? sym_real("e",-0.00003,0.00003): w==1? sym_real("e",0.00003,0.4): sym_real("e",-0.09,-0.00003); p[n-1]=r+e; }
    if(f==0&&kind==4){ mt("start: "); for(int k=0;k<S;k++){ mtv(p[k]); mt(" "); } mt("\n"); }
    if(f==4){ int k=sc("k",6); good=0; mt("start: "); for(int j=0;j<S+(k==0)-(k==1);j++){ mt(k==0?(j==0?"1 ":"0 "):k==1?(j==0?"1.0 ":"0.0 "):k==2?(j==0?"1.5 ":"0 "):k==3?(j==0?"2 ":"0 "):k==4?"0 ":(j==0?"-0.5 ":"0.5 ")); } mt("\n"); }
    if(f==5||f==6||f==7||f==8||f==9||f==10||(f==0&&kind<4)) if(sc("elsewhere",2)){ mt("start:"); for(int j=0;j<S;j++) mt(j==(row+1)%S?" 1":" 0"); mt("\n"); }
    /* transitions */
    if(f==0&&kind==0){ for(int a=0;a<A;a++) t_all(a,2,0); t_row(1,row,0,p); }
    else if(f==0&&kind==1){ for(int j=0;j<S;j++) for(int k=0;k<S;k++) Pt[j][k]= j==row? p[k]: (j==k); t_all(0,2,0); t_all(1,0,Pt); }
    else if(f==5){ int k=sc("k",6); good=0; for(int a=0;a<A;a++) t_all(a,2,0);   /* wrong entry counts, wrong values */
      if(k<2){ mt("T: 1 : "); mti(row); mt("\n"); for(int j=0;j<S+(k==0?1:-1);j++) mt(j==0?"1 ":"0 "); mt("\n"); }
      else if(k<4){ mt("T: 1\n"); for(int j=0;j<S*S+(k==2?1:-1);j++) mt(j%(S+1)==0?"1.0 ":"0.0 "); mt("\n"); if(k==3) mt("T: 1 identity\n"); }
      else { mt("T: 1 : "); mti(row); mt(" : 0 "); mt(k==4?"1.25":"2"); mt("\nT: 1 : "); mti(row); mt(" : 0 0\nT: 1 identity\n"); } }
    else if(f==6){ good=0; int a1=sc("a1",2); for(int a=0;a<A;a++) for(int j=0;j<S;j++) if(!(a==a1&&j==row)) t_single(a,j,j,1.0); }     /* one row never given */
    else if(f==7){ double x=sym_real("x",0.3,0.7), y=sym_real("y",0.3,0.7); int w=sc("w",2); double d=x+y-1; for(int a=0;a<A;a++) t_all(a,2,0); t_single(0,row,row,x); t_single(0,row,(row+1)%S,y); if(w){ t_single(0,row,(row+1)%S,0.0); t_single(0,row,row,1.0); }
      else { cond=1; e=d; } }
    else { int tb=(f==8||f==9||(f==0&&(kind==2||kind==3)))?sc("tb",3):0;   /* also: the state of the bad row is never entered */
      for(int a=0;a<A;a++){ if(tb==0) t_all(a,2,0); else if(tb==1) t_all(a,1,0); else for(int j=0;j<S;j++) t_single(a,j,(row+1)%S,1.0); } }
    /* observations */
    if(f==0&&kind==2){ o_all(-1,1,0); o_row(1,row,0,p); }
    else if(f==0&&kind==3){ for(int j=0;j<S;j++) for(int k=0;k<O;k++) Pz[j][k]= j==row? p[k]: (k==0); o_all(0,1,0); o_all(1,0,Pz); }
    else if(f==8){ int k=sc("k",7); good=0; o_all(-1,1,0);
      if(k<2){ mt("O: 1 : "); mti(row); mt("\n"); for(int j=0;j<O+(k==0?1:-1);j++) mt(j==0?"1 ":"0 "); mt("\n"); }
      else if(k<4){ mt("O: 1\n"); for(int j=0;j<S*O+(k==2?1:-1);j++) mt(j%O==0?"1.0 ":"0.0 "); mt("\n"); if(k==3) mt("O: 1 uniform\n"); }
      else if(k==4){ mt("O: 1 : "); mti(row); mt(" : 0 1.25\nO: 1 uniform\n"); } else if(k==5) mt("O: 1 identity\n"); else mt("O: 1 : 0 reset\n"); }
    else if(f==9){ good=0; int a1=sc("a1",2); for(int a=0;a<A;a++) for(int j=0;j<S;j++) if(!(a==a1&&j==row)) o_single(a,j,O-1,1.0); }
    else o_all(-1,1,0);
    /* rewards */
    if(f==10){ int k=sc("k",6); good=0;
      if(k<2){ mt("R: 0 : 0 : 1\n"); for(int j=0;j<O+(k==0?1:-1);j++) mt("-1.5 "); mt("\n"); }
      else if(k<4){ mt("R: 0 : 1\n"); for(int j=0;j<S*O+(k==2?1:-1);j++) mt("2 "); mt("\n"); }
      else if(k==4) mt("R: 0 : 0 : 0 : 0 1 2\n"); else mt("R: 0\n1 1\n1 1\n"); }
    else mt("R: * : * : * : * 1\n");
    if(f==11){ int k=sc("k",6); good=0; mt(k==0?"T: 0 : 0 : 0\n":k==1?"garbage\n":k==2?"R: * : * : * : * \n":k==3?"0.5\n":k==4?"start: uniform\n":"states: 2\n"); }
    int ok=readit();
    if(f==0){ double ab= e>=0? e: -e; good= !(ab>1e-5); sym_cover(good?"close":"off"); }
    if(f==1){ good= dneg? !(disc>0) : !(disc>1); sym_cover(good?"disc-ok":"disc-bad"); }
    if(f==7&&cond==1){ double ab= e>=0? e: -e; good= !(ab>1e-5); }
    sym_cover(nm3("f",f,0,0));
    if(good) sym_check(ok==1,"well-formed model rejected"); else sym_check(ok==0,"ill-formed model accepted");
  } else if(mode==6){ /* references */
    int f=sc("f",12), good=1, bn=sc("bynum",3), bi=0; names=0;
    /* sets of names: hash collisions ("ab"/"ba", ...), prefixes, reserved-word look-alikes, long names, case */
    static const char*sets[8][3]={{"ab","ba","a"},{"abd","bad","abdd"},{"abcz","bacz","abyycz"},{"uniform1","uniform-","Uniform"},{"T1","O1","R1"},{"long-name-with-more-than-thirty-two-characters-in-it","long-name-with-more-than-thirty-two-characters-in-it2","long-name-with-more-than-thirty-two-characters"},{"a-b","a_b","ab"},{"zz","z","Z"}};
    int base=sc("base",8), rot=sc("rot",3); const char*sn[3],*an[2],*on[3]; for(int i=0;i<3;i++) sn[i]=sets[base][(i+rot)%3]; for(int i=0;i<2;i++) an[i]=sets[base][(2*rot+1-i+2)%3]; for(int i=0;i<3;i++) on[i]=sets[rot==1?(base+1)%8:base][(2-i+rot)%3];
    int ns=sc("ns",2), na=sc("na",2), no=sc("no",2); S=O=3; if(f!=1&&f!=2&&(base&1)){ if((base>>1)&1) S=2; else O=2; }
    MTn=0; MT[0]=0; mt("discount: 0.5\nvalues: reward\n"); int ord=sc("ord",2); 
    for(int q=0;q<3;q++){ int x=ord?2-q:q;
      if(x==0){ mt("states: "); if(ns) for(int i=0;i<S;i++){ mt(sn[i]); mt(" "); } else mti(S); if(f==9){ good=0; if(!ns) sym_prune(); mt(sn[1]); } mt("\n"); }
      if(x==1){ mt("actions: "); if(na) for(int i=0;i<A;i++){ mt(an[i]); mt(" "); } else mti(A); if(f==10){ good=0; if(!na) sym_prune(); mt(an[0]); } mt("\n"); }
      if(x==2){ mt("observations: "); if(no) for(int i=0;i<O;i++){ mt(on[i]); mt("\n"); } else mti(O); if(f==11){ good=0; if(!no) sym_prune(); mt(on[O-1]); } mt("\n"); } }
    t_all(-1,2,0); o_all(-1,1,0); mt("R: * : * : * : * 0\n");
#define ES(i) do{ if(ns&&(bn==0||(bn==2&&bi++%2))) mt(sn[i]); else mti(i); }while(0)
#define EA(i) do{ if(na&&(bn==0||(bn==2&&bi++%2))) mt(an[i]); else mti(i); }while(0)
#define EO(i) do{ if(no&&(bn==0||(bn==2&&bi++%2))) mt(on[i]); else mti(i); }while(0)
    int s= f<3? sc("s",S): base%S, a= f<3? sc("a",A): base&1, o= f<3? sc("o",O): (base+1)%O; double v=sym_real("v",0.1,5), pr=sym_real("pr",0.1,0.9);
    for(int i=0;i<A;i++) for(int j=0;j<S;j++) for(int k=0;k<S;k++) for(int q=0;q<O;q++) Rm[i][j][k][q]=0;
    if(f==0||f>=9){ mt("R: "); EA(a); mt(" : "); ES(s); mt(" : "); ES((s+1)%S); mt(" : "); EO(o); mt(" "); mtv(v); mt("\n"); Rm[a][s][(s+1)%S][o]=v;
                    mt("R: "); EA(a); mt(" : "); ES(s); mt(" : "); ES(s); mt(" : "); EO(o); mt(" "); mtv(v); mt("\n"); Rm[a][s][s][o]=v; }
    else if(f==1){ int t=(s+1)%S; mt("T: "); EA(a); mt(" : "); ES(s); mt(" : "); ES(t); mt(" "); mtv(pr); mt("\nT: "); EA(a); mt(" : "); ES(s); mt(" : "); ES(s); mt(" "); mtv(1.0-pr); mt("\n"); Tm[a][s][t]=pr; Tm[a][s][s]=1.0-pr; }
    else if(f==2){ int q=(o+1)%O; mt("O: "); EA(a); mt(" : "); ES(s); mt(" : "); EO(o); mt(" "); mtv(pr); mt("\nO: "); EA(a); mt(" : "); ES(s); mt(" : "); EO(q); mt(" "); mtv(1.0-pr); mt("\nO: "); EA(a); mt(" : "); ES(s); mt(" : "); EO((o+2)%O); mt(" 0\n"); Zm[a][s][o]=pr; Zm[a][s][q]=1.0-pr; Zm[a][s][(o+2)%O]=0; }
    else if(f<6){ good=0; int u=sc("u",4); mt("R: "); if(f==3) mt(u==0?"2":u==1?"nosuch":u==2?"99999":"zz8"); else EA(a); mt(" : "); if(f==4) mt(u==0?(S==3?"3":"2"):u==1?"nosuch":u==2?"99999":"zz8"); else ES(s); mt(" : * : "); if(f==5) mt(u==0?(O==3?"3":"2"):u==1?"nosuch":u==2?"99999":"zz8"); else EO(o); mt(" 1\n"); }
    else { good=0; mt("T: "); if(f==6) mt("2"); else EA(a); mt(" : "); if(f==7) mt("nosuch"); else ES(s); mt(" : "); if(f==8) mt(S==3?"3":"2"); else ES((s+1)%S); mt(" 0\n"); }
    int ok=readit(); sym_cover(nm3("f",f,0,0));
    if(!good){ sym_check(ok==0,"undeclared, duplicate or out-of-range reference accepted"); return; }
    sym_check(ok==1,"well-formed model rejected"); if(!ok) return;
    sym_check(gNumStates==S&&gNumActions==A&&gNumObservations==O,"wrong number of states, actions or observations"); cmp_TO(); cmp_R(1);
  } else if(mode==7){ /* lexical forms of numbers, spacing, comments */
    static const char*half[]={"0.5","5e-1","5.0E-1","0.05e+1","0.5000000000000000000000","50.0e-2","0.50"},*one[]={"1","1.0","1.","1e0","10.0E-1","01"};
    static const char*col[]={":"," : ","\t:  "," :\n"},*end[]={"\n"," # T: 0 0.3 uniform\n","\r\n","\n\n# R: * : * : * : * 7\n\t"};
    int h=sc("h",7), o1=sc("one",6), c=sc("c",4), e=sc("e",4), sgn=sc("sign",3); S=2; O=2; double v=sym_real("v",0.1,9);
    mt("discount"); mt(col[c]); mt(half[h]); mt(end[e]); mt("values"); mt(col[c]); mt("reward"); mt(end[e]); mt("states"); mt(col[c]); mt("2"); mt(end[e]); mt("actions"); mt(col[c]); mt("1"); A=1; mt(end[e]); mt("observations"); mt(col[c]); mt("x y"); mt(end[e]);
#define C4(k) do{ mt(k); mt(col[c]); mt("0"); mt(col[c]); }while(0)
    C4("T"); mt("0"); mt(end[e]); mt(half[h]); mt(" "); mt(half[(h+1)%7]); mt(end[e]); C4("T"); mt("1"); mt(end[e]); mt(one[o1]); mt("\t0"); mt(end[e]);
    C4("O"); mt("0"); mt(col[c]); mt("x"); mt(" "); mt(half[h]); mt(end[e]); C4("O"); mt("0"); mt(col[c]); mt("y "); mt(half[(h+2)%7]); mt(end[e]); C4("O"); mt("1"); mt(end[e]); mt("0.0 "); mt(one[o1]); mt(end[e]);
    C4("R"); mt("*"); mt(col[c]); mt("*"); mt(col[c]); mt("y "); mt(sgn==0?"":sgn==1?"-":"+"); mtv(v); mt(e==3?"\n":end[e]);
    Tm[0][0][0]=Tm[0][0][1]=0.5; Tm[0][1][0]=1; Zm[0][0][0]=Zm[0][0][1]=0.5; Zm[0][1][1]=1; if(sgn==1) v=-v; for(int s=0;s<2;s++) for(int t=0;t<2;t++){ Rm[0][s][t][1]=v; Rm[0][s][t][0]=0; }
    sym_check(readit()==1,"well-formed model rejected"); sym_cover("lex"); sym_check_eq(gDiscount,0.5,1e-12,"discount differs from the file's"); cmp_TO(); cmp_R(1);
  } }
