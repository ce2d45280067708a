/* C26: SIGINT at any moment of a run; a run that dies leaves the last completed epoch in the backup file. */
#include "step.h"
#include <signal.h>
extern void solvePomdp( PomdpSolveParams );
static const char*METH[][6]={ {"-method","enum",0}, {"-method","twopass",0}, {"-method","witness",0}, {"-method","incprune",0}, {"-method","grid","-fg_type","pairwise",0} };
static double ref[4][400][MS]; static int nr[4]; static PomdpSolveParams PP; static long left; static int at=-1, mode; static char SNAP[1<<14]; static int have, saved;
static void hit(void){ at=PP->cur_epoch; { char g[]="/mem/out.alpha0"; g[14]='0'+at; saved=sym_file_get(g)!=0; } if(mode==0) raise(SIGINT); else { const char*t=sym_file_get(PP->backup_file); have=t!=0; if(t){ strncpy(SNAP,t,sizeof SNAP-1); } } }
static void hook(void){ if(left>0&&--left==0){ sym_alloc_hook=0; hit(); } }
static void match(const char*file,int h,const double*b,int S,const char*lo,const char*hi){
  AlphaList l=sym_file_get(file)?readAlphaList((char*)file,0):0; sym_check(l!=0&&l->length>0,lo); if(!l||!l->length) return;
  for(int i=0;i<nr[h];i++) check_not_above(ref[h][i],l,b,S,1e-4,lo);
  for(AlphaList x=l->head;x;x=x->next) check_vec_below(x->alpha,ref[h],nr[h],b,S,1e-4,hi); }
void sym_harness(void){
  Model m; int S=sym_cfg("S",2),A=2,O=2,M=sym_cfg("M",3),H=sym_cfg("H",3); double v[8][MS],b[MS]; m_default(&m,S,A,O,sym_cfg("SEED",1)); m.cost=sym_choice("cost",2);
  mode=sym_choice("mode",2); int f=sym_choice("focus",2); if(f) m.R[1][0]=sym_real("R",0.25,4); 
  const char*ex[20]; int n=0; for(int i=0;METH[M][i];i++) ex[n++]=METH[M][i];
  ex[n++]="-horizon"; ex[n++]=H==2?"2":"3"; if(sym_choice("exact",2)){ ex[n++]="-stop_criteria"; ex[n++]="exact"; ex[n++]="-stop_delta"; ex[n++]="16"; } else { ex[n++]="-stop_criteria"; ex[n++]="weak"; } ex[n++]="-save_all"; ex[n++]="true"; ex[n++]="-save_penultimate"; ex[n++]="true";
  static const int AT[]={0,1,2,3,5,8,12,18,25,35,50,70,90,120,160,200,260,330,420,520,640,800,1000,1300,1700,2200,3000};
  int w=sym_choice("when",(int)(sizeof AT/sizeof*AT)); 
  PomdpSolveParams p=solve_setup(&m,ex,n); PP=p; left=AT[w];
  if(left==0) hit(); else sym_alloc_hook=hook;
  int ok=0,rc; if((rc=SYM_TRY())==0){ solvePomdp(p); SYM_END(); ok=1; } sym_alloc_hook=0; sym_check(ok,"run does not end normally after an interrupt"); if(!ok) return;
  int E=p->cur_epoch; if(at<0) sym_cover("not reached");
  sym_check(E>=0&&E<=H,"number of epochs"); if(E<0||E>H) return;
  if(mode==1||at<0) sym_check(E==H,"run stopped early without an interrupt"); else sym_check(at==0?E<=1:(E==at||(saved&&E==at+1)),"interrupt does not end the run after the current epoch");
  nr[0]=1; for(int s=0;s<S;s++) ref[0][0][s]=0;
  for(int h=1;h<=E;h++){ int nc=nr[h-1]; if(nc>8){ /* keep the reference small: prune dominated vectors of the reference */ 
      double q[400][MS]; int k=0; for(int i=0;i<nc;i++){ int dom=0; for(int j=0;j<nc&&!dom;j++) if(j!=i){ int d=1,str=0; for(int s=0;s<S&&d;s++){ if(sym_same(ref[h-1][j][s],ref[h-1][i][s])) continue; if(ref[h-1][j][s]<ref[h-1][i][s]) d=0; else str=1; } if(d&&(str||j<i)) dom=1; } if(!dom){ for(int s=0;s<S;s++) q[k][s]=ref[h-1][i][s]; k++; } }
      nc=k; for(int i=0;i<k;i++) for(int s=0;s<S;s++) ref[h-1][i][s]=q[i][s]; nr[h-1]=k; }
    if(nc>8){ sym_cover("reference too large"); E=h-1; break; } for(int i=0;i<nc;i++) for(int s=0;s<S;s++) v[i][s]=ref[h-1][i][s]; brute(&m,v,nc); nr[h]=nbv; for(int i=0;i<nbv;i++) for(int s=0;s<S;s++) ref[h][i][s]=bv[i].v[s]; }
  qbelief(b,S); char c[16]="end0 at0"; c[3]='0'+p->cur_epoch; c[7]=at<0?'-':'0'+at; sym_cover(c);
  if(M<4){
    if(E==p->cur_epoch) match("/mem/out.alpha",E,b,S,"solution file is below the value function of the last completed epoch","solution file is above the value function of the last completed epoch");
    char fn[32]="/mem/out.alpha0"; for(int h=1;h<=E;h++){ fn[14]='0'+h; match(fn,h,b,S,"saved epoch is below the value function of that epoch","saved epoch is above the value function of that epoch"); }
    if(E>=2) match("/mem/out.prev.alpha",p->cur_epoch-1,b,S,"next-to-last value function is wrong","next-to-last value function is wrong");
    if(mode==1&&at>=2&&at-1<=E){ sym_check(have,"no backup of the last completed epoch"); if(have){ char g1[]="/mem/out.alpha0",g2[]="/mem/out.alpha0"; g1[14]='0'+at-1; g2[14]='0'+at; const char*t1=sym_file_get(g1),*t2=sym_file_get(g2); sym_check((t1&&!strcmp(t1,SNAP))||(t2&&!strcmp(t2,SNAP)),"backup does not hold the last completed epoch"); sym_cover("backup"); } } }
  { char fn[32]="/mem/out.alpha0"; fn[14]='0'+p->cur_epoch+1; sym_check(sym_file_get(fn)==0,"file of an epoch that was not run"); }
  sym_check(sym_file_get("/mem/out.alpha")!=0,"no solution file"); sym_check(sym_file_get("/mem/out.pg")!=0,"no policy graph file");
  sym_check(sym_file_get(p->backup_file)==0,"backup file left behind");
  if(mode||at<1) sym_observe("E",p->cur_epoch);
}
