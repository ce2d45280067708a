/* C17: infinite-horizon runs that stop by themselves: the solution is near the fixed point, plan consistent. */
#include "step.h"
#include <unistd.h>
extern void solvePomdp( PomdpSolveParams );
static const char*METH[][6]={ {"-method","enum",0}, {"-method","twopass",0}, {"-method","witness",0}, {"-method","incprune","-inc_prune","normal",0}, {"-method","incprune","-inc_prune","restricted_region",0}, {"-method","incprune","-inc_prune","generalized",0} };
void sym_harness(void){
  Model m; int S=sym_cfg("S",2),A=sym_cfg("A",2),O=sym_cfg("O",2),M=sym_cfg("M",3),crit=sym_cfg("CRIT",1),var=sym_cfg("VAR",0); double v[16][MS];
  m_default(&m,S,A,O,sym_cfg("SEED",1)+sym_choice("seed",sym_cfg("SEEDS",2))); m.cost=sym_choice("cost",2);
  int gi=sym_choice("discount",2), di=crit?sym_choice("delta",3):0, f=sym_choice("focus",3), tv=var==3?0:sym_choice("terminal",2);
  static const double GV[]={0.25,0.5}; static const char*DS[]={"0.5","2","0.0625"}; static const double DV[]={0.5,2,0.0625}; m.g=crit?GV[gi]:GV[gi]*0.25;
  if(f==0){ m.R[A-1][1]=sym_real("R",0,4); }
  if(f==1&&A>1){ double x=sym_real("R0",-4,4); for(int s=0;s<S;s++) m.R[0][s]=s?-2.0:0.5; m.R[1][0]=x; if(x<0) m.R[1][1]=1.5; }
  if(f==2){ m.R[0][0]=sym_real("R00",0,4); for(int s=0;s<S;s++) for(int t=0;t<S;t++) m.T[0][s][t]=(t==s); for(int s=0;s<S;s++) for(int o=0;o<O;o++) m.Z[0][s][o]=(o==(s%O)); }
  static const char*CN[]={"exact","weak","bellman"}; static const char*VN[]={"normal","zlz","adjustable_epsilon","adjustable_epsilon"};
  const char*ex[32]; int n=0; for(int i=0;METH[M][i];i++) ex[n++]=METH[M][i];
  ex[n++]="-stop_criteria"; ex[n++]=CN[crit]; if(crit){ ex[n++]="-stop_delta"; ex[n++]=DS[di]; }
  if(var){ ex[n++]="-vi_variation"; ex[n++]=VN[var]; }
  if(var==2){ ex[n++]="-start_epsilon"; ex[n++]="0.001"; ex[n++]="-end_epsilon"; ex[n++]="0.00001"; ex[n++]="-epsilon_adjust"; ex[n++]="10"; ex[n++]="-history_length"; ex[n++]="1"; }
  if(var==3){ ex[n++]="-start_epsilon"; ex[n++]="1"; ex[n++]="-end_epsilon"; ex[n++]="0.00001"; ex[n++]="-epsilon_adjust"; ex[n++]="10"; ex[n++]="-history_length"; ex[n++]="2"; } /* one action: nothing to prune, so a coarse precision must not show */
  if(!crit){ ex[n++]="-horizon"; ex[n++]="16"; } /* near-ties at the LP tolerance can make the exact criterion cycle: such runs are cut and not judged */
  if(tv){ sym_file_put("/mem/tv.alpha",S==2?"0\n3 -2\n\n1\n-1 2.5\n\n":"0\n3 -2 1\n\n1\n-1 2.5 0\n\n"); ex[n++]="-terminal_values"; ex[n++]="/mem/tv.alpha"; }
  PomdpSolveParams p=solve_setup(&m,ex,n); if(sym_cfg("DUMP",0)){ syscall(1,3,MT,strlen(MT)); for(int i=0;i<n;i++){ syscall(1,3,ex[i],strlen(ex[i])); syscall(1,3," ",1); } syscall(1,3,"\n",1); }
  solvePomdp(p);
  AlphaList l=readAlphaList("/mem/out.alpha",0);
  sym_check(l!=0&&l->length>0,"no solution file"); if(!l||!l->length) return;
  char c[16]="ep00len00"; int ep=p->cur_epoch; c[2]='0'+ep/10; c[3]='0'+ep%10; c[7]='0'+l->length/10; c[8]='0'+l->length%10; sym_cover(c);
  if(!crit&&ep==16) return;
  if(l->length>(O>2?4:12)) return;
  int nv=0; for(AlphaList x=l->head;x;x=x->next,nv++) for(int s=0;s<S;s++) v[nv][s]=x->alpha[s];
  /* residual of the solution: one more exact backup moves it by at most discount * threshold */
  double tol=crit?DV[di]*(1.0-m.g)/2+(var==2?0.01:1e-4):1e-3;
  brute(&m,v,nv); double b[MS]; qbelief(b,S);
  for(int i=0;i<nbv;i++) check_not_above(bv[i].v,l,b,S,tol,"stopped too early: another step still raises the value");
  for(AlphaList x=l->head;x;x=x->next){ double y=vdot(x->alpha,b,S); sym_vbegin(); for(int s=0;s<S;s++) sym_vge(b[s],0.0); for(int i=0;i<nbv;i++) sym_vge(y-vdot(bv[i].v,b,S),tol); sym_vcheck("stopped too early: another step still lowers the value"); }
  if(crit==0){ /* plan as a controller: it achieves the values */
    const char*t=sym_file_get("/mem/out.pg"); sym_check(t!=0,"no plan file"); if(!t) return; int k=0;
    for(AlphaList x=l->head;x;x=x->next,k++){ char*e; long id=strtol(t,&e,10); sym_check(e!=t&&id==k,"plan file: node number"); if(e==t) return; t=e; long a=strtol(t,&e,10); sym_check(e!=t&&a==x->action&&a>=0&&a<A,"plan file: action"); if(e==t||a<0||a>=A) return; t=e;
      double w[MS]; for(int s=0;s<S;s++) w[s]=m.cost?-m.R[a][s]:m.R[a][s];
      for(int o=0;o<O;o++){ while(*t==' ') t++; if(*t=='X'||*t=='-'){ t++; continue; } long j=strtol(t,&e,10); int bad=(e==t||j<0||j>=nv); sym_check(!bad,"plan file: successor out of range"); if(bad) return; t=e; for(int s=0;s<S;s++) for(int s2=0;s2<S;s2++) w[s]+=m.g*m.T[a][s][s2]*m.Z[a][s2][o]*v[j][s2]; }
      for(int s=0;s<S;s++) sym_check_eq(x->alpha[s],w[s],1e-3,"the plan, executed forever, does not achieve the reported values"); } }
  sym_observe("len",l->length); sym_observe("v0",l->head->alpha[0]); sym_observe("ep",ep);
}
