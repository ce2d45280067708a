/* C14: projections. */
#include "solve.h"
void sym_harness(void){
  Model m; int S=sym_cfg("S",2),A=sym_cfg("A",2),O=sym_cfg("O",2),nv=sym_cfg("V",2); double v[8][MS];
  m_default(&m,S,A,O,1);
  int mode=sym_choice("mode",4); m.cost=sym_choice("cost",2);
  if(mode!=3) for(int a=0;a<A;a++) for(int s=0;s<S;s++){ sym_dist(m.T[a][s],S,"T",a,s,0.02); sym_dist(m.Z[a][s],O,"Z",a,s,0.02); }
  if(mode==1) for(int s=0;s<S;s++){ m.Z[0][s][O-1]+=m.Z[0][s][0]; m.Z[0][s][0]=0; }         /* impossible for action 0 only */
  if(mode==2){ m.T[0][0][0]=0; m.T[0][0][1]=1; for(int t=2;t<S;t++) m.T[0][0][t]=0; m.Z[A-1][0][0]=1; for(int o=1;o<O;o++) m.Z[A-1][0][o]=0; } /* zero entries, still possible elsewhere */
  if(mode==3){ /* only reachable in one state: observation possible although next state is unreachable under another action */
    for(int s=0;s<S;s++){ for(int o=0;o<O;o++) m.Z[0][s][o]=(o==1); } m.Z[0][S-1][0]=sym_real("z",0.02,0.98); m.Z[0][S-1][1]=1.0-m.Z[0][S-1][0];
    for(int s=0;s<S;s++) for(int t=0;t<S;t++) m.T[0][s][t]=(t==0); if(sym_choice("reach",2)){ m.T[0][0][0]=0.5; m.T[0][0][S-1]=0.5; } }
  for(int a=0;a<A;a++) for(int s=0;s<S;s++) m.R[a][s]=sym_real(nm3("R",a,s,0),0.01,4);
  m.g=sym_real("g",0.01,0.999);
  for(int i=0;i<nv;i++) for(int s=0;s<S;s++) v[i][s]=sym_real(nm3("v",i,s,0),-4,4);
  PomdpSolveParams p=solve_setup(&m,0,0); (void)p;
  int act[8]; for(int i=0;i<nv;i++) act[i]=(i+1)%A;
  AlphaList prev=mk_list(v,nv,S,act);
  AlphaList**pr=makeAllProjections(prev);
  for(int a=0;a<A;a++) for(int o=0;o<O;o++){
    int imp=1; for(int s=0;s<S;s++) if(!(sym_is_const(m.Z[a][s][o])&&m.Z[a][s][o]==0)) imp=0;
    AlphaList l=pr[a][o]; int used[8]={0}, q=0;
    sym_check(l!=0,"projection missing"); if(!l) continue;
    sym_check(l->action==a&&l->obs==o,"projection list not labelled with its action and observation");
    /* an observation that cannot occur may be represented either way */
    for(AlphaList x=l->head;x;x=x->next){ q++;
      double w[MS]; for(int s=0;s<S;s++) w[s]=(m.cost?-m.R[a][s]:m.R[a][s])/(double)O;
      if(x->prev_source){ int idx=-1,k=0; for(AlphaList y=prev->head;y;y=y->next,k++) if(y==x->prev_source) idx=k;
        sym_check(idx>=0,"source is not in the previous set"); if(idx<0) continue; used[idx]++; sym_cover("src");
        for(int s=0;s<S;s++){ double e=0; for(int t=0;t<S;t++) e+=m.T[a][s][t]*m.Z[a][t][o]*v[idx][t]; w[s]+=m.g*e; } }
      else { sym_cover("nosrc"); int reach=0; for(int s=0;s<S;s++) for(int t=0;t<S;t++) if(!(sym_is_const(m.T[a][s][t])&&m.T[a][s][t]==0)&&!(sym_is_const(m.Z[a][t][o])&&m.Z[a][t][o]==0)) reach=1; sym_check(!reach,"no source recorded for a possible observation"); }
      sym_check(x->obs==o,"vector not labelled with its observation");
      for(int s=0;s<S;s++) sym_check_eq(x->alpha[s],w[s],1e-7,"projected value wrong"); }
    sym_check(q==l->length,"length");
    if(!imp&&mode!=3) for(int i=0;i<nv;i++) sym_check(used[i]==1,"a source vector is not projected exactly once");
    sym_check(q>0,"empty projection"); }
  sym_observe("p0",pr[0][0]->head->alpha[0]);
}
