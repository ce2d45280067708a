/* C15: cross-sum (chain over observations, bookkeeping). */
#include "solve.h"
void sym_harness(void){
  Model m; int S=sym_cfg("S",2),O=sym_cfg("O",3),nA=sym_cfg("NA",2),nB=sym_cfg("NB",3),nC=2; double v[3][8][MS]; int n[3]={nA,nB,nC};
  m_default(&m,S,2,O,1); solve_setup(&m,0,0);
  int save=sym_choice("save",2), order=sym_choice("order",2), empty=sym_choice("empty",2);
  AlphaList L[3]; AlphaList node[3][8];
  for(int z=0;z<3;z++){ L[z]=newAlphaList(); L[z]->action=1; L[z]->obs=z; for(int i=0;i<n[z];i++){ double*a=newAlpha(); for(int s=0;s<S;s++) a[s]=v[z][i][s]=sym_real(nm3("v",z,i,s),-4,4+GEN(7*z+3*i+s)+0.0137*z*z+0.0311*i*i*(z+1)+0.0071*s); node[z][i]=appendAlphaList(L[z],a,0); node[z][i]->obs=z; } }
  AlphaList E=newAlphaList(); E->action=1;
  if(empty){ AlphaList x=crossSum(L[0],E,save), y=crossSum(E,L[0],save); sym_check(x&&x->length==0&&!x->head,"cross-sum with an empty set is not empty"); sym_check(y&&y->length==0&&!y->head,"cross-sum with an empty set is not empty"); return; }
  AlphaList X=crossSum(L[0],L[1],save), R;
  if(order) R=crossSum(X,L[2],save); else R=crossSum(L[2],X,save);
  for(int round=0;round<2;round++){
    AlphaList T=round?R:X; int tot=nA*nB*(round?nC:1), q=0; int seen[128]={0};
    sym_check(T->action==1,"action of the sum");
    for(AlphaList x=T->head;x;x=x->next,q++){
      sym_check(x->action==1,"action of a summed vector");
      int hit=-1;
      for(int c=0;c<tot;c++){ int i=c%nA,j=c/nA%nB,k=c/(nA*nB); double w[MS]; int same=1; for(int s=0;s<S;s++){ w[s]=v[0][i][s]+v[1][j][s]; if(round) w[s]=order?w[s]+v[2][k][s]:v[2][k][s]+w[s]; if(!sym_same(w[s],x->alpha[s])) same=0; } if(same&&hit<0) hit=c; }
      sym_check(hit>=0,"vector is not a pairwise sum"); if(hit<0) continue;
      seen[hit]++; int i=hit%nA,j=hit/nA%nB,k=hit/(nA*nB);
      sym_check(x->first_source!=0&&x->second_source!=0,"sources missing");
      if(!round) sym_check((x->first_source==node[0][i]&&x->second_source==node[1][j]),"sources wrong");
      if(save){ sym_check(x->obs_source!=0,"observation sources missing"); if(!x->obs_source) continue;
        sym_check(x->obs_source[0]==node[0][i]&&x->obs_source[1]==node[1][j],"observation source wrong");
        sym_check(x->obs_source[2]==(round?node[2][k]:0),"observation source of the third set wrong"); } }
    sym_check(q==tot&&T->length==tot,"number of sums"); for(int c=0;c<tot;c++) sym_check(seen[c]==1,"a pairwise sum is missing or repeated"); sym_cover("sum"); }
  sym_observe("x0",X->head->alpha[0]);
}
