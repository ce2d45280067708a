/* C38: neighbours of a vector. */
#include "solve.h"
#include "neighbor.h"
void sym_harness(void){
  Model m; int S=sym_cfg("S",2),O=sym_cfg("O",2),np[3]={sym_cfg("P0",2),sym_cfg("P1",3),2}; double v[3][8][MS];
  m_default(&m,S,2,O,1); solve_setup(&m,0,0);
  int mode=sym_choice("mode",4), dom=sym_choice("dom",2);
  if(mode==1){ np[0]=1; }
  AlphaList P[3]; AlphaList node[3][8];
  for(int z=0;z<O;z++){ P[z]=newAlphaList(); P[z]->action=1; P[z]->obs=z; for(int i=0;i<np[z];i++){ double*a=newAlpha();
    for(int s=0;s<S;s++) a[s]=v[z][i][s]=(mode==3||(dom&&(z>0||s>0)))?floor(GEN(5*z+3*i+7*s+z*i)*64)/16.0:sym_real(nm3("v",z,i,s),-4,4.1+0.0137*(z+1)*(i+1)*(i+2)+0.0071*s);
    node[z][i]=appendAlphaList(P[z],a,1); node[z][i]->obs=z; } }
  if(mode==3){ for(int s=0;s<S;s++){ double d=sym_real(nm3("d",s,0,0),0.1,1); v[0][1][s]=v[0][0][s]+d; v[1][1][s]=v[1][0][s]+d; node[0][1]->alpha[s]=v[0][1][s]; node[1][1]->alpha[s]=v[1][1][s]; } } /* two neighbours with equal values */
  AlphaList X=crossSum(P[0],P[1],1); if(O>2) X=crossSum(X,P[2],1);
  AlphaList src=X->head; int pick=sym_choice("pick",2); if(pick) while(src->next) src=src->next;
  int cur[3]; for(int z=0;z<O;z++){ cur[z]=-1; for(int i=0;i<np[z];i++) if(src->obs_source[z]==node[z][i]) cur[z]=i; sym_check(cur[z]>=0,"setup"); if(cur[z]<0) return; }
  AlphaList L=newAlphaList(); int pre=(mode==2);
  if(pre){ /* one neighbour is already known */ int i=(cur[1]+1)%np[1]; double*a=newAlpha(); for(int s=0;s<S;s++) a[s]=src->alpha[s]-v[1][cur[1]][s]+v[1][i][s]; appendAlphaList(L,a,-7); }
  int how=sym_choice("how",2); AlphaList one=newAlphaList(); int added;
  if(how){ appendDuplicateNodeToAlphaList(one,src); src=one->head; added=addAllNeighborsFromList(L,one,P,dom,1e-9); } else added=addAllNeighbors(L,src,P,dom,1e-9);
  int q=0; int got[3][8]={{0}};
  for(AlphaList x=L->head;x;x=x->next){ q++; if(pre&&x->prev_source==0){ continue; }
    sym_check(x->prev_source==src,"neighbour does not record its origin"); int z=x->obs; sym_check(z>=0&&z<O,"observation out of range"); if(z<0||z>=O) continue;
    int i=-1; for(int j=0;j<np[z];j++) if(x->first_source==node[z][j]) i=j;
    sym_check(i>=0,"replacement is not a vector of that observation's projection"); if(i<0) continue;
    sym_check(i!=cur[z],"the vector itself is listed as a neighbour"); got[z][i]++;
    double w[MS]; for(int s=0;s<S;s++){ w[s]=0; for(int y=0;y<O;y++) w[s]+=(y==z)?v[z][i][s]:v[y][cur[y]][s]; sym_check_eq(x->alpha[s],w[s],1e-7,"neighbour value wrong"); }
    if(!dom) sym_check(!x->mark,"new neighbour already marked as processed"); }
  sym_check(q==L->length&&q==added+pre,"number of neighbours");
  double e[MS];
  for(int z=0;z<O;z++) for(int i=0;i<np[z];i++) if(i!=cur[z]){
    for(int s=0;s<S;s++){ e[s]=0; for(int y=0;y<O;y++) e[s]+=(y==z)?v[z][i][s]:v[y][cur[y]][s]; }
    sym_check(got[z][i]<=1,"neighbour listed twice");
    if(got[z][i]==1) continue;
    /* missing: must equal a listed vector, or with the domination check be dominated by one */
    int same=0; for(AlphaList x=L->head;x;x=x->next){ int sm=1; for(int s=0;s<S;s++) if(!sym_same(x->alpha[s],e[s])) sm=0; if(sm) same=1; }
    if(same){ sym_cover("dup"); continue; }
    if(!dom){ sym_check(0,"a neighbour is missing"); continue; }
    int d=0; for(AlphaList x=L->head;x;x=x->next){ int lt=1; for(int s=0;s<S;s++) if(!(e[s]<=x->alpha[s]+1e-6)) lt=0; if(lt) d=1; }
    sym_cover("dominated"); sym_check(d,"a neighbour that nothing dominates is missing"); }
  if(dom) for(AlphaList x=L->head;x;x=x->next) if(x->mark){ int d=0; sym_cover("marked"); for(AlphaList y=L->head;y;y=y->next) if(y!=x){ int lt=1; for(int s=0;s<S;s++) if(!(x->alpha[s]<=y->alpha[s]+1e-6)) lt=0; if(lt) d=1; } sym_check(d,"a neighbour that nothing dominates is dropped from consideration"); }
  sym_observe("n",q); if(L->head) sym_observe("x0",L->head->alpha[0]);
}
