/* C34: belief lists against an array model. */
#include "common.h"
#include "belief.h"
void sym_harness(void){
  Model m; int S=2+sym_choice("S",2), ops=sym_cfg("OPS",3), n=0; double e[8][MS]; BeliefList l=0, h[8]; m_default(&m,S,2,2,1); m_load(&m);
  double eps=sym_choice("eps",2)?0.125:1e-6;
  for(int k=0;k<ops;k++){ double b[MS],c[MS]; int src=n?sym_choice(nm3("src",k,0,0),4):sym_choice(nm3("src",k,0,0),2);
    /* a new belief, one of a fixed grid, an entry of the list, or an entry moved in one coordinate */
    if(src==0) sym_dist(b,S,"b",k,0,0.01); else if(src==1) for(int s=0;s<S;s++) b[s]=(s==k%S); else { int j=sym_choice(nm3("j",k,0,0),n); for(int s=0;s<S;s++) b[s]=e[j][s]; if(src==3){ int s=sym_choice(nm3("s",k,0,0),S); double d=sym_real(nm3("d",k,0,0),0.001,0.25); double x=d-eps; if(x<1e-5&&x>-1e-5) sym_prune(); b[s]=b[s]+d; } }
    for(int s=0;s<S;s++) c[s]=b[s];
    int op=sym_choice(nm3("op",k,0,0),3);
    if(op<2){ BeliefList o=l; l=op?prependBeliefList(l,b):appendBeliefList(l,b); sym_check(l!=0,"list lost"); if(!l) return; if(op){ sym_check(l->next==o,"adding at the front changes the rest"); for(int i=n;i>0;i--) for(int s=0;s<S;s++) e[i][s]=e[i-1][s]; for(int s=0;s<S;s++) e[0][s]=c[s]; } else { if(o) sym_check(l==o,"adding at the end moves the front"); for(int s=0;s<S;s++) e[n][s]=c[s]; } n++; sym_cover(op?"front":"end"); }
    else { int want=-1; for(int i=0;i<n&&want<0;i++){ int ok=1; for(int s=0;s<S;s++){ if(sym_same(e[i][s],c[s])) continue; double d=e[i][s]-c[s]; if(d<0) d=-d; double x=d-eps; if(x<1e-6&&x>-1e-6&&!sym_is_const(d)) sym_prune(); if(d>=eps) ok=0; } if(ok) want=i; }
      BeliefList f=findBeliefState(l,b,eps); int at=0; BeliefList q=l; while(q&&q!=f){ q=q->next; at++; } if(!f) at=-1; sym_check(at==want,"look-up finds the wrong belief"); sym_cover(want<0?"absent":"found"); }
    for(int s=0;s<S;s++) sym_check_eq(b[s],c[s],0,"operation changes the belief given"); for(int s=0;s<S;s++) b[s]=-1; /* the list owns copies */
    int i=0; for(BeliefList q=l;q&&i<=n;q=q->next,i++) if(i<n) for(int s=0;s<S;s++) sym_check_eq(q->b[s],e[i][s],0,"list contents"); sym_check(i==n,"list length"); if(n) sym_check(sizeBeliefList(l)==n,"size"); }
  if(n){ double*d=duplicateBelief(l->b), x[MS]; copyBelief(x,l->b); for(int s=0;s<S;s++){ sym_check_eq(d[s],e[0][s],0,"copy"); sym_check_eq(x[s],e[0][s],0,"copy"); } sym_check(sameBelief(d,x,1e-9),"copies compare different"); destroyBelief(d); destroyBeliefList(l); }
  sym_observe("n",n);
}
