/* C08: belief update.  Real code: initializePomdp (parser), transformBeliefState.
   Zero patterns, deterministic rows and one rare (1e-6) quantity at a time. */
#include "common.h"
void sym_harness(void){
  Model m; int S=2+sym_choice("S",3), O=2+sym_choice("O",2), A=2, a=sym_choice("a",2);
  m_default(&m,S,A,O,1);
  int tp=sym_choice("tp",6), zp=sym_choice("zp",6), bp=sym_choice("bp",5), tiny=(tp==4)+(zp==4)+(bp==3); int sy=(tp==0||tp==2)+(zp==0||zp==3)+(bp==0||bp==2); if(tiny>1||(S>2&&sy>2)||(S>3&&sy>1)) sym_prune();
  double K=tiny?1e6:1, b[MS], b1[MS], nb[MS];
  for(int s=0;s<S;s++){ double*t=m.T[a][s];
    if(tp==0) sym_dist(t,S,"T",a,s,0.1); else for(int i=0;i<S;i++) t[i]= tp==3? (i==(s+1)%S): tp==5? (i==S-1): (i==s);
    if(tp==2&&s==0){ t[0]=0; if(S==2) t[1]=1; else sym_dist(t+1,S-1,"T",a,s,0.1); }
    if(tp==4&&s==0){ double v=sym_real("Tr",0.5,1)*1e-6; t[0]=1.0-v; t[S-1]=v; } }
  for(int s=0;s<S;s++){ double*z=m.Z[a][s];
    if(zp==0) sym_dist(z,O,"Z",a,s,0.1); else for(int i=0;i<O;i++) z[i]= zp==1? (i==s%O): zp==5? (i==O-1): (i==0);
    if(zp==2&&s==S-1) sym_dist(z,O,"Z",a,s,0.1);
    if(zp==3){ z[0]=sym_real(nm3("Zp",s,0,0),0.1,0.9); z[1]=0; if(O==2) z[0]=1; else z[2]=1.0-z[0]; }
    if(zp==4&&s==S-1){ double v=sym_real("Zr",0.5,1)*1e-6; z[1]=v; z[0]=1.0-v; } }
  if(bp==0) sym_dist(b,S,"b",0,0,0.1); else for(int s=0;s<S;s++) b[s]= bp==4? (s==S-1): (s==0);
  if(bp==2){ b[0]=0; if(S==2) b[1]=1; else sym_dist(b+1,S-1,"b",0,0,0.1); }
  if(bp==3){ double v=sym_real("br",0.5,1)*1e-6; b[S-1]=v; b[0]=1.0-v; }
  m_load(&m); for(int s=0;s<S;s++) b1[s]=b[s];
  for(int o=0;o<O;o++){
    double u[MS], tot=0; for(int t=0;t<S;t++){ u[t]=0; for(int s=0;s<S;s++) u[t]+=b[s]*m.T[a][s][t]; u[t]*=m.Z[a][t][o]; tot+=u[t]; }
    for(int t=0;t<S;t++) nb[t]=-7;
    int ok=transformBeliefState(b,nb,a,o);
    for(int s=0;s<S;s++) sym_check_eq(b[s],b1[s],0,"the update changed the prior");
    if(sym_native? tot==0: (sym_is_const(tot)&&tot==0)){ sym_cover("impossible"); sym_check(!ok,"impossible observation not signalled"); continue; }
    sym_check(ok!=0,"possible observation rejected"); sym_cover(tiny?"rare":"possible"); if(!ok) continue;
    double one=0; for(int t=0;t<S;t++){ sym_check_eq(nb[t]*tot*K,u[t]*K,1e-7,"posterior differs from Bayes rule"); one+=nb[t]; }
    sym_check_eq(one,1,1e-7,"posterior does not sum to one");
    sym_observe("nb0",nb[0]);
  }
}
