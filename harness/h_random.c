/* C31: random draws.  Real code: random.c, sim.c, option handling of -rand_seed. */
#include "solve.h"
#include "random.h"
#include "sim.h"
static void chk_dist(const double*x,int n,const char*msg){ double t=0; for(int i=0;i<n;i++){ sym_check_le(0.0,x[i],1e-9,msg); t+=x[i]; } sym_check_eq(t,1.0,1e-9,msg); }
static double U(int i){ double u=sym_real(nm3("u",i,0,0),0,0.999999); return u; }
static void op_range(void){
  int k=sym_choice("u0",3); double u=k==0?U(0):k==1?0.0:0.999999999;
  int which=sym_choice("kind",2);
  if(which==0){ double lo=sym_real("lo",-10,10), hi=sym_real("hi",-10,10); sym_assume_ge(hi,lo); sym_srand_next(u);
    double r=getRandomDouble(lo,hi); sym_check_le(lo,r,1e-9,"real draw below its minimum"); sym_check_le(r,hi,1e-9,"real draw above its maximum"); sym_observe("r",r);
    if(k==0&&sym_choice("full",2)){ /* every value of the range is reachable */ double w=sym_qvar("w",-10,10); (void)w; }
    double vec[3]={-99,-99,-99}; sym_srand_next(u); sym_srand_next(u); setRandomDoubleVector(vec,2,lo,hi);
    for(int i=0;i<2;i++){ sym_check_le(lo,vec[i],1e-9,"vector draw below its minimum"); sym_check_le(vec[i],hi,1e-9,"vector draw above its maximum"); }
    sym_check(vec[2]==-99,"vector draw wrote past its length"); sym_cover("double"); return; }
  static const int LO[]={0,-3,2,5,0}, HI[]={0,4,3,5,9}; int c=sym_choice("range",5);
  sym_srand_next(u); int r=getRandomInt(LO[c],HI[c]);
  sym_check(r>=LO[c]&&r<=HI[c],"integer draw outside its range");
  if(k==0){ /* each value has the same measure: value v exactly when u is in its v-th cell */
    double cell=1.0/(HI[c]-LO[c]+1); sym_check_le((r-LO[c])*cell,u,1e-9,"integer draw is not uniform"); sym_check_le(u,(r-LO[c]+1)*cell,1e-9,"integer draw is not uniform"); }
  sym_cover("int"); }
static void op_dist(void){
  int n=1+sym_choice("n",4), k=sym_choice("ends",3); double x[5]={-9,-9,-9,-9,-9};
  for(int i=0;i<6;i++) sym_srand_next(k==0?U(i):k==1?(i%2?0.0:0.5):0.999999);
  setRandomDistribution(x,n); chk_dist(x,n,"random belief is not a probability distribution"); sym_check(x[n]==-9,"wrote past the vector"); sym_cover("dist"); }
static void op_obs(void){
  Model m; int S=2+sym_choice("S",2), O=2+sym_choice("O",2), A=2; m_default(&m,S,A,O,1);
  int zero=sym_choice("zero",4), a=sym_choice("a",A);
  if(zero==0) for(int s=0;s<S;s++) sym_dist(m.Z[a][s],O,"Z",a,s,0.02);
  if(zero==1) for(int s=0;s<S;s++){ m.Z[a][s][0]=0; m.Z[a][s][1]=O==2?1.0:0.25; if(O==3) m.Z[a][s][2]=0.75; }
  if(zero==2) for(int s=0;s<S;s++){ m.Z[a][s][O-1]=0; m.Z[a][s][0]=O==2?1.0:0.25; if(O==3) m.Z[a][s][1]=0.75; }
  if(zero==3){ sym_dist(m.T[a][0],S,"T",a,0,0.02); if(O==3) for(int s=0;s<S;s++){ m.Z[a][s][0]=0.5; m.Z[a][s][1]=0; m.Z[a][s][2]=0.5; } }
  m_load(&m);
  double b[MS], nb[MS], p[MO], t=0; sym_dist(b,S,"b",0,0,0.02); for(int s=0;s<S;s++) nb[s]=-7;
  if(sym_choice("corner",2)) for(int s=0;s<S;s++) b[s]=(s==0);
  for(int o=0;o<O;o++){ p[o]=0; for(int s=0;s<S;s++) for(int q=0;q<S;q++) p[o]+=b[s]*m.T[a][s][q]*m.Z[a][q][o]; }
  double u; if(sym_choice("uzero",2)) u=0.0; else u=U(0);
  sym_srand_next(u); sym_srand_next(u);
  int o=getBeliefObservation(a,b);
  sym_check(o>=0&&o<O,"no such observation"); if(o<0||o>=O) return;
  sym_check(!sym_same(p[o],0.0),"observation of probability zero drawn");
  for(int i=0;i<o;i++) t+=p[i];
  sym_check_le(t,u,1e-9,"draw below the cumulative interval of its outcome"); sym_check_le(u,t+p[o],1e-9,"draw above the cumulative interval of its outcome");
  int o2=updateBeliefState(b,a,nb); sym_check(o2==o,"simulated step draws a different observation");
  for(int q=0;q<S;q++){ double w=0; for(int s=0;s<S;s++) w+=b[s]*m.T[a][s][q]; sym_check_eq(nb[q]*p[o],w*m.Z[a][q][o],1e-8,"simulated belief is not the posterior"); }
  sym_observe("o",o); sym_cover("obs"); }
static void op_traj(void){
  Model m; int S=2, O=2, A=2; m_default(&m,S,A,O,sym_choice("seed",3)); sym_dist(m.T[0][0],S,"T",0,0,0.02); sym_dist(m.Z[1][1],O,"Z",1,1,0.02);
  solve_setup(&m,0,0);
  int pol=sym_choice("policy",2), init=sym_choice("init",2), L=3; double b[MS]; sym_dist(b,S,"b",0,0,0.02);
  double v[3][MS]={{3,0,0},{1,2.5,0},{2,1.75,0}}; int act[3]={1,0,1}; AlphaList l=0;
  if(pol){ v[0][0]=sym_real("v",2.1,6); l=mk_list(v,3,S,act); }
  for(int i=0;i<10;i++) sym_srand_next(U(i));
  Trajectory t=newTrajectory(L), p; generateTrajectory(t,init?b:0,l);
  int len=0; for(p=t;p;p=p->next,len++){ chk_dist(p->belief,S,"trajectory belief is not a distribution"); if(!p->next) continue;
    sym_check(p->action>=0&&p->action<A&&p->obs>=0&&p->obs<O,"trajectory step out of range"); 
    if(p->action<0||p->action>=A||p->obs<0||p->obs>=O) return;
    if(pol){ double mine=-1e9; for(int i=0;i<3;i++) if(act[i]==p->action){ double z=vdot(v[i],p->belief,S); if(z>mine) mine=z; } for(int i=0;i<3;i++) sym_check_le(vdot(v[i],p->belief,S),mine,1e-6,"trajectory does not follow the policy"); }
    double w[MS],tot=0; for(int q=0;q<S;q++){ w[q]=0; for(int s=0;s<S;s++) w[q]+=p->belief[s]*m.T[p->action][s][q]; w[q]*=m.Z[p->action][q][p->obs]; tot+=w[q]; }
    for(int q=0;q<S;q++) sym_check_eq(p->next->belief[q]*tot,w[q],1e-8,"trajectory belief is not the posterior"); }
  sym_check(len==L,"trajectory length");
  if(init) for(int s=0;s<S;s++) sym_check_eq(t->belief[s],b[s],1e-12,"trajectory does not start at the given belief");
  sym_cover("traj"); }
static const char*SEED[]={"1:2:3","0:0:0","65535:65535:65535","40000:1:32768","12:34:56"};
static const int SV[][3]={{1,2,3},{0,0,0},{65535,65535,65535},{40000,1,32768},{12,34,56}};
static void op_seed(void){
  int c=sym_choice("seed",5), how=sym_choice("how",4); double ref[4]; unsigned short x[3]; unsigned short g[3];
  sym_srand_real(1);
  if(how==0) setRandomSeedFromString((char*)SEED[c]);
  if(how==1||how==3){ Model m; m_default(&m,2,2,2,1); const char*ex[]={"-rand_seed",SEED[c],"-method","witness","-alg_rand","2"}; solve_setup(&m,ex,how==3?6:2); }
  if(how==2){ for(int i=0;i<3;i++) x[i]=SV[c][i]; setRandomSeed(x); }
  getRandomSeed(g); if(how!=3) for(int i=0;i<3;i++) sym_check(g[i]==SV[c][i],"seed is not the requested one");
  for(int i=0;i<3;i++) x[i]=SV[c][i];
  if(how!=3) for(int i=0;i<4;i++){ ref[i]=erand48(x); double r=fran(); sym_check_eq(r,ref[i],1e-15,"draws do not follow the requested seed"); }
  /* the printed seed reproduces the rest of the run */
  FILE*f=fopen("/mem/seed","w"); displayRandomSeed(f); fclose(f); const char*txt=sym_file_get("/mem/seed"); char buf[64]; sym_check(txt!=0,"seed not printed"); if(!txt) return;
  snprintf(buf,64,"%s",txt); double a[3]; for(int i=0;i<3;i++) a[i]=fran();
  setRandomSeedFromString(buf); for(int i=0;i<3;i++) sym_check_eq(fran(),a[i],1e-15,"printed seed does not reproduce the run");
  sym_observe("a0",how==3?0:a[0]); sym_cover("seed"); }
/* a seed given on the command line makes the initial random beliefs reproducible, even on the first draw of the process */
void sym_harness(void){
  switch(sym_cfg("OP",0)){ case 0: op_range(); break; case 1: op_dist(); break; case 2: op_obs(); break; case 3: op_traj(); break; default: op_seed(); } }
