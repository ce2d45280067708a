/* C10: writeMDP / readMDP: a written model reads back as the same model; loading a second model leaves nothing of the first. */
#include "common.h"
#include "imm-reward.h"
extern int writeMDP( char *filename );
static void mdp_text(Model*m){ MTn=0; MT[0]=0; mt("discount: "); mtv(m->g); mt(m->cost?"\nvalues: cost\nstates: ":"\nvalues: reward\nstates: "); mti(m->S); mt("\nactions: "); mti(m->A); mt("\n");
  for(int a=0;a<m->A;a++) for(int s=0;s<m->S;s++){ mt("T: "); mti(a); mt(" : "); mti(s); mt("\n"); for(int t=0;t<m->S;t++){ mtv(m->T[a][s][t]); mt(" "); } mt("\n"); }
  for(int a=0;a<m->A;a++) for(int s=0;s<m->S;s++){ mt("R: "); mti(a); mt(" : "); mti(s); mt(" : * "); mtv(m->R[a][s]); mt("\n"); } }
static void check_model(Model*m,int mdp,const char*w,double tol){
  sym_check(gNumStates==m->S&&gNumActions==m->A&&(mdp||gNumObservations==m->O),w); if(gNumStates!=m->S||gNumActions!=m->A||(!mdp&&gNumObservations!=m->O)) return;
  sym_check(gProblemType==(mdp?MDP_problem_type:POMDP_problem_type),w); sym_check(gValueType==(m->cost?COST_value_type:REWARD_value_type),w);
  sym_check_eq(gDiscount,m->g,tol,w);
  for(int a=0;a<m->A;a++) for(int s=0;s<m->S;s++){ for(int t=0;t<m->S;t++) sym_check_eq(getEntryMatrix(P[a],s,t),m->T[a][s][t],tol,w);
    if(!mdp) for(int o=0;o<m->O;o++) sym_check_eq(getEntryMatrix(R[a],s,o),m->Z[a][s][o],tol,w);
    sym_check_eq(getEntryMatrix(Q,a,s),m->R[a][s],tol,w); } }
static void vary(Model*m,int id,int f){ int S=m->S,O=m->O;
  if(f==1){ for(int a=0;a<m->A;a++) sym_dist(m->T[a][0],S,"T",a,id,0.05); m->R[0][S-1]=sym_real(nm3("R",id,0,0),0.1,900); }
  if(f==2){ sym_dist(m->Z[m->A-1][S-1],O,"Z",id,0,0.05); m->Z[0][0][0]=0; m->Z[0][0][O-1]=1; for(int o=1;o<O-1;o++) m->Z[0][0][o]=0; }
  if(f==3){ for(int a=0;a<m->A;a++) for(int s=0;s<S;s++) for(int t=0;t<S;t++) m->T[a][s][t]=(t==(s+a)%S); m->R[0][0]=0; m->R[m->A-1][0]=-2.5; m->g=sym_real(nm3("g",id,0,0),0.05,0.95); } }
void sym_harness(void){
  Model m,m2; int mdp=sym_choice("mdp",2), op=sym_choice("op",2), S=2+sym_choice("S",2), A=1+sym_choice("A",2), O=2+sym_choice("O",2), f=sym_choice("f",4);
  if(mdp&&(f==2||O==3)) sym_prune();
  m_default(&m,S,A,O,3); m.cost=sym_choice("cost",2); if(A==1) { m.g=0.5; } vary(&m,0,f);
  if(mdp) mdp_text(&m); else m_text(&m);
  sym_file_put("/mem/a.mdp",MT);
  int r=readMDP("/mem/a.mdp"); sym_check(r!=0,"model not read"); if(!r) return;
  check_model(&m,mdp,"model as read",1e-7);
  if(op==0){ sym_file_put("/mem/w.mdp","discount: 0.5\nstale contents that must go away\n"); r=writeMDP("/mem/w.mdp"); sym_check(r!=0,"model not written"); if(!r) return;
    deallocateMDP(); r=readMDP("/mem/w.mdp"); sym_check(r!=0,"written model cannot be read"); if(!r) return;
    check_model(&m,mdp,"model written and read back differs",3e-6); sym_cover("roundtrip"); }
  else { int mdp2=sym_choice("mdp2",2), g=sym_choice("g",2)?3:1; m_default(&m2,5-S,3-A,mdp?2:5-O,7); m2.cost=!m.cost; vary(&m2,1,g); deallocateMDP(); if(mdp2) mdp_text(&m2); else m_text(&m2); sym_file_put("/mem/b.mdp",MT);
    r=readMDP("/mem/b.mdp"); sym_check(r!=0,"second model not read"); if(!r) return; check_model(&m2,mdp2,"second model differs from its file",1e-7);
    if(!mdp2) for(int s=0;s<m2.S;s++) sym_check_eq(gInitialBelief[s],1.0/m2.S,1e-9,"start belief of the second model"); sym_cover("second"); }
  sym_observe("T",getEntryMatrix(P[0],0,0)); sym_observe("Q",getEntryMatrix(Q,0,1));
}
