/* C27: alpha-vector (and belief) files round-trip; damaged files are reported. */
#include "solve.h"
#include "belief.h"
static char B[1<<14]; static int nB; static void e(const char*s){ int n=strlen(s); memcpy(B+nB,s,n+1); nB+=n; }
void sym_harness(void){
  Model m; int S=2+sym_choice("S",2); m_default(&m,S,2,2,1); solve_setup(&m,0,0);
  int op=sym_choice("op",6);
  if(op==0||op==1){ int n=1+sym_choice("n",4); double v[8][MS]; int act[8]; static const int AC[]={0,1,7,12};
    int dup=sym_choice("dup",2), rot=sym_choice("rot",4);
    for(int i=0;i<n;i++){ act[i]=AC[(i+rot)%4]; for(int s=0;s<S;s++) v[i][s]=((i+s+rot)%3==2)?sym_real(nm3("v",i,s,0),-1000,1000):((i+s)%3==1)?(i-2)*0.1+s*1e6:-GEN(i*3+s)*1e-7; }
    if(dup&&n>1) for(int s=0;s<S;s++) v[n-1][s]=v[0][s];
    AlphaList l=mk_list(v,n,S,act);
    if(op==0){ if(rot&1){ char o[900]; memset(o,'7',899); for(int q=7;q<899;q+=8) o[q]='\n'; o[899]=0; sym_file_put("/mem/f",o); } saveAlphaList(l,"/mem/f"); } else { FILE*f=fopen("/mem/f","w"); writeAlphaList(f,l); fclose(f); }
    int mx=sym_choice("max",n+3)-1; /* -1,0: everything */
    AlphaList r=readAlphaList("/mem/f",mx); int want=mx<=0?n:mx<n?mx:n;
    sym_check(r!=0,"written file rejected"); if(!r) return; int i=0; AlphaList t=0;
    for(AlphaList p=r->head;p;p=p->next,i++){ t=p; if(i>=want) break; sym_check(p->action==act[i],"action changed"); for(int s=0;s<S;s++) sym_check_eq(p->alpha[s],v[i][s],1e-9,"value changed"); }
    sym_check(i==want&&r->length==want,"number of vectors"); sym_check(r->tail==t,"list end");
    if(mx<=0){ /* writing again gives the same text */ static char A[1<<14]; strcpy(A,sym_file_get("/mem/f")); saveAlphaList(r,"/mem/g"); sym_check(strcmp(A,sym_file_get("/mem/g"))==0,"second generation file differs"); }
    i=0; for(AlphaList p=l->head;p;p=p->next,i++) for(int s=0;s<S;s++) sym_check_eq(p->alpha[s],v[i][s],0,"writing changed the list"); sym_check(l->length==n,"writing changed the list");
    sym_cover("alpha round trip"); sym_observe("v0",r->head?r->head->alpha[0]:0); }
  if(op==2){ /* hand-written file, free layout; damaged at one token */
    int n=1+sym_choice("n",3), tot=n*(S+1), d=sym_choice("where",tot+1)-1, how=sym_choice("how",4); nB=0; B[0]=0; double v[8][MS]; static const char*SEP[]={" ","\n","\t","\n\n"};
    static const char*BAD[]={"x","nodata","#"}; int k=0;
    for(int i=0;i<n;i++) for(int s=-1;s<S;s++,k++){ if(s>=0) v[i][s]=(s+i)%2?sym_real(nm3("v",i,s,0),0,100):0.5*s+i; if(k==d&&how==3) goto out; if(k==d) e(BAD[how]); else if(s<0){ char b[4]={'0'+(i+1)%3,0}; e(b); } else e(sym_tok(v[i][s])); e(SEP[(k+how)%4]); }
    out: sym_file_put("/mem/f",B); AlphaList r=readAlphaList("/mem/f",-1);
    if(d<0){ sym_cover("well formed"); sym_check(r!=0&&r->length==n,"well-formed file rejected"); if(!r) return; int i=0; for(AlphaList p=r->head;p&&i<n;p=p->next,i++){ sym_check(p->action==(i+1)%3,"action"); for(int s=0;s<S;s++) sym_check_eq(p->alpha[s],v[i][s],1e-9,"value"); } }
    else if(how==3&&d%(S+1)==0){ sym_check(r!=0&&r->length==d/(S+1),"shorter file"); sym_cover("shorter"); }
    else { sym_cover(how==3?"truncated":"bad token"); sym_check(r==0,"damaged file accepted"); } }
  if(op==3){ sym_check(readAlphaList("/mem/none",-1)==0,"missing file accepted"); sym_file_put("/mem/f",""); AlphaList r=readAlphaList("/mem/f",-1); sym_check(r&&r->length==0,"empty file"); sym_check(readBeliefList("/mem/none",0)==0,"missing belief file accepted"); }
  if(op==4){ int n=1+sym_choice("n",3); double b[8][MS]; BeliefList l=0; for(int i=0;i<n;i++){ for(int s=0;s<S;s++) b[i][s]=0.25; if(i==1&&S==2){ b[i][0]=1; b[i][1]=0; } else sym_dist(b[i],S,"b",i,0,0.001); l=appendBeliefList(l,b[i]); }
    if(n==2){ sym_file_put("/mem/b","0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5\n"); } saveBeliefList(l,"/mem/b"); int mx=sym_choice("max",n+2); BeliefList r=readBeliefList("/mem/b",mx); int want=mx==0?n:mx<n?mx:n; int i=0; for(;r;r=r->next,i++){ if(i>=want) break; for(int s=0;s<S;s++) sym_check_eq(r->b[s],b[i][s],1e-5,"belief changed"); } sym_check(i==want&&!r,"number of beliefs"); sym_cover("belief round trip"); }
  if(op==5){ int n=1+sym_choice("n",2), d=sym_choice("where",n*S), how=sym_choice("how",3); nB=0; B[0]=0; int k=0; for(int i=0;i<n*S;i++,k++){ if(k==d&&how==2) break; e(k==d?(how?"q":"-"):"0.5"); e(" "); } sym_file_put("/mem/b",B); BeliefList r=readBeliefList("/mem/b",0);
    if(how==2&&d%S==0) sym_check(d==0?r==0:(r!=0&&sizeBeliefList(r)==d/S),"shorter belief file"); else sym_check(r==0,"damaged belief file accepted"); sym_cover("belief damage"); }
}
