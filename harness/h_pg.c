/* C28: policy-graph files. */
#include "step.h"
#include "pg.h"
extern void solvePomdp( PomdpSolveParams );
static int tok(const char**p,char*o){ while(**p==' '||**p=='\n') (*p)++; int n=0; while(**p&&**p!=' '&&**p!='\n') o[n++]=*(*p)++; o[n]=0; return n; }
static int num(const char*s){ int r=0,g=0; if(*s=='-'&&s[1]){ g=1; s++; } if(!*s) return -99; while(*s){ if(*s<'0'||*s>'9') return -99; r=r*10+*s++-'0'; } return g?-r:r; }
void sym_harness(void){
  int op=sym_cfg("OP",-1); if(op<0) op=sym_choice("op",2);
  if(op==0){ /* any set, any links */
    Model m; int O=1+sym_choice("O",3), A=3; m_default(&m,2,A,O,1); solve_setup(&m,0,0);
    int n=1+sym_choice("n",3), np=1+sym_choice("np",3); double v[8][MS]; int act[8],nx[8][MO]; for(int i=0;i<8;i++) for(int s=0;s<2;s++) v[i][s]=GEN(3*i+s);
    AlphaList prev=mk_list(v,np,2,0); renumberAlphaList(prev); AlphaList pn[8]; { int i=0; for(AlphaList p=prev->head;p;p=p->next) pn[i++]=p; }
    int info=sym_choice("info",2), ro=sym_choice("ro",3);
    AlphaList l=newAlphaList(); for(int i=0;i<n;i++){ double*a=newAlpha(); a[0]=v[i][1]; a[1]=v[i][0]; act[i]=(i+ro)%A; AlphaList x=appendAlphaList(l,a,act[i]);
      int has=!(info&&i==n-1); if(has){ x->obs_source=newObsSourceArray(); for(int z=0;z<O;z++){ int c=(i==0||z==0)?sym_choice(nm3("c",i,z,0),np+1):(i*z+ro)%(np+1); nx[i][z]=c<np?c:INVALID_NODE; x->obs_source[z]=c<np?pn[c]:0; } } else for(int z=0;z<O;z++) nx[i][z]=NO_INFO_NODE; }
    renumberAlphaList(l);
    if(ro==1) for(int q=0;q<3;q++){ static const char*FN[]={"/mem/g","/mem/h","/mem/i"}; sym_file_put(FN[q],"0 0 0 0 0\n1 0 0 0 0\n2 0 0 0 0\n3 0 0 0 0\n4 0 0 0 0\n5 0 0 0 0\n6 0 0 0 0\n7 0 0 0 0\n8 0 0 0 0\n9 0 0 0 0\n10 0 0 0 0\n"); }
    APG_writePolicyGraph(l,"/mem/g"); const char*t=sym_file_get("/mem/g"); sym_check(t!=0,"file not written"); if(!t) return; char w[64];
    for(int i=0;i<n;i++){ tok(&t,w); sym_check(num(w)==i,"node number"); tok(&t,w); sym_check(num(w)==act[i],"action"); for(int z=0;z<O;z++){ tok(&t,w); if(nx[i][z]==INVALID_NODE) sym_check(!strcmp(w,"X"),"impossible observation is not marked X"); else if(nx[i][z]==NO_INFO_NODE) sym_check(!strcmp(w,"-"),"missing successor is not marked -"); else sym_check(num(w)==nx[i][z],"successor"); } }
    sym_check(tok(&t,w)==0,"extra text");
    PG g=PG_read("/mem/g",FALSE); sym_check(g!=0,"written graph rejected"); if(!g) return;
    PG c=PG_clone(g), k=PG_ConstructorFromAlphaList(l); PG gs[3]={g,c,k};
    for(int q=0;q<3;q++){ sym_check(gs[q]->num_nodes==n&&gs[q]->num_obs==O,"graph size"); for(int i=0;i<n;i++){ sym_check(gs[q]->id[i]==i&&gs[q]->action[i]==act[i],"graph node"); for(int z=0;z<O;z++) sym_check(gs[q]->next[i][z]==nx[i][z],q?"copied graph differs":"graph read back differs"); } }
    int map[8]; for(int i=0;i<8;i++) map[i]=(i*5+3)%7; int mi=sym_choice("mi",2)?np-1:np>1?np-2:np-1; PG_relink(c,map,mi);
    for(int i=0;i<n;i++) for(int z=0;z<O;z++){ int e=nx[i][z]; sym_check(c->next[i][z]==(e<0?e:e>mi?NO_INFO_NODE:map[e]),"relinked graph"); sym_check(g->next[i][z]==nx[i][z],"clone shares storage"); }
    PG_write(g,"/mem/h"); sym_check(!strcmp(sym_file_get("/mem/h"),sym_file_get("/mem/g")),"second generation file differs");
    LinkedPG lg=LPG_read("/mem/g",FALSE); sym_check(lg&&LPG_size(lg)==n,"linked graph"); LPG_write(lg,"/mem/i"); sym_check(!strcmp(sym_file_get("/mem/i"),sym_file_get("/mem/g")),"linked graph file differs");
    /* verification: a graph is valid iff every successor exists (or its observation is impossible) */
    int ok=1; for(int i=0;i<n;i++) for(int z=0;z<O;z++) if(nx[i][z]<0||nx[i][z]>=n) ok=0; PG ve=PG_read("/mem/g",TRUE); sym_check((ve!=0)==ok,"verification"); sym_cover(ok?"valid graph":"invalid graph");
    PG_Destructor(g); PG_Destructor(c); PG_Destructor(k); sym_observe("n",n); }
  if(op==1){ /* files of consecutive value-iteration stages */
    Model m; int S=sym_cfg("S",2),A=2,O=2,M=sym_cfg("M",3),H=sym_cfg("H",2); double v[8][MS]; m_default(&m,S,A,O,sym_cfg("SEED",1)); step_focus(&m,v,1,7,sym_cfg("K",1));
    static const char*ME[]={"enum","twopass","witness","incprune"}; char hz[2]={'0'+H,0}; const char*ex[]={"-method",ME[M],"-horizon",hz,"-save_all","true"};
    PomdpSolveParams p=solve_setup(&m,ex,6);
    solvePomdp(p); int len=0;
    for(int h=1;h<=H;h++){ char fa[]="/mem/out.alpha0", fp[]="/mem/out.pg0", fb[]="/mem/out.alpha0"; fa[14]='0'+h; fp[11]='0'+h; fb[14]='0'+h-1;
      AlphaList cur=readAlphaList(fa,-1), pr=h>1?readAlphaList(fb,-1):0; sym_check(cur&&(h==1||pr),"stage files missing"); if(!cur||(h>1&&!pr)) return; PG g=PG_read(fp,FALSE); sym_check(g&&g->num_nodes==cur->length,"graph and vectors differ in number"); if(!g) return;
      int i=0; len=cur->length; for(AlphaList x=cur->head;x;x=x->next,i++){ sym_check(g->action[i]==x->action,"action in graph and vector file"); int a=g->action[i];
        for(int s=0;s<S;s++){ double q=m.R[a][s]; for(int o=0;o<O;o++){ int e=g->next[i][o]; int imp=1; for(int t=0;t<S;t++) if(!(sym_is_const(m.Z[a][t][o])&&m.Z[a][t][o]==0)) imp=0; if(imp){ sym_check(e==INVALID_NODE,"successor for an impossible observation"); continue; }
            if(h==1){ sym_check(e==0,"successor outside the terminal set"); continue; } int n=0; AlphaList y=pr->head; while(y&&n<e){ y=y->next; n++; } sym_check(e>=0&&y!=0,"successor outside the previous file"); if(e<0||!y) return; for(int t=0;t<S;t++) q+=m.g*m.T[a][s][t]*m.Z[a][t][o]*y->alpha[t]; }
          sym_check_eq(q,x->alpha[s],1e-6,"graph successors do not reproduce the vector"); } } }
    char last[]="/mem/out.pg0"; last[11]='0'+H; sym_check(sym_file_get("/mem/out.pg")&&sym_file_get(last)&&!strcmp(sym_file_get("/mem/out.pg"),sym_file_get(last)),"final graph is not the last stage's");
    
    sym_observe("n",len); }
}
