/* C33: configuration file reader on every text of up to LEN characters (real CF_fscanf, AA_put),
   against an independent reading of the line grammar.  The string capacity is scaled down (CAP). */
#include <stdio.h>
#include "nd.h"
#include "xalloc.h"
#include "global.h"
#include "associative-array.h"
#include "config-file.h"
#ifndef LEN
#define LEN 6
#endif
#ifndef CAP
#define CAP 4
#endif
#ifndef NPAR
#define NPAR 2
#endif
static char TXT[LEN+1]; static int POS,N;
static int my_fgetc(FILE*f){ (void)f; if(POS>=N) return -1; return (unsigned char)TXT[POS++]; }
#ifndef REPLAY
#undef fgetc
#undef getc
#define fgetc my_fgetc
#define getc my_fgetc
#endif
#undef MAX_CFG_FILE_STRING_LEN
#define MAX_CFG_FILE_STRING_LEN CAP
#undef MAX_CFG_FILE_PARAMS
#define MAX_CFG_FILE_PARAMS NPAR
#include "config-file.c"
#ifdef REPLAY
#include "associative-array.c"
#else
/* settings map by its contract (the real one is checked against it in h_aa.c) */
static struct AssocArrayStruct MAP; static char MK[NPAR][CAP], MV[NPAR][CAP];
static int eqs(const char*a,const char*b){ for(int i=0;i<CAP;i++){ if(a[i]!=b[i]) return 0; if(!a[i]) return 1; } return 1; }
AssocArray AA_new(int size,int width){ MAP.max_size=size; MAP.cur_size=0; return &MAP; }
void AA_delete(AssocArray a){}
int AA_size(AssocArray a){ return a->cur_size; }
int AA_put(AssocArray a,char*k,char*v){ int i,j,n=a->cur_size,kl=-1,vl=-1;
  for(j=CAP-1;j>=0;j--){ if(!k[j]) kl=j; if(!v[j]) vl=j; } if(kl<0||vl<0) return -1;
  for(i=0;i<NPAR;i++) if(i<n&&eqs(MK[i],k)){ for(j=0;j<CAP;j++) MV[i][j]=j<=vl?v[j]:0; return 0; }
  if(n>=a->max_size) return -1;
  for(i=0;i<NPAR;i++) if(i==n) for(j=0;j<CAP;j++){ MK[i][j]=j<=kl?k[j]:0; MV[i][j]=j<=vl?v[j]:0; }
  a->cur_size=n+1; return 1; }
char*AA_get(AssocArray a,char*k){ for(int i=0;i<NPAR;i++) if(i<a->cur_size&&eqs(MK[i],k)) return MV[i]; return NULL; }
void AA_fprintf(AssocArray a,FILE*f){}
#endif
static char K[NPAR+1][CAP+1], V[NPAR+1][CAP+1];
static int eq(const char*a,const char*b){ for(int i=0;i<CAP;i++){ if(a[i]!=b[i]) return 0; if(!a[i]) return 1; } return 1; }
void harness(void){
  ND_INT(n,0,LEN); ND_CHARS(t,LEN); int i;
  N=IN_n; POS=0;
  for(i=0;i<LEN;i++){ ASSUME(IN_t[i]!=0);
#ifdef ALPHA
    ASSUME(IN_t[i]=='#'||IN_t[i]=='='||IN_t[i]==' '||IN_t[i]=='\n'||IN_t[i]=='a'||IN_t[i]=='b');
#endif
    TXT[i]=IN_t[i]; }
#ifdef REPLAY
  FILE*f=N?fmemopen(TXT,N,"r"):fopen("/dev/null","r"); ConfigFile c=CF_fscanf(f); fclose(f);
#else
  ConfigFile c=CF_fscanf((FILE*)&POS);
#endif
  /* reference: line by line */
  int np=0, bad=0, p=0;
  for(int line=0; line<=LEN && p<=N; line++){
    /* one line: [p,e) */
    int kl=0, vl=0, stage=0, lbad=0; char k[LEN+1], v[LEN+1];
    /* stage 0: before key, 1: in key, 2: after key, 3: before value, 4: in value, 5: after value */
    int e=p; while(e<N&&TXT[e]!='\n'&&TXT[e]!='\r') e++;
    for(i=p;i<e;i++){ char ch=TXT[i]; int sp=(ch==' '||ch=='\t');
      if(ch=='#') break;
      if(stage==0){ if(sp) continue; if(ch=='='){ lbad=1; break; } k[kl++]=ch; stage=1; }
      else if(stage==1){ if(sp) stage=2; else if(ch=='=') stage=3; else k[kl++]=ch; }
      else if(stage==2){ if(sp) continue; if(ch=='=') stage=3; else { lbad=1; break; } }
      else if(stage==3){ if(sp) continue; if(ch=='='){ lbad=1; break; } v[vl++]=ch; stage=4; }
      else if(stage==4){ if(sp) stage=5; else if(ch=='='){ lbad=1; break; } else v[vl++]=ch; }
      else { if(sp) continue; lbad=1; break; } }
    if(stage==1||stage==2) lbad=1;
    if(kl>=CAP||vl>=CAP) lbad=1;
    if(!lbad&&stage>=3){ int dup=-1; k[kl]=0; v[vl]=0;
      for(int j=0;j<np;j++) if(eq(K[j],k)) dup=j;
      if(dup>=0||np>=NPAR) lbad=1; else { for(int z=0;z<NPAR;z++) if(z==np) for(int y=0;y<CAP;y++){ K[z][y]=y<=kl?k[y]:0; V[z][y]=y<=vl?v[y]:0; } np++; } }
    if(lbad) bad=1;
    p=e+1; }
  ASSERT((CF_isValid(c)!=0)==!bad,"a configuration file is reported as malformed exactly when it is");
  if(!bad){
    ASSERT(AA_size(c->params)==np,"number of settings read");
    for(i=0;i<np;i++){ char*g=AA_get(c->params,K[i]); ASSERT(g!=NULL,"setting missing"); if(g) ASSERT(eq(g,V[i]),"setting has the value written in the file"); }
    if(np==NPAR) WITNESS("capacity reached"); if(np>0&&N==LEN) WITNESS("a setting"); if(np==0&&N>2) WITNESS("nothing"); }
  else WITNESS("malformed");
}
