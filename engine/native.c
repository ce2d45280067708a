/* Native (IEEE) implementation of the harness API, for replaying counterexamples. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <math.h>
#include <unistd.h>
#include <signal.h>
#include "sym.h"
#include <sys/mman.h>
void*__real_calloc(size_t,size_t); void*__real_realloc(void*,size_t); void __real_free(void*);
#define calloc __real_calloc
#define realloc __real_realloc
#define free __real_free
#include "memfs.inc"
#undef calloc
#undef realloc
#undef free
#define malloc __real_malloc
#define calloc __real_calloc
#define realloc __real_realloc
#define free __real_free
void*malloc(size_t); void*calloc(size_t,size_t); void*realloc(void*,size_t); void free(void*);
#include "heap.inc"
int sym_native=1; sigjmp_buf sym_jb; int sym_jb_on;
static struct{ char n[128]; double v; } V[1024]; static int nV;
static struct{ char n[128]; int c; } C[1024]; static int nC;
static FILE *rep; static int bad;
static const char*uniq(const char*n){ static char b[160]; int i; for(i=0;i<nC;i++) if(!strcmp(C[i].n,n)) break; if(i==nC){ strcpy(C[nC].n,n); C[nC++].c=0; } int k=C[i].c++; if(k) sprintf(b,"%s#%d",n,k); else strcpy(b,n); return b; }
static int find(const char*n,double*v){ for(int i=0;i<nV;i++) if(!strcmp(V[i].n,n)){ *v=V[i].v; return 1; } return 0; }
static double clamp(double v,double lo,double hi){ return v<lo?lo:v>hi?hi:v; }
double sym_real(const char*n,double lo,double hi){ double v; if(lo==hi) return lo; if(!find(uniq(n),&v)) v=(lo+hi)/2; return clamp(v,lo,hi); }
double sym_qvar(const char*n,double lo,double hi){ double v; if(!find(uniq(n),&v)) v=(lo+hi)/2; return clamp(v,lo,hi); }
int sym_choice(const char*n,int k){ double v; if(!find(uniq(n),&v)) v=0; int i=(int)v; return i<0?0:i>=k?k-1:i; }
int sym_cfg(const char*n,int d){ char b[128]; snprintf(b,128,"CFG_%s",n); const char*e=getenv(b); return e?atoi(e):d; }
static void done(void){ if(rep){ fprintf(rep,"DONE bad=%d\n",bad); fflush(rep);} _exit(bad?1:0); }
void sym_prune(void){ fprintf(rep,"PRUNED\n"); done(); }
void sym_assume_ge(double a,double b){ if(!(a>=b-1e-9)) sym_prune(); }
static void fail(const char*m);
static void hp_fail(const char*m){ fail(m); }
void*__wrap_malloc(size_t n){ return hp_malloc(n); } void*__wrap_calloc(size_t a,size_t b){ return hp_calloc(a,b); } void*__wrap_realloc(void*p,size_t n){ return hp_realloc(p,n); } void __wrap_free(void*p){ hp_free(p); } char*__wrap_strdup(const char*s){ return hp_strdup(s); }
static void fail(const char*m){ fprintf(rep,"REPRODUCED %s\n",m); fflush(rep); bad++; if(bad>50) done(); }
static int vall;
void sym_vbegin(void){ vall=1; }
void sym_vge(double a,double b){ if(!(a>=b-1e-12)&&!(isnan(a)||isnan(b))) vall=0; }
void sym_vcheck(const char*m){ if(vall) fail(m); }
void sym_check_le(double a,double b,double t,const char*m){ if(!(a-b<t+1e-9*(1+fabs(a)+fabs(b)))&&a!=b) fail(m); }
void sym_check_eq(double a,double b,double t,const char*m){ if(!(fabs(a-b)<t+1e-9*(1+fabs(a)+fabs(b)))&&a!=b) { fprintf(rep,"# %s: %.12g vs %.12g\n",m,a,b); fail(m);} }
void sym_check(int c,const char*m){ if(!c) fail(m); }
void sym_cover(const char*id){ (void)id; }
void sym_observe(const char*n,double v){ fprintf(rep,"OBS %s %.17g\n",n,v); }
const char*sym_tok(double v){ static char r[16][64]; static int i; i=(i+1)%16; snprintf(r[i],64,"%.20f",v); return r[i]; }
int sym_same(double a,double b){ return a==b||fabs(a-b)<=1e-9*(1+fabs(a)+fabs(b)); }
int sym_is_const(double a){ (void)a; return 1; }
static double uq[256]; static int nu,iu;
void sym_srand_next(double u){ if(nu<256) uq[nu++]=u; }
static int ureal; void sym_srand_real(int on){ ureal=on; }
double __real_erand48(unsigned short*);
double __wrap_erand48(unsigned short*x){ if(iu<nu) return uq[iu++]; if(ureal) return __real_erand48(x); static unsigned long long q=88172645463325252ULL; q=q*6364136223846793005ULL+1442695040888963407ULL; return (double)(q>>12)/4503599627370496.0; }
void __wrap_exit(int c){ if(sym_jb_on){ sym_jb_on=0; siglongjmp(sym_jb,100+(c&255)); } fprintf(rep,"REPRODUCED unexpected exit(%d)\n",c); bad++; done(); }
void __wrap_abort(void){ fprintf(rep,"REPRODUCED unexpected abort\n"); bad++; done(); }
void __wrap___assert_fail(const char*e,const char*f,unsigned l,const char*fn){ (void)f;(void)l;(void)fn; if(sym_jb_on){ sym_jb_on=0; siglongjmp(sym_jb,99);} fprintf(rep,"REPRODUCED assertion failed: %s\n",e); bad++; done(); }
FILE*__real_fopen(const char*,const char*);
FILE*__wrap_fopen(const char*p,const char*m){ if(!strncmp(p,"/mem/",5)||m[0]!='r') return memfs_open(p,m); return __real_fopen(p,m); }
int __wrap_remove(const char*p){ return memfs_remove(p); }
int __wrap_unlink(const char*p){ return memfs_remove(p); }
static void sig(int s){ char b[64]; int n=snprintf(b,64,"REPRODUCED signal %d\n",s); (void)!write(fileno(rep),b,n); _exit(1); }
int main(int argc,char**argv){
  rep=fdopen(dup(1),"w"); setvbuf(rep,0,_IONBF,0); if(!getenv("SYM_ERR")){ (void)!freopen("/dev/null","w",stdout); (void)!freopen("/dev/null","w",stderr); }
  if(argc>1){ FILE*f=__real_fopen(argv[1],"r"); if(!f) return 3; while(nV<1024&&fscanf(f,"%127s %lf",V[nV].n,&V[nV].v)==2) nV++; fclose(f); }
  signal(SIGSEGV,sig); signal(SIGFPE,sig); signal(SIGBUS,sig); signal(SIGABRT,sig); signal(SIGALRM,sig); alarm(argc>2?atoi(argv[2]):20);
  sym_harness(); hp_init(); hp_check(); done(); return 0; }
