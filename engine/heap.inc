/* Checked heap used by the code under test (and the harness) in both builds: every block has a
   guard zone of HG bytes on both sides, fresh memory holds a fixed pattern, freed blocks are
   overwritten and kept for a while.  hp_check() reports writes outside a block or into a freed one. */
#include <stdint.h>
#define HG 32
#define HREC (1<<20)
#define HTAB (1<<21)
#define HQ 4096
#define HQB (4l<<20)
struct hrec { unsigned char *p; size_t n; int live; };
static struct hrec *hp_r; static int *hp_t; static int hp_n; static int hp_q[HQ]; static int hp_qh,hp_qn; static long hp_qb; static int *hp_fl; static int hp_nf;
static void hp_fail(const char *m);
static void hp_init(void){ if(hp_r) return; hp_r=(struct hrec*)mmap(0,sizeof(struct hrec)*HREC,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); hp_t=(int*)mmap(0,sizeof(int)*HTAB,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); hp_fl=(int*)mmap(0,sizeof(int)*HREC,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); }
static unsigned hp_h(const void*p){ return (unsigned)(((uintptr_t)p>>4)*0x9E3779B97F4A7C15ull>>43)&(HTAB-1); }
/* table holds record index+1; -1 = deleted */
static int hp_find(const void*p,unsigned*at){ unsigned h=hp_h(p); while(hp_t[h]){ if(hp_t[h]>0&&hp_r[hp_t[h]-1].p==p){ *at=h; return hp_t[h]-1; } h=(h+1)&(HTAB-1); } return -1; }
static int hp_bad(const struct hrec*r){ for(int i=1;i<=HG;i++) if(r->p[-i]!=0xC7) return 1; for(int i=0;i<HG;i++) if(r->p[r->n+i]!=0xC7) return 1; return 0; }
static int hp_dead(const struct hrec*r){ size_t k=r->n<4096?r->n:4096; for(size_t i=0;i<k;i++) if(r->p[i]!=0xDD) return 1; return 0; }
static void hp_drop(int i){ unsigned at; if(hp_find(hp_r[i].p,&at)==i) hp_t[at]=-1; free(hp_r[i].p-HG); hp_r[i].p=0; hp_r[i].live=0; hp_fl[hp_nf++]=i; }

#ifdef __cplusplus
extern "C" {
#endif
void (*sym_alloc_hook)(void);
#ifdef __cplusplus
}
#endif
/* called at every allocation of the code under test (C linkage below) */
static void *hp_malloc(size_t n){ hp_init(); if(sym_alloc_hook) sym_alloc_hook(); unsigned char*b=(unsigned char*)malloc(n+2*HG); if(!b) return 0; if(hp_n==HREC&&!hp_nf) hp_fail("heap: too many live blocks"); int i=hp_nf?hp_fl[--hp_nf]:hp_n++; unsigned char*p=b+HG; memset(b,0xC7,HG); memset(p,0xA5,n); memset(p+n,0xC7,HG);
  hp_r[i].p=p; hp_r[i].n=n; hp_r[i].live=1; unsigned h=hp_h(p); while(hp_t[h]>0) h=(h+1)&(HTAB-1); hp_t[h]=i+1; return p; }
static void *hp_calloc(size_t a,size_t b){ if(b&&a>((size_t)1<<40)/b) return 0; void*p=hp_malloc(a*b); if(p) memset(p,0,a*b); return p; }
static void hp_free(void*p){ if(!p) return; hp_init(); unsigned at; int i=hp_find(p,&at); if(i<0){ free(p); return; } struct hrec*r=hp_r+i; if(!r->live){ hp_fail("heap: block freed twice"); return; } if(hp_bad(r)) hp_fail("heap: write outside a heap block");
  r->live=0; size_t k=r->n<4096?r->n:4096; memset(r->p,0xDD,k); if(r->n>65536){ hp_drop(i); return; }
  hp_q[(hp_qh+hp_qn)%HQ]=i; hp_qn++; hp_qb+=r->n; while(hp_qn==HQ||hp_qb>HQB){ int j=hp_q[hp_qh]; hp_qh=(hp_qh+1)%HQ; hp_qn--; hp_qb-=hp_r[j].n; if(hp_bad(hp_r+j)||hp_dead(hp_r+j)) hp_fail("heap: write into a freed block"); hp_drop(j); } }
static void *hp_realloc(void*p,size_t n){ if(!p) return hp_malloc(n); hp_init(); unsigned at; int i=hp_find(p,&at); if(i<0) return realloc(p,n); if(!hp_r[i].live){ hp_fail("heap: freed block reallocated"); return 0; } void*q=hp_malloc(n); if(!q) return 0; size_t o=hp_r[i].n; memcpy(q,p,o<n?o:n); hp_free(p); return q; }
static char *hp_strdup(const char*s){ size_t n=strlen(s)+1; char*p=(char*)hp_malloc(n); if(p) memcpy(p,s,n); return p; }
static void hp_check(void){ for(int i=0;i<hp_n;i++){ struct hrec*r=hp_r+i; if(!r->p) continue; if(hp_bad(r)){ hp_fail(r->live?"heap: write outside a heap block":"heap: write into a freed block"); return; } if(!r->live&&hp_dead(r)){ hp_fail("heap: write into a freed block"); return; } } }
/* guard zones around stack arrays (see instr.guard) */
#ifdef __cplusplus
extern "C" {
#endif
void __sv_sg(unsigned char*r,long n){ memset(r,0xC9,32); memset(r+32,0xA5,n); memset(r+32+n,0xC9,32); }
void __sv_sc(unsigned char*r,long n){ for(int i=0;i<32;i++) if(r[i]!=0xC9||r[32+n+i]!=0xC9){ hp_fail("stack: write outside an array on the stack"); return; } }
#ifdef __cplusplus
}
#endif
