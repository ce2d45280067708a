/* API seen by harnesses.  The same harness source is built twice:
   - against rt.cpp   (symbolic: every double operation of harness and code under
                       test goes through the engine),
   - against native.c (plain IEEE doubles, for replay of counterexamples). */
#ifndef SYM_H
#define SYM_H
#include <stdio.h>
#include <setjmp.h>
#ifdef __cplusplus
extern "C" {
#endif
extern int sym_native;                     /* 1 in the replay build */
/* inputs */
double sym_real(const char *name, double lo, double hi);
int    sym_choice(const char *name, int n);            /* 0..n-1 */
int    sym_cfg(const char *name, int dflt);            /* bound taken from the environment */
void   sym_prune(void);                                /* drop this path */
void   sym_assume_ge(double a, double b);              /* a >= b or drop */
/* query-local (for-all / exists) variable used only inside violation conditions */
double sym_qvar(const char *name, double lo, double hi);
void   sym_vbegin(void);
void   sym_vge(double a, double b);                    /* conjunct a >= b */
void   sym_vcheck(const char *msg);                    /* violation iff conj satisfiable */
void   sym_check_le(double a, double b, double tol, const char *msg); /* a <= b+tol */
void   sym_check_eq(double a, double b, double tol, const char *msg);
void   sym_check(int cond, const char *msg);
void   sym_cover(const char *id);
void   sym_observe(const char *name, double v);
const char *sym_tok(double v);                         /* decimal text standing for v (v>=0) */
int    sym_same(double a, double b);                   /* identical expression / value */
int    sym_is_const(double a);
/* non-local exit catching:  if( SYM_TRY() == 0 ) { ... ; SYM_END(); } else exited */
extern sigjmp_buf sym_jb; extern int sym_jb_on;
#define SYM_TRY() (sym_jb_on = 1, sigsetjmp(sym_jb,0))
#define SYM_END() (sym_jb_on = 0)
/* in-memory file: content visible to fopen("/mem/...") of code under test */
void sym_file_put(const char *path, const char *text);
const char *sym_file_get(const char *path);            /* NULL if absent */
void sym_srand_next(double u);                         /* queue of next erand48 values */
void sym_srand_real(int on);                           /* unqueued draws come from the C library's generator */
extern void (*sym_alloc_hook)(void);                   /* called at every allocation of the code under test */
void sym_harness(void);
#ifdef __cplusplus
}
#endif
#endif
