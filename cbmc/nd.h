/* inputs of CBMC harnesses: nondeterministic under CBMC, read from a file in the replay build */
#ifndef ND_H
#define ND_H
#include <stdlib.h>
#include <string.h>
#ifdef REPLAY
extern long nd_get(const char*name,long i);
extern void nd_assume(int c);
extern void nd_assert(int c,const char*m);
extern double nd_getd(const char*name,long i);
#define ASSUME(c) nd_assume(!!(c))
#define ASSERT(c,m) nd_assert(!!(c),m)
#define WITNESS(m) ((void)0)
#define ND_INT(name,lo,hi) int IN_##name=(int)nd_get("IN_" #name,-1); ASSUME(IN_##name>=(lo)&&IN_##name<=(hi))
#define ND_ARR(name,n,lo,hi) int IN_##name[n]; for(int k_=0;k_<(n);k_++){ IN_##name[k_]=(int)nd_get("IN_" #name,k_); ASSUME(IN_##name[k_]>=(lo)&&IN_##name[k_]<=(hi)); }
#define ND_CHARS(name,n) char IN_##name[n]; for(int k_=0;k_<(n);k_++) IN_##name[k_]=(char)nd_get("IN_" #name,k_)
#define ND_DARR(name,n,lo,hi) double IN_##name[n]; for(int k_=0;k_<(n);k_++){ IN_##name[k_]=nd_getd("IN_" #name,k_); ASSUME(IN_##name[k_]>=(lo)&&IN_##name[k_]<=(hi)); }
#else
int nondet_int(void); char nondet_char(void); double nondet_double(void);
#define ASSUME(c) __CPROVER_assume(c)
#define ASSERT(c,m) __CPROVER_assert(c,m)
#define WITNESS(m) __CPROVER_assert(0,"WITNESS " m)
#define ND_INT(name,lo,hi) int IN_##name=nondet_int(); ASSUME(IN_##name>=(lo)&&IN_##name<=(hi))
#define ND_ARR(name,n,lo,hi) int IN_##name[n]; for(int k_=0;k_<(n);k_++){ IN_##name[k_]=nondet_int(); ASSUME(IN_##name[k_]>=(lo)&&IN_##name[k_]<=(hi)); }
#define ND_CHARS(name,n) char IN_##name[n]; for(int k_=0;k_<(n);k_++) IN_##name[k_]=nondet_char()
#define ND_DARR(name,n,lo,hi) double IN_##name[n]; for(int k_=0;k_<(n);k_++){ IN_##name[k_]=nondet_double(); ASSUME(IN_##name[k_]>=(lo)&&IN_##name[k_]<=(hi)); }
#endif
void harness(void);
#endif
