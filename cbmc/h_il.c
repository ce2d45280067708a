/* C35: index list: every sequence of N appended values, sizes over several doublings of the storage */
#include "nd.h"
#include "global.h"
#include "index-list.h"
#ifndef LO
#define LO 0
#endif
#ifndef N
#define N 23
#endif
void harness(void){
  ND_ARR(v,N,-1000000,1000000); ND_INT(n,LO,N); int i;
  IndexList l=IL_new(), o=IL_new(); ASSERT(IL_sizeOf(l)==0,"a new index list is empty");
  for(i=0;i<IN_n;i++){ IL_append(l,IN_v[i]); ASSERT(IL_sizeOf(l)==i+1,"appending grows the list by one"); if(i==4){ IL_append(o,IN_v[i]); IL_resize(o); } }
  ASSERT(l->capacity>=IL_sizeOf(l),"storage covers the list");
  for(i=0;i<IN_n;i++) ASSERT(l->element[i]==IN_v[i],"elements are kept in the order they were appended");
  if(IN_n>=5) ASSERT(IL_sizeOf(o)==1&&o->element[0]==IN_v[4],"growing the storage keeps the elements and does not affect another list");
  if(IN_n==N) WITNESS("full length"); if(LO||IN_n==0) WITNESS("empty");
  IL_dispose(l); IL_dispose(o);
}
