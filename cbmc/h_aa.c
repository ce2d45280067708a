/* C33: settings map: every sequence of OPS puts/gets of keys and values of up to 2 characters */
#include "nd.h"
#include "global.h"
#include "associative-array.h"
#ifndef OPS
#define OPS 3
#endif
#ifndef MAXN
#define MAXN 2
#endif
#define W 3
void harness(void){
  ND_CHARS(k,OPS*W); ND_CHARS(v,OPS*W); ND_CHARS(q,W); int i,j; char rk[OPS][W], rv[OPS][W]; int n=0;
  AssocArray a=AA_new(MAXN,W); ASSERT(AA_size(a)==0,"new map is empty");
  for(i=0;i<OPS;i++){ char*k=IN_k+i*W,*v=IN_v+i*W; ASSUME(k[W-1]==0&&v[W-1]==0);
    int at=-1; for(j=0;j<n;j++) if(!strcmp(rk[j],k)) at=j;
    int r=AA_put(a,k,v), want;
    if(at>=0){ want=0; strcpy(rv[at],v); WITNESS("replaced"); } else if(n>=MAXN){ want=-1; WITNESS("full"); } else { want=1; strcpy(rk[n],k); strcpy(rv[n],v); n++; }
    ASSERT(r==want,"result of storing a setting"); ASSERT(AA_size(a)==n,"size of the map"); }
  ASSUME(IN_q[W-1]==0); char*g=AA_get(a,IN_q); int at=-1; for(j=0;j<n;j++) if(!strcmp(rk[j],IN_q)) at=j;
  ASSERT((g!=NULL)==(at>=0),"a key is present exactly if it was stored"); if(g&&at>=0){ ASSERT(!strcmp(g,rv[at]),"last value stored for the key"); WITNESS("found"); }
  if(!g) WITNESS("absent");
  char longs[W+1]={'x','y','z',0}; ASSERT(AA_put(a,longs,longs)==-1&&AA_size(a)==n,"string that does not fit is refused");
  AA_delete(a);
}
