#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
static struct{ char n[80]; char v[64]; } V[4096]; static int n;
static const char*find(const char*k){ for(int i=n-1;i>=0;i--) if(!strcmp(V[i].n,k)) return V[i].v; return "0"; }
static const char*fi(const char*k,long i){ char b[128]; if(i<0) return find(k); sprintf(b,"%s[%ld]",k,i); return find(b); }
long nd_get(const char*k,long i){ return atol(fi(k,i)); }
double nd_getd(const char*k,long i){ return atof(fi(k,i)); }
void nd_assume(int c){ if(!c) _exit(42); }
void nd_assert(int c,const char*m){ if(!c){ fprintf(stderr,"FAILED %s\n",m); _exit(1); } }
void harness(void);
int main(int c,char**a){ FILE*f=fopen(a[1],"r"); while(f&&n<4096&&fscanf(f,"%79s %63s",V[n].n,V[n].v)==2) n++; if(f) fclose(f); alarm(15); harness(); _exit(0); }
