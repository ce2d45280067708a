/* C35: vectors of doubles and lists of them: every sequence of OPS operations on two lists, symbolic values (MODE 0); vector comparisons (MODE 1) */
#include "common.h"
#include "double-vector.h"
DoubleVectorNode DV_newNode(DoubleVector v,void*attr);
#define L 24
static double m[2][L]; static int mn[2]; static char*at_[2][L];
static int eq(double a,double b){ if(sym_same(a,b)) return 1; double d=a-b; if(d<0) d=-d; if(d<1e-3) sym_prune(); return 0; }
static DoubleVector mkv(double v){ DoubleVector x=DV_new(); x[0]=v; x[1]=v+1; return x; }
static void chk(DoubleVectorList l,int w){ int i; DoubleVectorNode n=l->head,last=NULL;
  sym_check(DV_sizeOfList(l)==mn[w],"length of the list");
  for(i=0;i<mn[w];i++){ if(!n){ sym_check(0,"list is shorter than it says"); return; } sym_check_eq(n->v[0],m[w][i],0,"elements and their order"); sym_check_eq(n->v[1],m[w][i]+1,0,"every component is kept"); sym_check(n->attr==at_[w][i],"attributes travel with their elements"); last=n; n=n->next; }
  sym_check(n==NULL,"list ends after its last element"); sym_check(mn[w]==0||l->tail==last,"tail is the last element"); }
static void app(int w,double v,char*a){ m[w][mn[w]]=v; at_[w][mn[w]++]=a; }
static void lists(void){
  int ops=sym_cfg("OPS",3), i,j; DoubleVectorList l[2]; DoubleVectorNode nd; static char A[L];
  l[0]=DV_newList(NULL); l[1]=DV_newList(NULL); mn[0]=mn[1]=0; double v[L];
  int pre=sym_choice("pre",3); for(i=0;i<pre;i++){ double x=sym_real(nm3("p",i,0,0),-4,4); DV_appendList(l[0],mkv(x),A+10+i); app(0,x,A+10+i); if(i==0){ DV_appendList(l[1],mkv(x),A+13); app(1,x,A+13); } }
  for(i=0;i<ops;i++){ int op=sym_choice(nm3("op",i,0,0),9), w=sym_choice(nm3("w",i,0,0),2), o=1-w; v[i]=sym_real(nm3("v",i,0,0),-4,4);
    switch(op){
    case 0: nd=DV_appendList(l[w],mkv(v[i]),A+i); sym_check(nd==l[w]->tail,"append returns the added node"); app(w,v[i],A+i); break;
    case 1: nd=DV_prependList(l[w],mkv(v[i]),A+i); sym_check(nd==l[w]->head,"prepend returns the added node"); for(j=mn[w];j>0;j--){ m[w][j]=m[w][j-1]; at_[w][j]=at_[w][j-1]; } m[w][0]=v[i]; at_[w][0]=A+i; mn[w]++; break;
    case 2: nd=DV_dequeueNode(l[w]); sym_check((nd!=NULL)==(mn[w]>0),"dequeue gives an element exactly if there is one");
            if(nd){ sym_check_eq(nd->v[0],m[w][0],0,"dequeue gives the first element"); sym_check(nd->next==NULL,"dequeued element is detached"); for(j=1;j<mn[w];j++){ m[w][j-1]=m[w][j]; at_[w][j-1]=at_[w][j]; } mn[w]--; DV_destroyNode(nd); } break;
    case 3: DV_enqueueNode(l[w],DV_newNode(mkv(v[i]),A+i)); app(w,v[i],A+i); break;
    case 4: if(mn[o]>0){ nd=DV_appendDuplicateNodeToList(l[w],l[o]->tail); sym_check(nd->v!=l[o]->tail->v,"a duplicate has its own vector"); app(w,m[o][mn[o]-1],at_[o][mn[o]-1]); } break;
    case 5: DV_clearList(l[w]); mn[w]=0; break;
    case 6: { DoubleVectorList d=DV_duplicateList(l[w]); if(mn[w]) sym_check(d->head!=l[w]->head&&d->head->v!=l[w]->head->v,"a duplicated list shares nothing"); DV_destroyList(l[w]); l[w]=d; break; }
    case 7: DV_unionTwoLists(l[w],l[o]); for(j=0;j<mn[o];j++) app(w,m[o][j],at_[o][j]); if(mn[o]==0) DV_destroyList(l[o]); mn[o]=0; l[o]=DV_newList(NULL); break;
    case 8: DV_renumberList(l[w]); j=0; for(nd=l[w]->head;nd;nd=nd->next) sym_check(nd->id==j++,"numbered by position"); break; }
    chk(l[w],w); chk(l[o],o); }
  double q[2]; if(sym_choice("q",2)&&mn[0]) q[0]=m[0][mn[0]-1]; else q[0]=sym_real("q",-4,4); q[1]=q[0]+1;
  int at=-1; for(j=mn[0]-1;j>=0;j--) if(eq(m[0][j],q[0])) at=j;
  nd=DV_findNode(l[0],q,1e-9); DoubleVectorNode e=l[0]->head; for(j=0;j<at;j++) e=e->next;
  sym_check(nd==(at>=0?e:NULL),"the first matching element is found"); sym_check(!!DV_queryList(l[0],q,1e-9)==(at>=0),"membership"); sym_cover(at>=0?"present":"absent");
  int same=mn[0]==mn[1], sim=same;
  for(i=0;same&&i<mn[0];i++) if(!eq(m[0][i],m[1][i])) same=0;
  if(sim) for(i=0;i<mn[0];i++){ int a=0,b=0; for(j=0;j<mn[1];j++){ if(eq(m[0][i],m[1][j])) a=1; if(eq(m[1][i],m[0][j])) b=1; } if(!a||!b) sim=0; }
  sym_check(!!DV_isSameList(l[0],l[1],1e-9)==same,"lists are the same exactly if they hold the same vectors in the same order");
  sym_check(!!DV_isSimilaraList(l[0],l[1],1e-9)==sim,"lists are similar exactly if each vector of one is in the other");
  sym_cover(same?"same":sim?"similar":"different");
  DV_destroyList(l[0]); DV_destroyList(l[1]); }
static void vecs(void){
  int S=gNumStates,i; double a[MS],b[MS],eps=sym_real("eps",0.001,1); for(i=0;i<S;i++){ a[i]=sym_real(nm3("a",i,0,0),-4,4); b[i]=sym_choice(nm3("tie",i,0,0),2)?a[i]:sym_real(nm3("b",i,0,0),-4,4); }
  int same=1,zero=1,dom=1,lex=0,dec=0;
  for(i=0;i<S;i++){ double d=a[i]-b[i],e=d<0?-d:d,z=a[i]<0?-a[i]:a[i]; if(!(e<eps)) same=0; if(!(z<eps)) zero=0; if(a[i]<=b[i]) dom=0; if(!dec&&!(e<eps)){ dec=1; lex=d>0; } }
  sym_check(!!DV_isSame(a,b,eps)==same,"vectors are the same exactly if every component agrees up to the tolerance");
  sym_check(!!DV_isZero(a,eps)==zero,"a vector is zero exactly if every component is");
  sym_check(!!DV_isDominated(a,b)==dom,"domination is strict in every state");
  sym_check(!!DV_isLexicographicallyBetter(a,b,eps)==lex,"lexicographic order is decided by the first state that differs");
  sym_cover(same?"same":lex?"better":"worse"); if(dom) sym_cover("dominated"); if(zero) sym_cover("zero");
  DoubleVector p=DV_new(),c,d=DV_new(); for(i=0;i<S;i++) p[i]=a[i]; c=DV_duplicate(p); DV_copy(d,b); for(i=0;i<S;i++){ sym_check_eq(c[i],a[i],0,"copies are exact"); sym_check_eq(d[i],b[i],0,"copies are exact"); p[i]=9; }
  for(i=0;i<S;i++) sym_check_eq(c[i],a[i],0,"copies do not share storage");
  sym_check(DV_isSame(NULL,NULL,eps)&&!DV_isSame(c,NULL,eps)&&!DV_isSame(NULL,c,eps)&&DV_isZero(NULL,eps)&&DV_duplicate(NULL)==NULL,"missing vectors");
  DV_destroy(c); DV_destroy(d); DV_destroy(p); }
void sym_harness(void){ int mode=sym_cfg("MODE",0); gNumStates=mode?sym_cfg("S",3):2; if(mode) vecs(); else lists(); }
