/* C30: vector-set operations. */
#include "solve.h"
#define MAXN 8
static int S; static int inlist(AlphaList l,AlphaList x){ for(AlphaList p=l->head;p;p=p->next) if(p==x) return 1; return 0; }
/* structure: length, head, tail */
static void wf(AlphaList l,int n,const char*msg){ int q=0; AlphaList t=0; for(AlphaList p=l->head;p;p=p->next){ q++; t=p; if(q>50) break; } sym_check(q==n&&l->length==n,msg); sym_check(sizeAlphaList(l)==n,msg); sym_check(n==0?l->head==0:l->tail==t,msg); }
/* equal only when structurally equal; nearly equal values are outside the bounds */
static int far(double a,double b){ if(sym_same(a,b)) return 0; if(fabs(a-b)<2e-3) sym_prune(); return 1; }
static int lexgt(const double*a,const double*b){ for(int s=0;s<S;s++){ if(!far(a[s],b[s])) continue; return a[s]>b[s]; } return 0; }
void sym_harness(void){
  Model m; S=sym_cfg("S",2); int n=sym_cfg("N",3),k=sym_cfg("K",2); double v[MAXN][MS],b[MS];
  m_default(&m,S,2,2,1); solve_setup(&m,0,0);
  int op=sym_cfg("OP",-1); if(op<0) op=sym_choice("op",9); int dup=sym_choice("dup",2), rot=sym_choice("rot",n);
  for(int i=0;i<n;i++) for(int s=0;s<S;s++) v[i][s]=floor(GEN(3*i+5*s+1)*64)/16.0-2;
  for(int j=0;j<k;j++){ int i=(rot+j/S)%n,s=j%S; v[i][s]=sym_real(nm3("v",i,s,0),-4,4); }
  if(dup) for(int s=0;s<S;s++) v[n-1][s]=v[0][s];
  int act[MAXN]; for(int i=0;i<n;i++) act[i]=i;
  AlphaList l=mk_list(v,n,S,act), nd[MAXN]; { int i=0; for(AlphaList p=l->head;p;p=p->next) nd[i++]=p; }
  for(int i=0;i<n;i++){ nd[i]->obs=10+i; nd[i]->mark=i&1; nd[i]->id=20+i; nd[i]->prev_source=nd[(i+1)%n]; nd[i]->first_source=nd[(i+2)%n]; nd[i]->second_source=nd[i]; }
  wf(l,n,"new list");
  if(op==0){ int w=sym_choice("w",2); double wp[MAXN][MS]; for(int i=0;i<n;i++){ for(int s=0;s<S;s++) wp[i][s]=sym_real(nm3("w",i,s,0),0,1); addWitnessToAlphaNode(nd[i],wp[i]); }
    AlphaList d=w?duplicateAlphaListWithWitnesses(l):duplicateAlphaList(l); wf(d,n,"copy: wrong size"); wf(l,n,"copy changed the original");
    int i=0; for(AlphaList x=d->head;x&&i<n;x=x->next,i++){ sym_check(x!=nd[i]&&x->alpha!=nd[i]->alpha,"copy shares storage"); for(int s=0;s<S;s++){ sym_check_eq(x->alpha[s],v[i][s],0,"copy: value changed"); sym_check_eq(nd[i]->alpha[s],v[i][s],0,"original: value changed"); if(w){ if(!x->witness) sym_check(0,"copy: witness missing"); else { sym_check(x->witness!=nd[i]->witness,"copy shares the witness"); sym_check_eq(x->witness[s],wp[i][s],0,"copy: witness changed"); } } }
      sym_check(x->action==i,"copy: action"); sym_check(x->obs==10+i,"copy: observation"); sym_check(x->mark==(i&1),"copy: mark"); sym_check(x->prev_source==nd[(i+1)%n]&&x->first_source==nd[(i+2)%n]&&x->second_source==nd[i],"copy: sources"); }
    sym_check(sameAlphaList(l,d,1e-9),"copy is not the same list"); destroyAlphaList(d); wf(l,n,"destroying the copy damaged the original"); for(int i=0;i<n;i++) sym_check_eq(nd[i]->alpha[0],v[i][0],0,"destroying the copy damaged the original"); }
  if(op==1){ sortAlphaList(l); wf(l,n,"sort: size"); int seen[MAXN]={0}; AlphaList q=0; int dir=0;
    for(AlphaList x=l->head;x;x=x->next){ int i=x->action; sym_check(i>=0&&i<n&&nd[i]==x,"sort: element lost"); if(i<0||i>=n) return; sym_check(!seen[i]++,"sort: element repeated"); for(int s=0;s<S;s++) sym_check_eq(x->alpha[s],v[i][s],0,"sort: value changed");
      if(q){ int g=lexgt(x->alpha,q->alpha), h=lexgt(q->alpha,x->alpha); if(g){ sym_check(dir<=0,"sort: not in lexicographic order"); dir=-1; } if(h){ sym_check(dir>=0,"sort: not in lexicographic order"); dir=1; } } q=x; }
    double w[MAXN][MS]; for(int i=0;i<n;i++) for(int s=0;s<S;s++) w[i][s]=v[n-1-i][s]; AlphaList r=mk_list(w,n,S,0); sortAlphaList(r); sym_check(sameAlphaList(l,r,1e-7),"sort: result depends on the initial order"); sym_cover("sorted"); }
  if(op==2){ int pr=sym_choice("perm",3); double w[MAXN][MS]; for(int i=0;i<n;i++){ int j=pr==0?i:pr==1?(i+1)%n:n-1-i; for(int s=0;s<S;s++) w[i][s]=v[j][s]; }
    int ch=sym_choice("ch",3); int ci=sym_choice("ci",n),cs=sym_choice("cs",S); double d=0; if(ch==1){ d=sym_real("d",0.01,1); w[ci][cs]=w[ci][cs]+d; } if(ch==2){ d=sym_real("d",0.01,1); w[ci][cs]=w[ci][cs]-d; }
    AlphaList r=mk_list(w,n,S,0); int same=1; for(int i=0;i<n;i++) for(int s=0;s<S;s++) if(far(v[i][s],w[i][s])) same=0;
    int a1=1,a2=1; for(int i=0;i<n;i++){ int f=0,g=0; for(int j=0;j<n;j++){ int e=1,e2=1; for(int s=0;s<S;s++){ if(far(v[i][s],w[j][s])) e=0; if(far(w[i][s],v[j][s])) e2=0; } if(e) f=1; if(e2) g=1; } if(!f) a1=0; if(!g) a2=0; }
    sym_cover(same?"same":"diff"); sym_cover(a1&&a2?"sim":"dis");
    sym_check(sameAlphaList(l,r,1e-6)==same,"same: wrong answer"); sym_check(sameAlphaList(r,l,1e-6)==same,"same: not symmetric");
    sym_check(similarAlphaList(l,r,1e-6)==(a1&&a2),"similar: wrong answer"); sym_check(similarAlphaList(r,l,1e-6)==(a1&&a2),"similar: not symmetric");
    AlphaList shorter=mk_list(v,n-1,S,0); sym_check(!sameAlphaList(l,shorter,1e-6)&&!sameAlphaList(shorter,l,1e-6)&&!similarAlphaList(l,shorter,1e-6),"lists of different length are not the same"); }
  if(op==3){ int na=sym_choice("na",n+1); AlphaList a=newAlphaList(),c=newAlphaList(); for(int i=0;i<n;i++){ AlphaList x=dequeueAlphaNode(l); sym_check(x==nd[i],"dequeue: not the first element"); enqueueAlphaNode(i<na?a:c,x); wf(l,n-1-i,"dequeue: list"); } wf(a,na,"enqueue"); wf(c,n-na,"enqueue");
    if(n-na>0){ unionTwoAlphaLists(a,c); wf(a,n,"union: size"); int i=0; for(AlphaList x=a->head;x;x=x->next,i++){ sym_check(i<n&&x==nd[i],"union: element lost or reordered"); if(i>=n) break; for(int s=0;s<S;s++) sym_check_eq(x->alpha[s],v[i][s],0,"union: value changed"); }
      double*al=newAlpha(); for(int s=0;s<S;s++) al[s]=7+s; AlphaList y=appendAlphaList(a,al,5); wf(a,n+1,"append after union"); sym_check(a->tail==y,"append after union"); } }
  if(op==4){ int qi=sym_choice("q",n+1); double x[MS]; for(int s=0;s<S;s++) x[s]=qi<n?v[qi][s]:sym_real(nm3("x",s,0,0),-4,4); int hit=-1; for(int i=0;i<n&&hit<0;i++){ int e=1; for(int s=0;s<S;s++) if(far(x[s],v[i][s])) e=0; if(e) hit=i; }
    sym_cover(hit>=0?"present":"absent"); AlphaList f=findAlphaVector(l,x,1e-6); sym_check(f==(hit>=0?nd[hit]:0),"find: wrong element"); sym_check(queryAlphaList(l,x,1e-6)==(hit>=0),"query: wrong answer");
    int e=sym_choice("how",3);
    if(e==0){ double*c=duplicateAlpha(x); AlphaList r=appendUniqueAlphaList(l,c,9,1e-6); sym_check((r==0)==(hit>=0),"append-if-new: wrong decision"); wf(l,n+(hit<0),"append-if-new: size"); if(r) sym_check(l->tail==r&&r->action==9,"append-if-new: element"); }
    if(e==1){ AlphaList r=extractFromAlphaList(l,x,1e-6); sym_check(r==(hit>=0?nd[hit]:0),"extract: wrong element"); wf(l,n-(hit>=0),"extract: size"); }
    if(e==2){ int r=removeFromAlphaList(l,x,1e-6); sym_check(!r==(hit<0),"remove: answer"); wf(l,n-(hit>=0),"remove: size"); }
    if(e>0){ int j=0; AlphaList y=l->head; for(int i=0;i<n;i++) if(i!=hit){ sym_check(y==nd[i],"remove: another element lost"); if(!y) break; y=y->next; } AlphaList z=appendAlphaList(l,duplicateAlpha(v[0]),9); wf(l,n-(hit>=0)+1,"append after remove"); sym_check(l->tail==z,"append after remove"); (void)j; } }
  if(op==5){ int mk=sym_choice("marks",1<<n), e=sym_choice("how",4), cnt=0, first=-1; for(int i=0;i<n;i++){ nd[i]->mark=(mk>>i)&1; if(nd[i]->mark) cnt++; else if(first<0) first=i; }
    sym_check(sizeUnmarkedAlphaList(l)==n-cnt,"number of unmarked"); sym_check(!allMarkedAlphaList(l)==(cnt<n),"all marked"); sym_check(findUnmarkedVector(l)==(first>=0?nd[first]:0),"first unmarked");
    if(e==0){ AlphaList x=extractUnmarkedVector(l); sym_check(x==(first>=0?nd[first]:0),"extract unmarked: element"); wf(l,n-(first>=0),"extract unmarked: size"); }
    if(e==1){ AlphaList r=extractMarkedAlphaList(l); wf(r,cnt,"extract marked: size"); wf(l,n-cnt,"extract marked: rest"); for(int i=0;i<n;i++) sym_check(inlist((mk>>i)&1?r:l,nd[i]),"extract marked: element in the wrong list"); }
    if(e==2){ int r=removeMarkedAlphaList(l); sym_check(r==cnt,"remove marked: count"); wf(l,n-cnt,"remove marked: size"); AlphaList y=l->head; for(int i=0;i<n;i++) if(!((mk>>i)&1)){ sym_check(y==nd[i],"remove marked: element lost"); if(!y) break; for(int s=0;s<S;s++) sym_check_eq(y->alpha[s],v[i][s],0,"remove marked: value"); y=y->next; } }
    if(e==3){ clearMarkAlphaList(l); sym_check(sizeUnmarkedAlphaList(l)==n,"clear marks"); markAllAlphaList(l); sym_check(sizeUnmarkedAlphaList(l)==0,"mark all"); }
    AlphaList z=appendAlphaList(l,duplicateAlpha(v[0]),9); sym_check(l->tail==z&&(l->length==1?l->head==z:1),"append after removal"); wf(l,l->length,"append after removal"); }
  if(op==6){ int e=sym_choice("how",3);
    if(e==0){ int i=sym_choice("i",n); AlphaList x=extractAlphaNode(l,nd[i]); sym_check(x==nd[i],"extract node"); wf(l,n-1,"extract node: size"); for(int j=0;j<n;j++) if(j!=i) sym_check(inlist(l,nd[j]),"extract node: another element lost"); prependNodeToAlphaList(l,x); wf(l,n,"prepend"); sym_check(l->head==x,"prepend"); }
    if(e==1){ double rest=1; for(int s=0;s<S-1;s++){ b[s]=sym_real(nm3("b",s,0,0),0.01,1.0/(S-1)-0.01); rest-=b[s]; } b[S-1]=rest; AlphaList x=removebestVectorNode(l,b,1e-9); sym_check(x!=0,"remove best"); if(!x) return; wf(l,n-1,"remove best: size"); sym_check(!inlist(l,x),"remove best: still there"); int i=x->action; for(int j=0;j<n;j++){ sym_check_le(vdot(v[j],b,S),vdot(v[i],b,S),1e-6,"remove best: not the best"); if(j!=i) sym_check(inlist(l,nd[j]),"remove best: another element lost"); } }
    if(e==2){ renumberAlphaList(l); for(int i=0;i<n;i++) sym_check(nd[i]->id==i,"renumber"); AlphaList d=appendDuplicateNodeToAlphaList(l,nd[1]); wf(l,n+1,"append duplicate"); sym_check(l->tail==d&&d->alpha!=nd[1]->alpha&&d->action==1&&d->obs==11,"append duplicate"); for(int s=0;s<S;s++) sym_check_eq(d->alpha[s],v[1][s],0,"append duplicate: value"); clearAlphaList(l); wf(l,0,"clear"); } }
  if(op==7){ /* dominated elements */ double x[MS]; for(int s=0;s<S;s++) x[s]=sym_real(nm3("x",s,0,0),-4,4); int dm[MAXN],any=0,cnt=0,e=sym_choice("how",3);
    for(int i=0;i<n;i++){ dm[i]=1; int up=1; for(int s=0;s<S;s++){ if(!(x[s]>v[i][s])) dm[i]=0; if(!(v[i][s]>x[s])) up=0; } cnt+=dm[i]; any|=up; }
    sym_cover(any?"below":cnt?"above":"apart");
    if(e==0) sym_check(!dominatedAlphaList(x,l)==!any,"dominated: wrong answer");
    if(e==1){ clearMarkAlphaList(l); markDominatedAlphaList(x,l); for(int i=0;i<n;i++) sym_check(!nd[i]->mark==!dm[i],"mark dominated: wrong element"); }
    if(e==2){ clearMarkAlphaList(l); int r=removeDominatedAlphaList(x,l); sym_check(r==cnt,"remove dominated: count"); wf(l,n-cnt,"remove dominated: size"); for(int i=0;i<n;i++) if(!dm[i]) sym_check(inlist(l,nd[i]),"remove dominated: element lost"); } }
  if(op==8){ for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(i!=j){ int a=isLexicographicallyBetter(nd[i],nd[j],1e-9),c=isLexicographicallyBetterAlpha(v[j],v[i],1e-9); sym_check(a==lexgt(v[i],v[j]),"lexicographic comparison"); sym_check(c==lexgt(v[j],v[i]),"lexicographic comparison"); int e=1; for(int s=0;s<S;s++) if(!(v[i][s]>v[j][s])) e=0; sym_check(!isDominatedVector(v[i],v[j])==!e,"dominance comparison"); int q=1; for(int s=0;s<S;s++) if(far(v[i][s],v[j][s])) q=0; sym_check(sameAlpha(v[i],v[j],1e-6)==q,"equality comparison"); }
    AlphaList d=makeScaledAlphaList(l,3); wf(d,n,"scaled copy"); int i=0; for(AlphaList x=d->head;x;x=x->next,i++) for(int s=0;s<S;s++) sym_check_eq(x->alpha[s],v[i][s],1e-9,"scaled copy without scaling changes values"); }
  sym_observe("len",l->length); if(l->head) sym_observe("h0",l->head->alpha[0]);
}
