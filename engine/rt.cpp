// Symbolic-double runtime.  See DESIGN.md ("Engine A").
#include <z3++.h>
#include <gmpxx.h>
#include <vector>
#include <string>
#include <map>
#include <set>
#include <unordered_map>
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cstdarg>
#include <cstdint>
#include <unistd.h>
#include <signal.h>
#include <semaphore.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include "sym.h"
#include <execinfo.h>

extern "C" {
#include "memfs.inc"
}

// ---------------------------------------------------------------- polynomials
typedef std::basic_string<char16_t> Mono;
static inline bool mgt(const Mono&a,const Mono&b){ if(a.size()!=b.size()) return a.size()>b.size(); return a<b; }
struct Term{ Mono m; mpq_class c; };
typedef std::vector<Term> Poly;      // descending monomial order
struct MG{ bool operator()(const Mono&a,const Mono&b)const{return mgt(a,b);} };

static Poly padd(const Poly&a,const Poly&b,int sgn){
  Poly r; r.reserve(a.size()+b.size()); size_t i=0,j=0;
  while(i<a.size()||j<b.size()){
    if(j==b.size()||(i<a.size()&&mgt(a[i].m,b[j].m))) r.push_back(a[i++]);
    else if(i==a.size()||mgt(b[j].m,a[i].m)){ r.push_back(b[j++]); if(sgn<0) r.back().c=-r.back().c; }
    else { mpq_class c = sgn<0 ? mpq_class(a[i].c-b[j].c) : mpq_class(a[i].c+b[j].c); if(c!=0) r.push_back(Term{a[i].m,c}); i++; j++; }
  } return r; }
static Mono mmul(const Mono&a,const Mono&b){ Mono r; r.resize(a.size()+b.size()); std::merge(a.begin(),a.end(),b.begin(),b.end(),r.begin()); return r; }
static Poly pscale(const Poly&a,const mpq_class&k){ Poly r; if(k==0) return r; r=a; for(auto&t:r) t.c*=k; return r; }
static Poly pmul(const Poly&a,const Poly&b){
  if(a.empty()||b.empty()) return Poly();
  if(b.size()==1&&b[0].m.empty()) return pscale(a,b[0].c);
  if(a.size()==1&&a[0].m.empty()) return pscale(b,a[0].c);
  std::map<Mono,mpq_class,MG> acc;
  for(auto&x:a) for(auto&y:b){ acc[mmul(x.m,y.m)] += x.c*y.c; }
  Poly r; for(auto&kv:acc) if(kv.second!=0) r.push_back(Term{kv.first,kv.second});
  return r; }
static bool mdiv(const Mono&a,const Mono&b,Mono&q){ q.clear(); size_t j=0;
  for(size_t i=0;i<a.size();i++){ if(j<b.size()&&a[i]==b[j]) j++; else q.push_back(a[i]); }
  return j==b.size(); }
static bool pdivexact(const Poly&a,const Poly&b,Poly&q){
  q.clear(); Poly r=a; if(b.empty()) return false;
  // cheap necessary test
  Mono t; if(!r.empty()&&!mdiv(r[0].m,b[0].m,t)) return false;
  if(!r.empty()&&!mdiv(r.back().m,b.back().m,t)) return false;
  int guard=0;
  while(!r.empty()){ Mono m; if(!mdiv(r[0].m,b[0].m,m)) return false; if(++guard>3000) return false;
    mpq_class c=r[0].c/b[0].c; q.push_back(Term{m,c});
    Poly s; s.reserve(b.size()); for(auto&x:b) s.push_back(Term{mmul(x.m,m),x.c*c});
    r=padd(r,s,-1); }
  return true; }
static inline bool pconst(const Poly&p){ return p.empty()||(p.size()==1&&p[0].m.empty()); }
static Poly pconstant(const mpq_class&c){ Poly p; if(c!=0) p.push_back(Term{Mono(),c}); return p; }
static int univar(const Poly&p){ int v=-1; for(auto&t:p) for(auto c:t.m){ if(v<0) v=c; else if(v!=c) return -2; } return v; }
// univariate gcd (monic)
static Poly pmod1(Poly a,const Poly&b){
  while(!a.empty()&&a[0].m.size()>=b[0].m.size()){ mpq_class c=a[0].c/b[0].c; Mono m(a[0].m.size()-b[0].m.size(), b[0].m.empty()?(a[0].m.empty()?0:a[0].m[0]):b[0].m[0]);
    Poly s; for(auto&x:b) s.push_back(Term{mmul(x.m,m),x.c*c}); a=padd(a,s,-1);} return a; }
static Poly pgcd1(Poly a,Poly b){ while(!b.empty()){ if(pconst(b)){ return pconstant(1);} Poly r=pmod1(a,b); if(!r.empty()) r=pscale(r,1/r[0].c); a=b; b=r; } if(!a.empty()) a=pscale(a,1/a[0].c); return a; }

// ---------------------------------------------------------------- nodes
struct Node{ Poly n; std::vector<std::pair<int,int>> d; double eps; };
static std::vector<Node> nodes;
static std::vector<Poly> facs; static std::vector<int> facSign; static std::map<std::string,int> facIdx;
struct Var{ std::string name; double lo,hi; bool q; };
static std::vector<Var> vars;
static std::map<std::string,double> choices;
static const uint64_t TAG=0x7FFC000000000000ULL, TAGMASK=0xFFFF000000000000ULL;
static inline uint64_t bits(double d){ uint64_t u; memcpy(&u,&d,8); return u; }
static inline bool isym(double d){ return (bits(d)&TAGMASK)==TAG; }
static inline uint32_t idof(double d){ return (uint32_t)bits(d); }
static inline double mk(uint32_t id){ uint64_t u=TAG|id; double d; memcpy(&d,&u,8); return d; }
static std::string pkey(const Poly&p){ std::string s; for(auto&t:p){ s.append((const char*)t.m.data(),t.m.size()*2); s.append("\xff\xff",2); s+=t.c.get_str(62); s.push_back('\xfe'); } return s; }
static std::unordered_map<std::string,uint32_t> hcons;

// ---------------------------------------------------------------- shared state
struct Cov{ char name[96]; std::atomic<long> n; };
struct Shared{
  std::atomic<long> paths,forks,killed,qsat,qunsat,qunk,qfast,nlq,cands,wit,vq,vunsat,vfold,imprecise,bandonly,timeouts,crash,pruned,incomplete,ntok,stop,funcs;
  std::atomic<long> solver_us; std::atomic<long> maxdeg,maxterms;
  sem_t tok; std::atomic<int> lock; int ncov; Cov cov[512];
  struct{ std::atomic<uint32_t> h; std::atomic<int> n; } msg[256];
  double deadline;
};
static Shared*S;
static int outfd=-1; static double DELTA=1e-6; static int MAXW=24; static long RL=3000000; static int ntoks=8;
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
extern "C" { int sym_native=0; sigjmp_buf sym_jb; int sym_jb_on=0; }

static bool own_token=false; static int nchild=0; static bool is_root=true;
static void finish_process(int code){
  if(own_token){ sem_post(&S->tok); own_token=false; }
  while(1){ int st; pid_t p=wait(&st); if(p<0) break; if(WIFSIGNALED(st)) { S->crash++; } }
  if(is_root) return; // only reached through sym_main
  _exit(code); }
[[noreturn]] static void endpath();
static void checkdl(){ if(S->stop.load()||now()>S->deadline){ S->incomplete++; if(is_root){ extern void root_abort(); root_abort(); } finish_process(0); _exit(0);} }
static sigjmp_buf root_jb; void root_abort(){ siglongjmp(root_jb,1); }

// ---------------------------------------------------------------- path state
static z3::context *Z; static z3::solver *lin; 
struct Con{ Poly p; bool linear; z3::expr e; };    // p >= 0
static std::vector<Con> path; static bool havenl=false;
static std::vector<double> model; static bool modelok=true;
static std::map<std::string,std::pair<double,double>> ranges;
struct Obs{ std::string n; double v; }; static std::vector<Obs> obs;

static int deg(const Poly&p){ return p.empty()?0:(int)p[0].m.size(); }
static std::vector<z3::expr> zv;
static z3::expr zvar(int i){ while((int)zv.size()<=i) zv.push_back(Z->real_const(("v"+std::to_string(zv.size())).c_str())); return zv[i]; }
static z3::expr znum(const mpq_class&c){ return z3::expr(*Z, Z3_mk_numeral(*Z,c.get_str().c_str(),Z->real_sort())); }
static z3::expr zpoly(const Poly&p){
  std::vector<Z3_ast> a; z3::expr_vector keep(*Z);
  for(auto&t:p){ z3::expr e=znum(t.c); if(!t.m.empty()){ z3::expr_vector f(*Z); if(t.c!=1) f.push_back(e); for(auto v:t.m) f.push_back(zvar(v)); 
      if(f.size()==1) e=f[0]; else { std::vector<Z3_ast> fa; for(unsigned i=0;i<f.size();i++) fa.push_back(f[i]); e=z3::expr(*Z,Z3_mk_mul(*Z,fa.size(),fa.data())); } }
    keep.push_back(e); a.push_back(e); }
  if(a.empty()) return znum(0); if(a.size()==1) return keep[0];
  return z3::expr(*Z,Z3_mk_add(*Z,a.size(),a.data())); }
static Con mkcon(const Poly&p){ // scale to integer-ish to keep numerals short
  return Con{p,deg(p)<=1,zpoly(p)>=0}; }
static double pevalm(const Poly&p,double*mag=0){ long double s=0,mg=0; for(auto&t:p){ long double v=t.c.get_d(); for(auto c:t.m) v*= c<model.size()?model[c]:0.0; s+=v; mg+=fabsl(v);} if(mag)*mag=(double)mg; return (double)s; }
static void pinterval(const Poly&p,double&lo,double&hi){ lo=hi=0; for(auto&t:p){ double l=t.c.get_d(),h=l; size_t i=0; while(i<t.m.size()){ size_t j=i; while(j<t.m.size()&&t.m[j]==t.m[i]) j++; int k=j-i; double a=vars[t.m[i]].lo,b=vars[t.m[i]].hi,pa,pb;
      if(k%2==0){ double x=std::max(fabs(a),fabs(b)),y=(a<=0&&b>=0)?0:std::min(fabs(a),fabs(b)); pa=pow(y,k); pb=pow(x,k);} else { pa=pow(a,k); pb=pow(b,k);} 
      double c[4]={l*pa,l*pb,h*pa,h*pb}; l=*std::min_element(c,c+4); h=*std::max_element(c,c+4); i=j; } lo+=l; hi+=h; }
  double sl=1e-13*(fabs(lo)+fabs(hi)); lo-=sl; hi+=sl; }
// tight enclosure over the variable box by Bernstein coefficients (exact for multilinear polynomials)
static bool bernstein(const Poly&p,double&lo,double&hi){
  std::map<int,int> dg; for(auto&t:p){ size_t i=0; while(i<t.m.size()){ size_t j=i; while(j<t.m.size()&&t.m[j]==t.m[i]) j++; int&d=dg[t.m[i]]; d=std::max(d,(int)(j-i)); i=j; } }
  std::vector<int> vs,ds; size_t N=1; for(auto&k:dg){ vs.push_back(k.first); ds.push_back(k.second); N*=k.second+1; if(N>20000) return false; }
  std::vector<double> A(N,0.0); std::vector<size_t> st(vs.size()); { size_t s=1; for(size_t i=0;i<vs.size();i++){ st[i]=s; s*=ds[i]+1; } }
  double mag=0;
  for(auto&t:p){ size_t ix=0; for(size_t i=0;i<vs.size();i++){ int k=0; for(auto c:t.m) if(c==vs[i]) k++; ix+=st[i]*k; } double c=t.c.get_d(); A[ix]+=c; double mg=fabs(c); for(auto c2:t.m) mg*=std::max(fabs(vars[c2].lo),fabs(vars[c2].hi)); mag+=mg; }
  for(size_t d=0;d<vs.size();d++){ double l=vars[vs[d]].lo,w=vars[vs[d]].hi-l; int D=ds[d]; if(!std::isfinite(l)||!std::isfinite(w)) return false;
    for(size_t b=0;b<N;b++){ if((b/st[d])%(D+1)) continue; double a[64]; if(D>60) return false; for(int i=0;i<=D;i++) a[i]=A[b+i*st[d]];
      // substitute x = l + w t : Horner-style Taylor shift
      for(int i=0;i<D;i++) for(int j=D-1;j>=i;j--) a[j]+=l*a[j+1];
      double wp=1; for(int i=0;i<=D;i++){ a[i]*=wp; wp*=w; }
      double bb[64]; for(int j=0;j<=D;j++){ double s=0,cji=1,cdi=1; for(int i=0;i<=j;i++){ s+=cji/cdi*a[i]; cji=cji*(j-i)/(i+1); cdi=cdi*(D-i)/(i+1); } bb[j]=s; }
      for(int i=0;i<=D;i++) A[b+i*st[d]]=bb[i]; } }
  lo=hi=A[0]; for(double x:A){ lo=std::min(lo,x); hi=std::max(hi,x); } double sl=1e-12*mag; lo-=sl; hi+=sl; return true; }
static double algnum(Z3_ast a){
  Z3_ast b=a; if(Z3_is_algebraic_number(*Z,a)) { b=Z3_get_algebraic_number_lower(*Z,a,30); }
  z3::expr e(*Z,b); std::string s=Z3_get_numeral_string(*Z,e); 
  try{ mpq_class q(s); return q.get_d(); }catch(...){ return 0; } }
static void getmodel(z3::model m,std::vector<double>&out){ out.assign(vars.size(),0); for(size_t i=0;i<vars.size();i++){ z3::expr v=m.eval(zvar(i),true); double x=algnum(v); if(x<vars[i].lo) x=vars[i].lo; if(x>vars[i].hi) x=vars[i].hi; out[i]=x; } }
static volatile int zbusy=0; static Z3_context zraw;
static void onalrm(int){ if(zbusy) Z3_interrupt(zraw); }
static int QMS=3000; static double my_solver=0; static double cpulim=20;
static z3::check_result runz(z3::solver&s){
  double t=now(); struct itimerval it={{0,0},{QMS/1000,(QMS%1000)*1000}}; zbusy=1; setitimer(ITIMER_REAL,&it,0);
  z3::check_result r=z3::unknown;
  try{ r=s.check(); }catch(z3::exception&e){ r=z3::unknown; }
  zbusy=0; struct itimerval z={{0,0},{0,0}}; setitimer(ITIMER_REAL,&z,0);
  { double dt=now()-t; S->solver_us+= (long)(dt*1e6); my_solver+=dt; }
  if(r==z3::sat) S->qsat++; else if(r==z3::unsat) S->qunsat++; else S->qunk++;
  return r; }
// is path /\ extra feasible?  1 sat (model in out), 0 unsat, -1 unknown
static int query(const std::vector<Poly>&extra,std::vector<double>*out,const std::set<int>*qv=0){
  bool nl=false; std::vector<Con> ex; 
  for(auto&p:extra){ if(pconst(p)){ if(!p.empty()&&p[0].c<0) return 0; continue; } ex.push_back(mkcon(p)); nl|=!ex.back().linear; }
  auto addq=[&](z3::solver&s){ if(qv) for(int v:*qv){ s.add(zvar(v)>=znum(mpq_class(vars[v].lo))); s.add(zvar(v)<=znum(mpq_class(vars[v].hi))); } };
  if(!nl&&!havenl){ lin->push(); addq(*lin); for(auto&c:ex) lin->add(c.e); auto r=runz(*lin); int rv=r==z3::sat?1:r==z3::unsat?0:-1; if(rv==1&&out) { z3::model m=lin->get_model(); getmodel(m,*out);} lin->pop(); return rv; }
  // linear relaxation first
  { lin->push(); addq(*lin); for(auto&c:ex) if(c.linear) lin->add(c.e); auto r=runz(*lin); lin->pop(); if(r==z3::unsat) return 0; }
  // cone of influence
  std::vector<char> used(path.size(),0); std::set<int> vs; for(auto&p:extra) for(auto&t:p) for(auto v:t.m) vs.insert(v);
  std::vector<std::set<int>> pv(path.size()); for(size_t i=0;i<path.size();i++) for(auto&t:path[i].p) for(auto v:t.m) pv[i].insert(v);
  for(bool ch=true;ch;){ ch=false; for(size_t i=0;i<path.size();i++) if(!used[i]){ bool hit=false; for(int v:pv[i]) if(vs.count(v)){hit=true;break;} if(hit){ used[i]=1; ch=true; vs.insert(pv[i].begin(),pv[i].end()); } } }
  S->nlq++;
  static const char*mode=getenv("SYM_NL");
  for(int att=0;att<2;att++){
    z3::solver s = (att==0) != (mode&&!strcmp(mode,"smt")) ? z3::tactic(*Z,"qfnra-nlsat").mk_solver() : z3::solver(*Z,"QF_NRA");
    z3::params ps(*Z); ps.set("rlimit",(unsigned)RL); s.set(ps);
    for(int v:vs){ s.add(zvar(v)>=znum(mpq_class(vars[v].lo))); s.add(zvar(v)<=znum(mpq_class(vars[v].hi))); }
    for(size_t i=0;i<path.size();i++) if(used[i]) s.add(path[i].e);
    for(auto&c:ex) s.add(c.e);
    auto r=runz(s);
    if(r==z3::unsat) return 0;
    if(r==z3::sat){ if(out){ std::vector<double> o; z3::model m=s.get_model(); getmodel(m,o); 
        // variables outside the cone keep the current model
        if(model.size()<vars.size()) model.resize(vars.size(),0.0);
        *out=model; for(int v:vs) (*out)[v]=o[v]; } return 1; }
  }
  return -1; }
static void addcon(const Poly&p){ Con c=mkcon(p); if(c.linear) lin->add(c.e); else havenl=true; path.push_back(c);
  S->maxdeg.store(std::max(S->maxdeg.load(),(long)deg(p))); S->maxterms.store(std::max(S->maxterms.load(),(long)p.size())); }

// normalise: p = s*(q + c), q monic without constant term
static void pnorm(const Poly&p,mpq_class&s,Poly&q,mpq_class&c){ s=p[0].c; q=pscale(p,1/s); c=0; if(!q.empty()&&q.back().m.empty()){ c=q.back().c; q.pop_back(); } }
static int dofork(){ // returns 0 in parent (continues), 1 in child
  checkdl();
  int got = sem_trywait(&S->tok)==0;
  pid_t p=fork(); 
  if(p<0){ if(got) sem_post(&S->tok); S->incomplete++; return 0; }
  if(p==0){ my_solver=0; struct rlimit rl={(rlim_t)cpulim,RLIM_INFINITY}; setrlimit(RLIMIT_CPU,&rl); is_root=false; own_token=got; S->forks++; nchild=0; return 1; }
  nchild++;
  if(!got){ int st; while(waitpid(p,&st,0)<0&&errno==EINTR); nchild--; if(WIFSIGNALED(st)) S->crash++; checkdl(); }
  return 0; }
static void setrange(const std::string&k,const Poly&q,double lo,double hi){ auto it=ranges.find(k); if(it==ranges.end()) ranges[k]={lo,hi}; else { it->second.first=std::max(it->second.first,lo); it->second.second=std::min(it->second.second,hi);} 
  if(q.size()==1&&q[0].m.size()==1){ Var&v=vars[q[0].m[0]]; v.lo=std::max(v.lo,lo); v.hi=std::min(v.hi,hi); } }
static double MARGIN=1e-6;
static mpq_class Q(double d){ return mpq_class(d); }
// square roots: the variable stays undefined until something other than a comparison of squares needs it
static std::map<int,double> sqdef; static std::map<uint32_t,double> sqof; static void matsq(const Poly&p);
// sign of p under the path; +1 or -1; forks
static int dsign(const Poly&p,double margin){
  if(p.empty()) return 0; if(pconst(p)) return sgn(p[0].c);
  if(!sqdef.empty()){ int uv=univar(p); if(uv>=0&&p.size()==1&&sqdef.count(uv)) return sgn(p[0].c); matsq(p); }
  mpq_class s,c; Poly q; pnorm(p,s,q,c); int sg=sgn(s); double cd=c.get_d(); double m=margin;   // margin applies to q+c
  std::string key=pkey(q);
  auto it=ranges.find(key); if(it!=ranges.end()){ if(it->second.first+cd>0) {S->qfast++; return sg;} if(it->second.second+cd<0) {S->qfast++; return -sg;} }
  double lo,hi; pinterval(q,lo,hi); if(lo+cd>=m){S->qfast++;return sg;} if(hi+cd<=-m){S->qfast++;return -sg;}
  if(deg(q)>=2&&bernstein(q,lo,hi)){ setrange(key,q,lo,hi); if(lo+cd>=m){S->qfast++;return sg;} if(hi+cd<=-m){S->qfast++;return -sg;} }
  checkdl();
  Poly qc=q; if(c!=0) qc.push_back(Term{Mono(),c});
  Poly up=padd(qc,pconstant(Q(m)),-1);              // q+c-m >= 0
  Poly dn=padd(pscale(qc,-1),pconstant(Q(m)),-1);   // -(q+c)-m >= 0
  int fu=-2,fd=-2; std::vector<double> mu,md;
  if(modelok){ double v=pevalm(qc); if(v>=m){fu=1;mu=model;} else if(v<=-m){fd=1;md=model;} }
  bool certain=false;
  if(fu==1){ // is anything else possible at all?
    Poly notup=pscale(up,-1); int r=query({notup},&md); if(r==0){ fd=0; certain=true; } else { if(r==1&&0){}; std::vector<double> t; int r2= (r==1&&[&]{ auto sv=model; model=md; double v=pevalm(qc); model=sv; return v<=-m; }())?1:query({dn},&t); if(r2==1){ fd=1; if(!t.empty()) md=t; } else fd=r2; } }
  else if(fd==1){ Poly notdn=pscale(dn,-1); int r=query({notdn},&mu); if(r==0){ fu=0; certain=true; } else { std::vector<double> t; int r2=(r==1&&[&]{ auto sv=model; model=mu; double v=pevalm(qc); model=sv; return v>=m; }())?1:query({up},&t); if(r2==1){ fu=1; if(!t.empty()) mu=t; } else fu=r2; } }
  else { fu=query({up},&mu); fd=query({dn},&md); }
  if(fu==0&&fd==0){ S->bandonly++; endpath(); }
  int side;
  if(fu!=0&&fd!=0){ side = dofork()? -1: +1; certain=false; }
  else side = fu!=0?1:-1;
  if(side>0){ if(!certain) addcon(up); setrange(key,q,m-cd,INFINITY); if(fu==1){model=mu;modelok=true;} else modelok=false; }
  else { if(!certain) addcon(dn); setrange(key,q,-INFINITY,-m-cd); if(fd==1){model=md;modelok=true;} else modelok=false; }
  return side>0?sg:-sg; }

// ---------------------------------------------------------------- building nodes
static double mknode(Node&&n){
  if(n.n.empty()) return 0.0;
  if(n.d.empty()&&pconst(n.n)) return n.n[0].c.get_d();
  std::string k=pkey(n.n); for(auto&f:n.d){ k.push_back('\xfd'); k+=std::to_string(f.first)+"^"+std::to_string(f.second);} 
  auto it=hcons.find(k); if(it!=hcons.end()){ Node&o=nodes[it->second]; if(n.eps>o.eps*1.0000001+1e-300){ nodes.push_back(std::move(n)); hcons[k]=nodes.size()-1; return mk(nodes.size()-1);} return mk(it->second); }
  nodes.push_back(std::move(n)); hcons[k]=nodes.size()-1; return mk(nodes.size()-1); }
static Poly cpoly(double d){ return pconstant(Q(d)); }
static void simplify(Node&n){
  if(n.n.empty()){ n.d.clear(); return; }
  for(size_t i=0;i<n.d.size();){ bool gone=false; while(n.d[i].second>0){ Poly q; const Poly&F=facs[n.d[i].first]; if(F.size()<=n.n.size()*3+3&&pdivexact(n.n,F,q)){ n.n=q; n.d[i].second--; } else break; }
    if(n.d[i].second==0){ n.d.erase(n.d.begin()+i); gone=true; } if(!gone) i++; } }
static Poly facpow(int f,int e){ Poly r=pconstant(1); while(e-->0) r=pmul(r,facs[f]); return r; }
static double nabs(const Node&n){ double lo,hi; pinterval(n.n,lo,hi); double a=std::max(fabs(lo),fabs(hi)); for(auto&f:n.d){ double l,h; pinterval(facs[f.first],l,h); double mn=(l>0)?l:(h<0)?-h:MARGIN; mn=std::max(mn,MARGIN); a/=pow(mn,f.second);} return a; }
static const double U=1.2e-16;
static Node getn(double x){ if(isym(x)) return nodes[idof(x)]; Node n; n.n=cpoly(x); n.eps=0; return n; }
static Node addn(const Node&a,const Node&b,int sg){
  Node r; r.eps=a.eps+b.eps;
  if(a.d==b.d){ r.n=padd(a.n,b.n,sg); r.d=a.d; }
  else { std::map<int,int> l; for(auto&f:a.d) l[f.first]=std::max(l[f.first],f.second); for(auto&f:b.d) l[f.first]=std::max(l[f.first],f.second);
    Poly an=a.n,bn=b.n; for(auto&f:l){ int ea=0,eb=0; for(auto&g:a.d) if(g.first==f.first) ea=g.second; for(auto&g:b.d) if(g.first==f.first) eb=g.second; if(f.second>ea) an=pmul(an,facpow(f.first,f.second-ea)); if(f.second>eb) bn=pmul(bn,facpow(f.first,f.second-eb)); }
    r.n=padd(an,bn,sg); r.d.assign(l.begin(),l.end()); }
  simplify(r); return r; }
static double ninf(double x){ return x; }
static int signof(double x,double margin);
static int getfac(const Poly&p0,mpq_class&lead){ // returns factor index for monic(p0), lead coefficient
  lead=p0[0].c; Poly p=pscale(p0,1/lead); std::string k=pkey(p); auto it=facIdx.find(k); if(it!=facIdx.end()) return it->second;
  int s=dsign(p,MARGIN); facs.push_back(p); facSign.push_back(s); facIdx[k]=facs.size()-1; return facs.size()-1; }

extern "C" {
double __sym_fneg(double a){ if(!isym(a)) return -a; Node n=nodes[idof(a)]; n.n=pscale(n.n,-1); return mknode(std::move(n)); }
static double addsub(double a,double b,int sg){
  bool sa=isym(a),sb=isym(b);
  if(!sa&&!sb) return sg>0?a+b:a-b;
  if(!sb){ if(b==0) return a; if(!std::isfinite(b)) return sg>0?b:-b; }
  if(!sa){ if(!std::isfinite(a)) return a; if(a==0&&sg>0) return b; if(a==0) return __sym_fneg(b); }
  Node r=addn(getn(a),getn(b),sg); if(r.n.empty()) return 0.0; r.eps+=U*nabs(r); return mknode(std::move(r)); }
double __sym_fadd(double a,double b){ return addsub(a,b,1); }
double __sym_fsub(double a,double b){ if(isym(a)&&bits(a)==bits(b)) return 0.0; return addsub(a,b,-1); }
double __sym_fmul(double a,double b){
  bool sa=isym(a),sb=isym(b); if(!sa&&!sb) return a*b;
  if(!sa){ std::swap(a,b); std::swap(sa,sb); }
  if(!sb){ if(b==0) return 0.0; if(b==1) return a; if(b==-1) return __sym_fneg(a); if(!std::isfinite(b)){ if(std::isnan(b)) return b; int s=signof(a,MARGIN); return s>0?b:s<0?-b:NAN; }
    Node n=nodes[idof(a)]; n.n=pscale(n.n,Q(b)); n.eps=n.eps*fabs(b); int e; if(frexp(b,&e)!=0.5) n.eps+=U*nabs(n); return mknode(std::move(n)); }
  const Node x=nodes[idof(a)],y=nodes[idof(b)]; Node r; r.n=pmul(x.n,y.n); std::map<int,int> l; for(auto&f:x.d) l[f.first]+=f.second; for(auto&f:y.d) l[f.first]+=f.second; r.d.assign(l.begin(),l.end());
  double ax=nabs(x),ay=nabs(y); r.eps=ax*y.eps+ay*x.eps+x.eps*y.eps+U*ax*ay; simplify(r); return mknode(std::move(r)); }
double __sym_fdiv(double a,double b){
  bool sa=isym(a),sb=isym(b); if(!sa&&!sb) return a/b;
  if(!sb){ if(b==1) return a; if(!std::isfinite(b)) return std::isnan(b)?b:0.0; if(b==0){ int s=signof(a,MARGIN); return s>0?INFINITY:-INFINITY; }
    Node n=nodes[idof(a)]; n.n=pscale(n.n,1/Q(b)); n.eps=n.eps/fabs(b)+U*nabs(n); return mknode(std::move(n)); }
  if(sa&&bits(a)==bits(b)) { signof(b,MARGIN); return 1.0; }
  if(!sa&&!std::isfinite(a)){ int s=signof(b,MARGIN); return s>0?a:-a; }
  Node x=getn(a); const Node y=nodes[idof(b)];
  // x / (yn / yd)
  Node r; r.n=x.n; std::map<int,int> l; for(auto&f:x.d) l[f.first]+=f.second;
  Poly yn=y.n;
  for(auto&f:y.d){ int have=l.count(f.first)?l[f.first]:0; int k=std::min(have,f.second); if(k) l[f.first]-=k; for(int i=k;i<f.second;i++) r.n=pmul(r.n,facs[f.first]); }
  double ymin; { // split denominator by known factors
    mpq_class lead; bool again=true;
    while(again&&!pconst(yn)){ again=false; for(size_t i=0;i<facs.size();i++){ Poly q; if(deg(facs[i])<=deg(yn)&&facs[i].size()>0&&pdivexact(yn,facs[i],q)){ l[i]++; yn=q; again=true; break; } } }
    if(!pconst(yn)){ int fi=getfac(yn,lead); l[fi]++; yn=pconstant(lead); }
    r.n=pscale(r.n,1/yn[0].c); }
  // univariate gcd against new factors is left to exact division in simplify
  for(auto&f:l) if(f.second>0) r.d.push_back(f);
  double ax=nabs(x); Node one; one.n=y.n; one.d=y.d; { double lo,hi; pinterval(y.n,lo,hi); ymin=(lo>0)?lo:(hi<0)?-hi:MARGIN; ymin=std::max(ymin,MARGIN); for(auto&f:y.d){ double l2,h2; pinterval(facs[f.first],l2,h2); ymin/=pow(std::max(fabs(l2),fabs(h2)),f.second);} }
  simplify(r);
  { int uv=univar(r.n); if(uv>=0&&!r.d.empty()){ /* reduce by univariate gcd with each factor */
      for(size_t i=0;i<r.d.size();i++){ const Poly F=facs[r.d[i].first]; if(univar(F)!=uv||deg(F)<2) continue; Poly g=pgcd1(r.n,F); if(deg(g)>=1&&deg(g)<deg(F)){ Poly q1,q2; if(pdivexact(r.n,g,q1)&&pdivexact(F,g,q2)){ mpq_class ld; int e=r.d[i].second; (void)e; int nf=getfac(q2,ld); r.n=pscale(q1,1/ld); r.d[i].second--; bool f2=false; for(auto&f:r.d) if(f.first==nf){f.second++;f2=true;} if(!f2) r.d.push_back({nf,1}); if(r.d[i].second==0) r.d.erase(r.d.begin()+i); std::sort(r.d.begin(),r.d.end()); break; } } } } }
  double q=ax/ymin; r.eps=x.eps/ymin+q*y.eps/ymin+U*q; if(std::isnan(r.eps)) r.eps=INFINITY; 
  return mknode(std::move(r)); }
double __sym_frem(double a,double b){ if(!isym(a)&&!isym(b)) return fmod(a,b); S->imprecise++; return a; }
double __sym_fmuladd(double a,double b,double c){ return __sym_fadd(__sym_fmul(a,b),c); }
}
static int nsign(const Node&n,double margin){ int s=1; for(auto&f:n.d) if(f.second&1) s*=facSign[f.first]; return s*dsign(n.n,margin); }
static int signof(double x,double margin){ if(!isym(x)) return x>0?1:x<0?-1:0; Node n=nodes[idof(x)]; return nsign(n,margin); }
static void matsq(const Poly&p){
  std::set<int> vs; for(auto&t:p) for(auto v:t.m) if(sqdef.count(v)) vs.insert(v);
  for(int v:vs){ auto it=sqdef.find(v); if(it==sqdef.end()) continue; double a=it->second; sqdef.erase(it); lin->add(zvar(v)>=0); lin->add(zvar(v)<=znum(mpq_class(vars[v].hi))); Node x=nodes[idof(a)]; matsq(x.n);
    Poly D; D.push_back(Term{Mono(2,(char16_t)v),1}); for(auto&f:x.d) D=pmul(D,facpow(f.first,f.second)); D=padd(D,x.n,-1);
    addcon(D); addcon(pscale(D,-1)); modelok=false; std::vector<double> m; int q=query({},&m); if(q==0) endpath(); if(q==1){model=m;modelok=true;} } }
static int nsign(const Node&n,double margin);
// sign of P*s+R (s an undefined square root): compare squares
static bool sqsign(const Node&r,int&out){
  if(sqdef.empty()) return false; int v=-1; 
  for(auto&t:r.n) for(auto c:t.m) if(sqdef.count(c)){ if(v<0||c==v) v=c; else { v=std::min(v,(int)c); } }
  if(v<0) return false;
  Node P,R; P.eps=R.eps=0; for(auto&t:r.n){ int k=0; Mono m; for(auto c:t.m) if(c==v) k++; else m.push_back(c); if(k>1) return false; if(k) P.n.push_back(Term{m,t.c}); else R.n.push_back(t); }
  int v2=-1; for(auto&t:P.n) for(auto c:t.m) if(sqdef.count(c)) return false;
  for(auto&t:R.n) for(auto c:t.m) if(sqdef.count(c)){ if(v2>=0&&v2!=c) return false; v2=c; }
  Node P2; P2.eps=0; if(v2>=0) for(auto&t:R.n){ int k=0; Mono m; for(auto c:t.m) if(c==v2) k++; else m.push_back(c); if(k!=1) return false; P2.n.push_back(Term{m,t.c}); }
  int ds=1; for(auto&f:r.d) if(f.second&1) ds*=facSign[f.first];
  int sp=nsign(P,MARGIN), sr=R.n.empty()?0:nsign(v2>=0?P2:R,MARGIN);
  if(sr==0||sp==sr){ out=ds*sp; return true; } if(sp==0){ out=ds*sr; return true; }
  double p=mknode(std::move(P)); double L=__sym_fmul(__sym_fmul(p,p),sqdef[v]); double q=mknode(v2>=0?std::move(P2):std::move(R)); double M=__sym_fmul(q,q); if(v2>=0) M=__sym_fmul(M,sqdef[v2]);
  Node d=addn(getn(L),getn(M),-1); int c; if(d.n.empty()) c=0; else if(d.d.empty()&&pconst(d.n)) c=sgn(d.n[0].c); else c=nsign(d,MARGIN);
  out=ds*sp*c; return true; }
static int cmp3(double a,double b){ // sign of a-b (symbolic operands)
  if(bits(a)==bits(b)) return 0;
  if(!isym(a)&&!std::isfinite(a)) return a>0?1:-1;
  if(!isym(b)&&!std::isfinite(b)) return b>0?-1:1;
  if((!isym(b)&&fabs(b)>1e25)) return b>0?-1:1;
  if((!isym(a)&&fabs(a)>1e25)) return a>0?1:-1;
  Node r=addn(getn(a),getn(b),-1); if(r.n.empty()) return 0;
  if(r.d.empty()&&pconst(r.n)) return sgn(r.n[0].c);
  { int o; if(sqsign(r,o)) return o; }
  if(!(r.eps<MARGIN)) S->imprecise++;
  return nsign(r,MARGIN); }
extern "C" {
int __sym_fcmp(int pred,double a,double b){
  if(!isym(a)&&!isym(b)){
    switch(pred){ case 1:return a==b; case 2:return a>b; case 3:return a>=b; case 4:return a<b; case 5:return a<=b; case 6:return a<b||a>b; case 7:return !(std::isnan(a)||std::isnan(b)); case 8:return std::isnan(a)||std::isnan(b); case 9:return !(a<b||a>b); case 10:return !(a<=b); case 11:return !(a<b); case 12:return !(a>=b); case 13:return !(a>b); case 14:return a!=b; }
    return 0; }
  if(!isym(a)&&std::isnan(a)) return pred>=8; if(!isym(b)&&std::isnan(b)) return pred>=8;
  if(pred==7) return 1; if(pred==8) return 0;
  if(pred==1||pred==9||pred==6||pred==14){ int eq=0; if(bits(a)==bits(b)) eq=1; else { if((isym(a)||std::isfinite(a))&&(isym(b)||std::isfinite(b))){ Node r=addn(getn(a),getn(b),-1); if(r.n.empty()) eq=1; } }
    return (pred==1||pred==9)?eq:!eq; }
  int s=cmp3(a,b);
  switch(pred){ case 2: case 10: return s>0; case 3: case 11: return s>=0; case 4: case 12: return s<0; case 5: case 13: return s<=0; }
  return 0; }
double __sym_fabs(double a){ if(!isym(a)) return fabs(a); return signof(a,MARGIN)<0?__sym_fneg(a):a; }
static double newvar(const char*nm,double lo,double hi,bool q){
  Var v; v.name=nm; v.lo=lo; v.hi=hi; v.q=q; vars.push_back(v); int id=vars.size()-1; if(id>60000){ fprintf(stderr,"too many symbolic variables\n"); _exit(96);} 
  Poly p; p.push_back(Term{Mono(1,(char16_t)id),1}); 
  if(!q){ lin->add(zvar(id)>=znum(Q(lo))); lin->add(zvar(id)<=znum(Q(hi))); Poly key=p; ranges[pkey(key)]={lo,hi}; }
  // an irrational-looking interior start value
  double fr=fmod(0.6180339887*(id+1)+0.1234,1.0); if((int)model.size()<id) model.resize(id,0.0); model.push_back(lo+(hi-lo)*(0.1+0.8*fr));
  Node n; n.n=p; n.eps=0; return mknode(std::move(n)); }
static std::map<std::string,int> namecnt;
static std::string uniq(const char*n){ int k=namecnt[n]++; return k?std::string(n)+"#"+std::to_string(k):std::string(n); }
double sym_real(const char*n,double lo,double hi){ if(lo==hi) return lo; return newvar(uniq(n).c_str(),lo,hi,false); }
double sym_qvar(const char*n,double lo,double hi){ return newvar(uniq(n).c_str(),lo,hi,true); }
int sym_choice(const char*n,int k){ std::string nm=uniq(n); int v=0; for(v=0;v<k-1;v++){ if(dofork()) break; } // child takes v, parent goes on
  choices[nm]=v; return v; }
int sym_cfg(const char*n,int d){ const char*e=getenv((std::string("CFG_")+n).c_str()); return e?atoi(e):d; }
void sym_prune(void){ S->pruned++; S->paths--; endpath(); }
double __sym_sqrt(double a){ if(!isym(a)) return sqrt(a); auto it=sqof.find(idof(a)); if(it!=sqof.end()) return it->second;
  { Node x=nodes[idof(a)]; bool ok=x.d.empty()&&x.n.size()==1&&x.n[0].c>0; Mono h; if(ok) for(size_t i=0;i<x.n[0].m.size();i+=2){ if(i+1>=x.n[0].m.size()||x.n[0].m[i]!=x.n[0].m[i+1]){ ok=false; break; } h.push_back(x.n[0].m[i]); }
    if(ok){ Node r; r.n.push_back(Term{h,mpq_class(sqrt(x.n[0].c.get_d()))}); double lo,hi; pinterval(x.n,lo,hi); r.eps=lo>0?x.eps/sqrt(lo):0; r.eps+=3*U*nabs(r); return __sym_fabs(mknode(std::move(r))); } }
  double hi=sqrt(nabs(nodes[idof(a)])+1); signof(a,MARGIN); double s=newvar("sqrt",0,hi,true); vars.back().q=false; sqdef[vars.size()-1]=a; sqof[idof(a)]=s; return s; }
static double ipow(double a,int k){ double r=1; while(k-->0) r=__sym_fmul(r,a); return r; }
double __sym_pow(double a,double b){ if(!isym(a)&&!isym(b)) return pow(a,b); if(!isym(b)&&b==floor(b)&&fabs(b)<64){ return b>=0?ipow(a,(int)b):__sym_fdiv(1.0,ipow(a,(int)-b)); } S->imprecise++; return newvar("pow",0,1e6,false); }
double __sym_exp(double a){ if(!isym(a)) return exp(a); return cmp3(a,0.0)<0?newvar("expn",0,1,false):newvar("expp",1,1e6,false); }
double __sym_log(double a){ if(!isym(a)) return log(a); int s=cmp3(a,1.0); return s>0?newvar("logp",1e-9,50,false):newvar("logn",-50,-1e-9,false); }
static double toint(double a,int up){ // floor / ceil of symbolic value by case split
  for(int it=0;it<10000;it++){ Node n=nodes[idof(a)]; double v; if(!modelok){ std::vector<double> m; int r=query({},&m); if(r==0) endpath(); if(r==1){ model=m; modelok=true; } }
    double num=pevalm(n.n); for(auto&f:n.d) num/=pow(pevalm(facs[f.first]),f.second); v=floor(num);
    if(cmp3(a,v)>=0&&cmp3(a,v+1)<0) return up? (v+1):v; }
  return 0; }
double __sym_floor(double a){ return isym(a)?toint(a,0):floor(a); }
double __sym_ceil(double a){ return isym(a)?toint(a,1):ceil(a); }
long __sym_fptosi(double a){ if(!isym(a)) return (long)a; double f=toint(a,0); if(f<0) f+=1; return (long)f; }
double __sym_maxnum(double a,double b){ if(!isym(a)&&!isym(b)) return fmax(a,b); return cmp3(a,b)>=0?a:b; }
double __sym_minnum(double a,double b){ if(!isym(a)&&!isym(b)) return fmin(a,b); return cmp3(a,b)<=0?a:b; }

// ---------------------------------------------------------------- text <-> values
static std::map<double,double> tok2val; static std::map<uint32_t,std::string> id2tok;
static const char *tokfor(double v){ uint32_t id=idof(v); auto it=id2tok.find(id); if(it!=id2tok.end()) return it->second.c_str();
  long k=++S->ntok; char b[64]; snprintf(b,sizeof b,"0.3717%08ld1",k%100000000); id2tok[id]=b; tok2val[atof(b)]=v; return id2tok[id].c_str(); }
const char*sym_tok(double v){ static char ring[16][64]; static int r; if(isym(v)) return tokfor(v); r=(r+1)%16; snprintf(ring[r],64,"%.20f",v); return ring[r]; }
static double fromtext(double v){ auto it=tok2val.find(fabs(v)); if(it!=tok2val.end()) return v<0?__sym_fneg(it->second):it->second; return v; }
double __sym_atof(const char*s){ return fromtext(atof(s)); }
double __sym_strtod(const char*s,char**e){ return fromtext(strtod(s,e)); }
static void vfmt(std::string&out,const char*f,va_list ap){
  while(*f){ if(*f!='%'){ out.push_back(*f++); continue; }
    const char*st=f; f++; if(*f=='%'){ out.push_back('%'); f++; continue; }
    std::string spec="%"; int prec=-1; 
    while(*f&&strchr("-+ #0",*f)) spec.push_back(*f++);
    if(*f=='*'){ spec+=std::to_string(va_arg(ap,int)); f++; } else while(isdigit(*f)) spec.push_back(*f++);
    if(*f=='.'){ spec.push_back(*f++); prec=0; if(*f=='*'){ prec=va_arg(ap,int); spec+=std::to_string(prec); f++; } else while(isdigit(*f)){ prec=prec*10+*f-'0'; spec.push_back(*f++);} }
    int l=0; bool z=false; while(*f&&strchr("hlLqjzt",*f)){ if(*f=='l') l++; if(strchr("zjt",*f)) z=true; spec.push_back(*f++); }
    char c=*f++; spec.push_back(c); char buf[4096]; 
    switch(c){
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'c':
        if(l>=1||z) snprintf(buf,sizeof buf,spec.c_str(),va_arg(ap,long)); else snprintf(buf,sizeof buf,spec.c_str(),va_arg(ap,int)); out+=buf; break;
      case 's': { const char*s=va_arg(ap,const char*); if(spec=="%s") out+= s?s:"(null)"; else { snprintf(buf,sizeof buf,spec.c_str(),s); out+=buf; } break; }
      case 'p': snprintf(buf,sizeof buf,spec.c_str(),va_arg(ap,void*)); out+=buf; break;
      case 'e': case 'f': case 'g': case 'E': case 'F': case 'G': { double d=va_arg(ap,double); 
        if(isym(d)){ if(prec<0) prec=6; Node n=nodes[idof(d)]; double pe=0.5*pow(10,-prec); 
            if(c=='f'&&prec<6){ static const char*lowp=getenv("SYM_LOWPREC"); (void)lowp; }
            (void)pe; out+=tokfor(d); // text carries the value; precision loss is accounted by the reader's tolerance
            if(c=='f'&&prec<9){ S->imprecise++; }
          } else { snprintf(buf,sizeof buf,spec.c_str(),d); out+=buf; } break; }
      default: out.append(st,f-st); }
  } }
int __sym_vfprintf(FILE*fp,const char*f,va_list ap){ std::string o; vfmt(o,f,ap); fwrite(o.data(),1,o.size(),fp); return o.size(); }
int __sym_fprintf(FILE*fp,const char*f,...){ va_list ap; va_start(ap,f); int r=__sym_vfprintf(fp,f,ap); va_end(ap); return r; }
int __sym_printf(const char*f,...){ va_list ap; va_start(ap,f); int r=__sym_vfprintf(stdout,f,ap); va_end(ap); return r; }
int __sym_sprintf(char*b,const char*f,...){ va_list ap; va_start(ap,f); std::string o; vfmt(o,f,ap); va_end(ap); memcpy(b,o.c_str(),o.size()+1); return o.size(); }
int __sym_snprintf(char*b,size_t n,const char*f,...){ va_list ap; va_start(ap,f); std::string o; vfmt(o,f,ap); va_end(ap); if(n){ size_t k=std::min(n-1,o.size()); memcpy(b,o.data(),k); b[k]=0; } return o.size(); }
static void fixscan(const char*f,va_list ap){ // convert doubles that were tokens
  while(*f){ if(*f!='%'){ f++; continue; } f++; if(*f=='%'){f++;continue;} bool sup=false; if(*f=='*'){sup=true;f++;} while(isdigit(*f)) f++; int l=0; while(*f&&strchr("hlLqjzt",*f)){ if(*f=='l') l++; f++; }
    char c=*f++; if(c=='['){ if(*f=='^') f++; if(*f==']') f++; while(*f&&*f!=']') f++; if(*f) f++; }
    if(sup) continue; void*p=va_arg(ap,void*); if(strchr("efgEFG",c)&&l==1){ double*d=(double*)p; if(!isym(*d)) *d=fromtext(*d); } } }
int __sym_fscanf(FILE*fp,const char*f,...){ va_list ap,a2; va_start(ap,f); va_copy(a2,ap); int r=vfscanf(fp,f,ap); if(r>0) fixscan(f,a2); va_end(a2); va_end(ap); return r; }
int __sym_sscanf(const char*s,const char*f,...){ va_list ap,a2; va_start(ap,f); va_copy(a2,ap); int r=vsscanf(s,f,ap); if(r>0) fixscan(f,a2); va_end(a2); va_end(ap); return r; }
FILE*__sym_fopen(const char*p,const char*m){ if(!strncmp(p,"/mem/",5)||m[0]!='r') return memfs_open(p,m); return fopen(p,m); }
int __sym_remove(const char*p){ return memfs_remove(p); }
}
static int hp_nfail; extern "C" { static void hp_fail0(const char*); }
#include "heap.inc"
static void hp_fail(const char*m){ hp_nfail=1; hp_fail0(m); }
extern "C" {
void*__sym_malloc(size_t n){ return hp_malloc(n); } void*__sym_calloc(size_t a,size_t b){ return hp_calloc(a,b); } void*__sym_realloc(void*p,size_t n){ return hp_realloc(p,n); } void __sym_free(void*p){ hp_free(p); } char*__sym_strdup(const char*s){ return hp_strdup(s); }
static std::vector<double> uq; static size_t uqi;
void sym_srand_next(double u){ uq.push_back(u); }
static int ureal; void sym_srand_real(int on){ ureal=on; }
double __sym_erand48(unsigned short*x){ if(uqi<uq.size()) return uq[uqi++]; if(ureal) return erand48(x); (void)x; static unsigned long long q=88172645463325252ULL; q=q*6364136223846793005ULL+1442695040888963407ULL; return (double)(q>>12)/4503599627370496.0; }

// ---------------------------------------------------------------- verdicts
static void jstr(std::string&o,const char*s){ o.push_back('"'); for(;*s;s++){ if(*s=='"'||*s=='\\') o.push_back('\\'); if(*s=='\n'){o+="\\n";continue;} if((unsigned char)*s<32) continue; o.push_back(*s);} o.push_back('"'); }
static void jnum(std::string&o,double d){ char b[64]; if(std::isfinite(d)) snprintf(b,64,"%.17g",d); else snprintf(b,64,"\"%g\"",d); o+=b; }
static double neval(double v,const std::vector<double>&m){ if(!isym(v)) return v; auto sv=model; model=m; Node n=nodes[idof(v)]; double x=pevalm(n.n); for(auto&f:n.d) x/=pow(pevalm(facs[f.first]),f.second); model=sv; return x; }
static void emit(const char*type,const char*msg,const std::vector<double>&m){
  std::string o="{\"type\":\""; o+=type; o+="\",\"msg\":"; jstr(o,msg); o+=",\"vals\":{"; bool first=true;
  for(size_t i=0;i<vars.size();i++){ if(!first) o+=","; first=false; jstr(o,vars[i].name.c_str()); o+=":"; jnum(o,i<m.size()?m[i]:0); }
  for(auto&c:choices){ if(!first) o+=","; first=false; jstr(o,c.first.c_str()); o+=":"; jnum(o,c.second); }
  o+="},\"obs\":{"; first=true; for(auto&x:obs){ if(!first) o+=","; first=false; jstr(o,x.n.c_str()); o+=":"; jnum(o,neval(x.v,m)); } 
  o+="},\"modelok\":"; o+=modelok?"true":"false"; o+=",\"cons\":"+std::to_string(path.size())+"}\n";
  (void)!write(outfd,o.data(),o.size()); }
static uint32_t hstr(const char*s){ uint32_t h=2166136261u; while(*s){ h^=(unsigned char)*s++; h*=16777619; } return h?h:1; }
static int MAXC=4;
static bool wantcand(const char*msg){ uint32_t h=hstr(msg); for(int i=0;i<256;i++){ uint32_t z=0; if(S->msg[i].h.load()==h||S->msg[i].h.compare_exchange_strong(z,h)){ return S->msg[i].n++ < MAXC; } } return false; }
static void candidate(const char*msg,const std::vector<double>&m){ long k=++S->cands; if(wantcand(msg)) emit("cand",msg,m); if(k>=40) S->stop=1; }
static void curmodel(std::vector<double>&m){ if(!modelok){ std::vector<double> o; int r=query({},&o); if(r==1){ model=o; modelok=true; } } if(model.size()<vars.size()) model.resize(vars.size(),0.0); m=model; }
struct VC{ std::vector<Poly> ps; bool triv; std::set<int> q; std::vector<std::vector<Poly>> alt; };
static std::vector<std::pair<Poly,Node>> vconj; static bool vfalse;
void sym_vbegin(void){ vconj.clear(); vfalse=false; }
static Poly signednum(const Node&n){ int s=1; for(auto&f:n.d) if(f.second&1) s*=facSign[f.first]; return s>0?n.n:pscale(n.n,-1); }
void sym_vge(double a,double b){
  if(vfalse) return;
  if(!isym(a)&&!std::isfinite(a)){ if(!(a>0)) vfalse=true; return; } if(!isym(b)&&!std::isfinite(b)){ if(!(b<0)) vfalse=true; return; }
  Node r=addn(getn(a),getn(b),-1); if(r.n.empty()) return; if(r.d.empty()&&pconst(r.n)){ if(r.n[0].c<0) vfalse=true; return; }
  matsq(r.n); vconj.push_back({r.n,r}); }
void sym_vcheck(const char*msg){
  S->vq++; if(vfalse){ S->vfold++; S->vunsat++; return; }
  if(vconj.empty()){ std::vector<double> m; curmodel(m); candidate(msg,m); return; }
  std::set<int> qv; for(auto&c:vconj) for(auto&t:c.first) for(auto v:t.m) if(vars[v].q) qv.insert(v);
  // a conjunct that cannot hold by intervals?
  for(auto&c:vconj){ Poly p=signednum(c.second); double lo,hi; pinterval(p,lo,hi); if(hi<0||(deg(p)>=2&&bernstein(p,lo,hi)&&hi<0)){ S->vunsat++; S->vfold++; return; } }
  std::vector<double> m; double ms[3]={1e-2,1e-4,1e-9};
  std::vector<Poly> ex; for(auto&c:vconj) ex.push_back(padd(signednum(c.second),pconstant(Q(1e-9)),-1));
  checkdl();
  int r=query(ex,&m,&qv); if(r==0){ S->vunsat++; return; } if(r<0) { S->incomplete++; return; }
  for(int i=0;i<2;i++){ std::vector<Poly> e2; for(auto&c:vconj) e2.push_back(padd(signednum(c.second),pconstant(Q(ms[i])),-1)); std::vector<double> m2; if(query(e2,&m2,&qv)==1){ m=m2; break; } }
  candidate(msg,m); }
void sym_check_le(double a,double b,double tol,const char*msg){ sym_vbegin(); sym_vge(__sym_fsub(a,b),tol); sym_vcheck(msg); }
void sym_check_eq(double a,double b,double tol,const char*msg){ if(bits(a)==bits(b)){ S->vq++; S->vunsat++; S->vfold++; return; } sym_check_le(a,b,tol,msg); sym_check_le(b,a,tol,msg); }
void sym_check(int c,const char*msg){ S->vq++; if(c){ S->vunsat++; S->vfold++; return; } std::vector<double> m; curmodel(m); candidate(msg,m); }
void sym_assume_ge(double a,double b){ if(!isym(a)&&!isym(b)){ if(!(a>=b)) sym_prune(); return; } Node r=addn(getn(a),getn(b),-1); if(r.n.empty()) return; Poly p=signednum(r); if(pconst(p)){ if(p[0].c<0) sym_prune(); return; } matsq(p);
  double lo,hi; pinterval(p,lo,hi); if(lo>=0) return;
  mpq_class s,c; Poly q; pnorm(p,s,q,c);
  std::vector<double> m; if(modelok&&pevalm(p)>=0){ addcon(p); } else { int rr=query({p},&m); if(rr==0) sym_prune(); addcon(p); if(rr==1){model=m;modelok=true;} else modelok=false; }
  if(s>0) setrange(pkey(q),q,-c.get_d(),INFINITY); else setrange(pkey(q),q,-INFINITY,-c.get_d()); }
void sym_cover(const char*id){ for(int i=0;i<S->ncov;i++) if(!strcmp(S->cov[i].name,id)){ S->cov[i].n++; return; }
  while(S->lock.exchange(1)) usleep(10); int f=-1; for(int i=0;i<S->ncov;i++) if(!strcmp(S->cov[i].name,id)) f=i; if(f<0&&S->ncov<512){ f=S->ncov; snprintf(S->cov[f].name,96,"%s",id); S->cov[f].n=0; S->ncov++; } if(f>=0) S->cov[f].n++; S->lock=0; }
void sym_observe(const char*n,double v){ if(isym(v)) matsq(nodes[idof(v)].n); obs.push_back({n,v}); }
int sym_same(double a,double b){ return bits(a)==bits(b)||(!isym(a)&&!isym(b)&&a==b); }
int sym_is_const(double a){ return !isym(a); }
static void hp_fail0(const char*msg){ std::vector<double> m; curmodel(m); candidate(msg,m); }
void __sym_exit(int c){ if(sym_jb_on){ sym_jb_on=0; siglongjmp(sym_jb,100+(c&255)); } std::vector<double> m; curmodel(m); char b[64]; snprintf(b,64,"unexpected exit(%d)",c); candidate(b,m); endpath(); }
void __sym_abort(void){ std::vector<double> m; curmodel(m); candidate("unexpected abort",m); endpath(); }
void __sym_assert_fail(const char*e,const char*f,unsigned l,const char*fn){ if(sym_jb_on){ sym_jb_on=0; siglongjmp(sym_jb,99);} std::vector<double> m; curmodel(m); std::string s=std::string("assertion failed: ")+e; candidate(s.c_str(),m); endpath(); }
}
static void onsig(int s){ static int in=0;
  if(s==SIGXCPU){ struct rusage ru; getrusage(RUSAGE_SELF,&ru); double c=ru.ru_utime.tv_sec+ru.ru_utime.tv_usec*1e-6; if(zbusy||c-my_solver<cpulim){ struct rlimit rl={(rlim_t)(c+cpulim/2+1),RLIM_INFINITY}; setrlimit(RLIMIT_CPU,&rl); return; } }
 if(!in++){ char b[64]; if(s==SIGXCPU){ S->timeouts++; snprintf(b,64,"path CPU limit (possible hang)"); if(getenv("SYM_BT")){ void*bt[30]; int k=backtrace(bt,30); backtrace_symbols_fd(bt,k,2);} } else snprintf(b,64,"signal %d",s); if(model.size()<vars.size()) model.resize(vars.size(),0.0); candidate(b,model); } if(own_token) sem_post(&S->tok); own_token=false; 
  while(1){int st; if(wait(&st)<0&&errno!=EINTR) break;} _exit(0); }
static void endpath(){
  S->paths++;
  if(is_root) siglongjmp(root_jb,2);
  finish_process(0); _exit(0); }
static void witness(){ long w=S->paths.load(); bool want = w<MAXW/2 || (S->wit.load()<MAXW && (w*2654435761u>>8)%64==0); if(!want) return; if(S->wit++>=MAXW) return; std::vector<double> m; curmodel(m); if(modelok) emit("witness","",m); }
int main(int argc,char**argv){
  S=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset((void*)S,0,sizeof *S);
  const char*e; double dl=60; if((e=getenv("SYM_TIME"))) dl=atof(e); if((e=getenv("SYM_DELTA"))) DELTA=atof(e); if((e=getenv("SYM_PROCS"))) ntoks=atoi(e); if((e=getenv("SYM_RLIMIT"))) RL=atol(e); if((e=getenv("SYM_QMS"))) QMS=atoi(e); if((e=getenv("SYM_WIT"))) MAXW=atoi(e);
  MARGIN=DELTA; double t0=now(); S->deadline=t0+dl; sem_init(&S->tok,1,ntoks-1);
  outfd=open((e=getenv("SYM_OUT"))?e:"/dev/stderr",O_WRONLY|O_CREAT|O_APPEND,0644);
  int savedout=dup(1); int nul=open("/dev/null",O_WRONLY); dup2(nul,1); if(!getenv("SYM_ERR")) dup2(nul,2);
  Z=new z3::context(); zraw=*Z; lin=new z3::solver(*Z,"QF_LRA"); { z3::params p(*Z); p.set("rlimit",(unsigned)RL*4); lin->set(p);} 
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onalrm; sigaction(SIGALRM,&sa,0);
  stack_t ss; ss.ss_sp=malloc(1<<18); ss.ss_size=1<<18; ss.ss_flags=0; sigaltstack(&ss,0); sa.sa_handler=onsig; sa.sa_flags=SA_ONSTACK|SA_NODEFER; int sigs[]={SIGSEGV,SIGFPE,SIGBUS,SIGILL,SIGABRT,SIGXCPU}; for(int s:sigs) sigaction(s,&sa,0);
  if((e=getenv("SYM_CPU"))) cpulim=atof(e); struct rlimit rl={(rlim_t)cpulim,RLIM_INFINITY}; setrlimit(RLIMIT_CPU,&rl);
  int j=sigsetjmp(root_jb,1);
  if(j==0){ pid_t p0=fork(); if(p0==0){ is_root=false; own_token=true; struct rlimit r2={(rlim_t)cpulim,RLIM_INFINITY}; setrlimit(RLIMIT_CPU,&r2); sym_harness(); hp_init(); S->vq++; hp_nfail=0; hp_check(); if(!hp_nfail){ S->vunsat++; S->vfold++; } witness(); endpath(); } }
  // root only
  while(1){ int st; pid_t p=wait(&st); if(p<0){ if(errno==EINTR) continue; break;} if(WIFSIGNALED(st)) S->crash++; }
  std::string o="{\"type\":\"summary\""; auto F=[&](const char*k,long v){ o+=std::string(",\"")+k+"\":"+std::to_string(v); };
  F("paths",S->paths);F("forks",S->forks);F("sat",S->qsat);F("unsat",S->qunsat);F("unknown",S->qunk);F("fast",S->qfast);F("nlq",S->nlq);F("cands",S->cands);F("vq",S->vq);F("vunsat",S->vunsat);F("vfold",S->vfold);F("imprecise",S->imprecise);F("bandonly",S->bandonly);F("timeouts",S->timeouts);F("crash",S->crash);F("pruned",S->pruned);F("incomplete",S->incomplete);F("solver_us",S->solver_us);F("maxdeg",S->maxdeg);F("maxterms",S->maxterms);F("stop",S->stop);
  o+=",\"wall\":"; jnum(o,now()-t0); o+=",\"covers\":{"; for(int i=0;i<S->ncov;i++){ if(i) o+=","; jstr(o,S->cov[i].name); o+=":"+std::to_string(S->cov[i].n.load()); } o+="}}\n";
  (void)!write(outfd,o.data(),o.size()); dup2(savedout,1); (void)!write(1,o.data(),o.size());
  _exit(0); }
