/* C32: program options of pomdp-solve.  Real code: POMDP_SOLVE_OPTS_create and everything below it
   (command line, configuration file, option records). */
#include <stddef.h>
#include <limits.h>
#include "common.h"
#include "pomdp-solve-options.h"
#include "pomdp-tools-options.h"
#include "config-file.h"
#ifdef TOOLS
typedef struct PomdpToolsProgOptionsStruct OS;
#define OPTS(x) POMDP_TOOLS_OPTS_##x
#define PROG "pomdp-tools"
#define SOME "states"
#else
typedef struct PomdpSolveProgOptionsStruct OS;
#define OPTS(x) POMDP_SOLVE_OPTS_##x
#define PROG "pomdp-solve"
#define SOME "horizon"
#endif
typedef struct { const char*name; char type; size_t off; double dflt, lo, hi; const char**choices; const char*sdef; } Opt;
static const char*PURGE[]={"none","domonly","normal_prune","epsilon_prune",0};
static const char*IPT[]={"normal","restricted_region","generalized",0};
static const char*FGT[]={"simplex","pairwise","search","initial",0};
static const char*STOP[]={"exact","weak","bellman",0};
static const char*METH[]={"enum","twopass","linsup","witness","incprune","grid","mcgs",0};
static const char*VI[]={"normal","zlz","adjustable_epsilon","fixed_soln_size",0};
static const char*VERB[]={"context","lp","global","timing","stats","cmdline","main","alpha","proj","crosssum","agenda","enum","twopass","linsup","witness","incprune","lpinterface","vertexenum","mdp","pomdp","param","parsimonious","region","approx_mcgs","zlz_speedup","finite_grid","mcgs",0};
#define F(x) offsetof(OS,x)
#define BIG 1e18
static const char*TOOL[]={"update_beliefs","compare_alphas","map_beliefs","pg_isomorphism","purge_alphas","sort_alphas","pg_eval","pg_relink","belief_alpha_compare","none",0};
static const Opt T[]={
#ifdef TOOLS
 {"alpha2",'s',F(alpha2),0,0,0,0,""},{"alpha1",'s',F(alpha1),0,0,0,0,""},{"belief",'s',F(belief),0,0,0,0,""},{"pomdp",'s',F(pomdp),0,0,0,0,""},{"tool",'e',F(tool),9,0,0,TOOL},{"epsilon",'d',F(epsilon),1e-9,0,BIG},{"states",'i',F(states),0,1},
 {"pg2",'s',F(pg2),0,0,0,0,""},{"o",'s',F(result_filename),0,0,0,0,"toolsoln"},{"pg1",'s',F(pg1),0,0,0,0,""},{"obs",'i',F(obs),0,1}
#else
 {"time_limit",'i',F(max_secs),0,1},{"mcgs_prune_freq",'i',F(mcgs_prune_freq),100,1},{"history_length",'i',F(epoch_history_window_length),0,1},
 {"mcgs_traj_iter_count",'i',F(mcgs_traj_iter_count),1,1},{"mcgs_num_traj",'i',F(mcgs_num_traj),1000,1},{"memory_limit",'i',F(memory_limit),0,1},
 {"alg_rand",'i',F(alg_init_rand_points),0,0},{"fg_points",'i',F(finite_grid_points),10000,1},{"mcgs_traj_length",'i',F(mcgs_traj_length),100,1},
 {"history_delta",'i',F(epoch_history_window_delta),0,1},{"prune_rand",'i',F(prune_init_rand_points),0,0},{"horizon",'i',F(horizon),0,1},
 {"prune_epsilon",'d',F(prune_epsilon),1e-9,0,BIG},{"fg_epsilon",'d',F(fg_epsilon),1e-9,0,BIG},{"lp_epsilon",'d',F(lp_epsilon),1e-9,0,BIG},
 {"end_epsilon",'d',F(ending_epsilon),0,0,BIG},{"start_epsilon",'d',F(starting_epsilon),0,0,BIG},{"stop_delta",'d',F(stop_delta),1e-9,0,BIG},
 {"epsilon",'d',F(epsilon),1e-9,0,BIG},{"discount",'d',F(override_discount),-1,0,1},{"epsilon_adjust",'d',F(epsilon_adjust_factor),0,0,BIG},{"max_soln_size",'d',F(max_soln_size),0,0,BIG},
 {"inc_prune",'e',F(ip_type),0,0,0,IPT},{"enum_purge",'e',F(enum_purge_option),2,0,0,PURGE},{"fg_type",'e',F(finite_grid_type),3,0,0,FGT},{"q_purge",'e',F(q_purge_option),2,0,0,PURGE},
 {"stop_criteria",'e',F(stop_criteria),1,0,0,STOP},{"method",'e',F(method),4,0,0,METH},{"fg_purge",'e',F(fg_purge_option),2,0,0,PURGE},{"proj_purge",'e',F(proj_purge),2,0,0,PURGE},{"vi_variation",'e',F(vi_variation),0,0,0,VI},{"verbose",'e',F(verbose),0,0,0,VERB},
 {"save_all",'b',F(save_all),0},{"fg_save",'b',F(finite_grid_save),0},{"dom_check",'b',F(domination_check),1},{"save_penultimate",'b',F(save_penultimate),0},{"stat_summary",'b',F(stat_summary),0},{"witness_points",'b',F(use_witness_points),0},
 {"stdout",'s',F(report_filename),0,0,0,0,""},{"o",'s',F(prefix_str),0,0,0,0,"solution"},{"pomdp",'s',F(param_filename),0,0,0,0,""},{"terminal_values",'s',F(initial_policy_filename),0,0,0,0,""},{"rand_seed",'s',F(rand_seed),0,0,0,0,""},
#endif
};
#define NT ((int)(sizeof T/sizeof T[0]))
static char*arg[16]; static int na; static char cfg[4096]; static int usecfg;
static char*dup(const char*a,const char*b){ char*r=malloc(strlen(a)+strlen(b)+1); strcpy(r,a); strcat(r,b); return r; }
static void on_cmd(const char*name,const char*val){ arg[na++]=dup("-",name); if(val) arg[na++]=dup(val,""); }
static void on_cfg(const char*name,const char*val){ usecfg=1; strcat(cfg,name); strcat(cfg," = "); strcat(cfg,val); strcat(cfg,"\n"); }
/* picks a value for option o (tag distinguishes the two values of an option given twice);
   *ok: must be accepted, *i/*d/*s: the value it stands for */
static const char*pick(const Opt*o,const char*tag,int cmd,int rich,int*ok,int*iv,double*dv,const char**sv){
  *ok=1; *iv=0; *dv=0; *sv="";
  char nm[32]; strcpy(nm,"v_"); strcat(nm,tag);
  if(o->type=='i'){ static const char*bad[]={"abc","7x","3.5","2147483648","99999999999999999999","0"}; int n=rich?(o->lo>0?9:8):3, k=sym_choice(nm,cmd?n:(rich?n+2:n));
    if(k==0){ *iv=(int)o->lo; return o->lo>0?"1":"0"; } if(k==1){ *iv=42; return "42"; } if(k==2){ *iv=INT_MAX; return "2147483647"; }
    if(k<n){ *ok=0; return bad[k-3]; }
    *ok=0; return k==n?"-1":""; }
  if(o->type=='d'){ int k=sym_choice(nm,rich?(cmd?4:6):1); double v;
    if(k==0){ v=sym_real(nm3(tag,0,0,0),0,3); *dv=v; *ok=v<=o->hi; return sym_tok(v); }
    if(k==1){ *ok=0; return "abc"; } if(k==2){ *ok=0; return "0.5x"; } if(k==3){ *ok=0; return "nan"; }
    if(k==4){ v=sym_real(nm3(tag,1,0,0),0.001,3); *ok=0; return dup("-",sym_tok(v)); }
    *ok=0; return ""; }
  if(o->type=='e'){ int n=0; while(o->choices[n]) n++; int lim=rich?n:(n>2?2:n); int k=sym_choice(nm,lim+(rich?(cmd?3:4):0));
    if(k<lim){ *iv=k; return o->choices[k]; } *ok=0; return k==lim?"bogus":k==lim+1?dup(o->choices[n-1],"x"):k==lim+2?dup("x",o->choices[0]):""; }
  if(o->type=='b'){ int k=sym_choice(nm,rich?(cmd?6:5):(cmd?3:2)); if(k==0){ *iv=1; return "true"; } if(k==1){ return "false"; } if(cmd&&(k==2)){ *iv=1; return 0; } *ok=0; return k==3?"yes":k==4?"1":"falsey"; }
  int k=sym_choice(nm,2); *sv=k?"dir/some_file.x":tag; return *sv; }
static void expect(const OS*p,const Opt*o,int set,int iv,double dv,const char*sv){
  const char*q=(const char*)p+o->off; int ok=1;
  if(o->type=='i'||o->type=='e'||o->type=='b') ok=*(const int*)q==(set?iv:(int)o->dflt);
  else if(o->type=='d'){ double x=*(const double*)q; sym_check_eq(x,set?dv:o->dflt,1e-12,set?"option does not have the value it was given":"option that was not given does not have its default"); }
  else ok=!strcmp(q,set?sv:o->sdef);
  if(!ok){ char m[128]; strcpy(m,set?"option does not have the value it was given: -":"option that was not given does not have its default: -"); strcat(m,o->name); sym_check(0,m); } }
/* the settings as reported / saved: every option present with its value, and the text reads back */
static void itoa_(int v,char*b){ char r[16]; int k=0,n=0; long x=v; if(x<0){ b[n++]='-'; x=-x; } if(!x) r[k++]='0'; while(x){ r[k++]='0'+x%10; x/=10; } while(k) b[n++]=r[--k]; b[n]=0; }
static void report_(OS*p){
  ConfigFile c=OPTS(toConfigFile)(p); char b[32]; sym_check(c->error_count==0,"settings cannot be reported");
  sym_check(CF_write(c,"/mem/w.cfg")==1,"settings cannot be written"); ConfigFile r=CF_read("/mem/w.cfg"); sym_check(r&&r->error_count==0,"saved settings cannot be read"); if(!r) return;
  sym_check(AA_size(r->params)==AA_size(c->params),"saved settings: number of entries");
  for(int i=0;i<NT;i++){ const char*q=(const char*)p+T[i].off, *want=0; char*v=AA_get(c->params,(char*)T[i].name), *w=AA_get(r->params,(char*)T[i].name);
    if(!v||!w){ sym_check(0,"an option is missing from the reported settings"); continue; }
    if(T[i].type=='i'){ itoa_(*(const int*)q,b); want=b; } if(T[i].type=='e') want=T[i].choices[*(const int*)q]; if(T[i].type=='b') want=*(const int*)q?"true":"false"; if(T[i].type=='s') want=q;
    if(want) sym_check(!strcmp(v,want),"reported setting differs from the option"); else sym_check_eq(atof(v),*(const double*)q,1e-6,"reported setting differs from the option");
    sym_check(!strcmp(v,w),"setting changed when written and read back"); } }
static OS*run(int*rc){ OS*p=0; char*av[20]; int n=0; av[n++]=PROG; int where=usecfg?sym_choice("fpos",2):0;
  sym_file_put("/mem/x.cfg",cfg);
  if(usecfg&&!where){ av[n++]="-f"; av[n++]="/mem/x.cfg"; }
  for(int i=0;i<na;i++) av[n++]=arg[i];
  if(usecfg&&where){ av[n++]="-f"; av[n++]="/mem/x.cfg"; }
  av[n]=0;
  *rc=SYM_TRY(); if(*rc==0){ p=OPTS(create)(n,av); SYM_END(); } return p; }
void sym_harness(void){
  int mode=sym_cfg("MODE",0), rc, set[64]={0}, iv[64]={0}, allok=1; double dv[64]={0}; const char*sv[64]={0};
  strcpy(cfg,sym_choice("comment",2)?"# a comment\n\n":"");
  if(mode==0){ int half=sym_cfg("HALF",0); int i=half?sym_choice("opt",NT/2)+NT/2:sym_choice("opt",NT/2); if(half&&NT%2) if(i==NT-2&&sym_choice("last",2)) i=NT-1;
    int src=sym_choice("src",4); int ok; const Opt*o=&T[i];
    if(src==0){ /* absent, with or without a configuration file */ if(sym_choice("cfg",2)) usecfg=1; sym_cover("absent"); }
    if(src==1){ const char*v=pick(o,"cmd",1,1,&ok,&iv[i],&dv[i],&sv[i]); on_cmd(o->name,v); set[i]=1; allok=ok; sym_cover("cmd"); }
    if(src==2){ const char*v=pick(o,"cfg",0,1,&ok,&iv[i],&dv[i],&sv[i]); on_cfg(o->name,v); set[i]=1; allok=ok; sym_cover("cfg"); }
    if(src==3){ int ok2,i2; double d2; const char*s2; const char*w=pick(o,"cfg",0,0,&ok2,&i2,&d2,&s2); on_cfg(o->name,w);
      const char*v=pick(o,"cmd",1,0,&ok,&iv[i],&dv[i],&sv[i]); on_cmd(o->name,v); set[i]=1; allok=ok; sym_cover("both"); } }
  else if(mode==1){ /* two options, any order and source */
    int i=sym_choice("opt",NT), j=sym_choice("opt2",NT-1); if(j>=i) j++;
    int ok1,ok2, w=sym_choice("where",3); const char*a,*b;
    a=pick(&T[i],"one",w!=1,0,&ok1,&iv[i],&dv[i],&sv[i]); b=pick(&T[j],"two",w==0,0,&ok2,&iv[j],&dv[j],&sv[j]);
    if(w!=1) on_cmd(T[i].name,a); else on_cfg(T[i].name,a); if(w==0) on_cmd(T[j].name,b); else on_cfg(T[j].name,b);
    set[i]=set[j]=1; allok=ok1&&ok2; sym_cover("pair"); }
  else if(mode==3){ /* one character too many in a number */
    int num[32],nn=0; for(int i=0;i<NT;i++) if(T[i].type=='i'||T[i].type=='d') num[nn++]=i; int i=num[sym_choice("opt",nn)], d=T[i].type=='d', p=sym_choice("place",3), c=33+sym_choice("chr",94);
    if((c>='0'&&c<='9')||(d&&(c=='.'||(c|32)=='e'||((c|32)=='x'&&p==1)))||(p!=1&&(p==2)&&(c=='+'||c=='-'))) sym_prune();
    char v[4]; int n=0; if(p==1) v[n++]='0'; if(p==0) v[n++]='1'; v[n++]=c; if(p) v[n++]='1'; v[n]=0; if(d&&p==2&&c=='.') sym_prune();
    on_cmd(T[i].name,dup(v,"")); allok=0; sym_cover("malformed number"); }
  else { /* unknown options */
    static const char*bad[]={"nosuch","horizo","horizons","Horizon","","meth","o2","save-all"}; int k=sym_choice("bad",8), how=sym_choice("how",3);
    if(sym_choice("with",2)){ on_cmd(SOME,"3"); for(int i=0;i<NT;i++) if(!strcmp(T[i].name,SOME)){ set[i]=1; iv[i]=3; } }
    if(how==0) on_cmd(bad[k],"3"); if(how==1) on_cmd(bad[k],0); if(how==2){ if(k==4) sym_prune(); on_cfg(bad[k],"3"); }
    allok=0; sym_cover("unknown"); }
  OS*p=run(&rc);
  if(!allok){ sym_check(rc!=0,mode==2?"unknown option accepted":"invalid option value accepted"); sym_check(rc!=99,"assertion failure on an invalid option"); sym_cover("rejected"); return; }
  sym_check(rc==0,"valid option rejected"); if(rc||!p) return;
  for(int i=0;i<NT;i++) expect(p,&T[i],set[i],iv[i],dv[i],sv[i]);
  if(mode==0) report_(p);
  sym_observe("eps",p->epsilon); sym_cover("accepted");
}
