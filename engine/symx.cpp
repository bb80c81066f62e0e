// Symbolic executor for xir programs. One OS process per path: every symbolic
// branch whose two sides are both feasible (as decided by Z3) forks.
#include "xir.h"
#include "expr.h"
#include <z3.h>
#include <sys/mman.h>
#include <sched.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <poll.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <math.h>
#include <errno.h>
#include <atomic>
#include <unordered_map>
#include <map>
#include <set>
using namespace xir;

// ------------------------------------------------------------------ program
static char* P; static Header* H;
static Op* ops; static Edge* edges; static Move* moves; static Case* cases_; static Func* funcs; static int32_t* argtab; static char* strs;
struct Value { u64 c; Expr* e; };
static std::vector<Value> consts;
template<class T> static T* sec(Section& s){ return (T*)(P+s.off); }

// ------------------------------------------------------------------ options
static std::map<std::string,i64> params; static std::string outDir; static double deadline=0; static u64 budget=4000000000ull; static int jobs=8; static unsigned rlimit_=0;
static int maxViol=4; static bool undefBranch=false; static std::vector<u64> concreteVals; static bool concreteMode=false; static bool traceMode=false; static u64 memLimitMB=2500; static size_t muxCap=0;

// ------------------------------------------------------------------ shared statistics
struct Reach { char name[64]; std::atomic<u64> n; };
struct Shared {
  std::atomic<u64> paths, forks, queries, sat, unsat, unknown, solver_us, instrs, viol, stop, crashed, incomplete, domdec, concdec, infeasible, maxVars, asserts, assertQ, memQ, lock, muxLoads, muxStores, concretized, fallbackSlot, maxDepth;
  Reach reach[64]; char incWhy[16][200]; std::atomic<u64> nInc;
  std::atomic<int> slots[1<<20]; char samples[8][512]; std::atomic<u64> nSamples;
  u8 cov[1<<16];
};
static Shared* S; static int tokR,tokW; static bool ownToken=true; static std::atomic<int>* mySlot=0; static u64 localInstr=0; static int depth_=0;
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static void lockS(){ u64 z=0; while(!S->lock.compare_exchange_weak(z,1)){ z=0; sched_yield(); } }
static void unlockS(){ S->lock=0; }
[[noreturn]] static void endPath(){
  S->instrs+=localInstr; u64 m=S->maxVars; while(g_vars.size()>m&&!S->maxVars.compare_exchange_weak(m,g_vars.size())); 
  m=S->maxDepth; while((u64)depth_>m&&!S->maxDepth.compare_exchange_weak(m,depth_));
  bool release=true;
  if(mySlot){ int z=0; if(mySlot->compare_exchange_strong(z,2)) release=false; }
  if(release){ char c='t'; if(write(tokW,&c,1)!=1){} }
  _exit(0);
}
[[noreturn]] static void incomplete(const char* why){
  S->incomplete++; u64 i=S->nInc++; if(i<16) snprintf(S->incWhy[i],200,"%s",why);
  endPath();
}
static std::string where();
static void checkTime(){ if(S->stop) { S->incomplete++; endPath(); } if(deadline&&now()>deadline){ if(getenv("SYMX_DEBUG")) fprintf(stderr,"TIMEOUT at %s\n",where().c_str()); incomplete("time budget"); } }

// ------------------------------------------------------------------ state
static Value* regs; static size_t regTop=0; static const size_t REGMAX=1<<22;
struct Frame { u32 fn; u32 pc; size_t base; u64 sp; int retDst; int nret; int cov; };
static std::vector<Frame> stack_; static u64 sp_; static int curCov=-1;
static u64 heapTop=HEAP_BASE+4096;
static std::unordered_map<u64,u64> heapObjs;
static std::vector<std::string> inputNames; static std::vector<std::pair<int,int>> inputs; // var index or -1; bits
static std::vector<u64> inputConst;
// shadow: one byte per target byte. 0 none, 1 concrete, 2 symbolic, 3 uninitialised
static u8* SH; static Expr** SX;
#define SHB(a) (SH+((a)-GLOBAL_BASE))
#define SXB(a) (SX+((a)-GLOBAL_BASE))
static inline bool inRegion(u64 a,u64 n){ return a>=GLOBAL_BASE&&a+n<=REGION_END&&a+n>=a; }

static std::string where(){
  std::string s; int n=0;
  auto covs=sec<Cov>(H->covs); auto poss=sec<Pos>(H->poss);
  auto add=[&](u32 fn,int cv){ s+=strs+funcs[fn].name; if(cv>=0&&covs[cv].n){ Pos& p=poss[covs[cv].first+covs[cv].n-1]; s+="@"+std::string(strs+p.file)+":"+std::to_string(p.line); } s+=" < "; };
  for(int i=(int)stack_.size()-1;i>=0&&n<8;--i,++n) add(stack_[i].fn,i==(int)stack_.size()-1?curCov:stack_[i+1].cov);
  return s;
}
// repo-level location: innermost frame whose block carries a repo source line
static std::string repoLoc(){
  auto covs=sec<Cov>(H->covs); auto poss=sec<Pos>(H->poss);
  for(int i=(int)stack_.size()-1;i>=0;--i){ int cv=i==(int)stack_.size()-1?curCov:stack_[i+1].cov; if(cv>=0&&covs[cv].n){ Pos& p=poss[covs[cv].first+covs[cv].n-1]; return std::string(strs+p.func)+"@"+(strs+p.file); } }
  return "?";
}
static void dumpInputs(FILE* f){
  for(size_t i=0;i<inputs.size();++i){
    u64 v=inputs[i].first<0?inputConst[i]:g_vars[inputs[i].first].model;
    fprintf(f,"%s %d %llu\n",inputNames[i].c_str(),inputs[i].second,(unsigned long long)v);
  }
}
static void violation(const char* kind,const std::string& msg){
  u64 n=S->viol++;
  if(n<64){
    char fn[4096]; snprintf(fn,sizeof fn,"%s/viol-%03llu.txt",outDir.c_str(),(unsigned long long)n);
    FILE* f=fopen(fn,"w");
    if(f){ fprintf(f,"kind: %s\nmessage: %s\nrepoloc: %s\nwhere: %s\ninputs:\n",kind,msg.c_str(),repoLoc().c_str(),where().c_str()); dumpInputs(f);
      fprintf(f,"undef:\n"); for(auto& v: g_vars) if(v.undef) fprintf(f,"%s %d %llu\n",v.name.c_str(),v.w,(unsigned long long)v.model); fclose(f); }
  }
  if(traceMode){ fprintf(stderr,"VIOL %s %s\n  %s\n",kind,msg.c_str(),where().c_str()); }
  if((int)S->viol>=maxViol) S->stop=1;
}
[[noreturn]] static void fatalViolation(const char* kind,const std::string& msg){ violation(kind,msg); S->paths++; endPath(); }

// ------------------------------------------------------------------ solver
static Z3_context ctx; static Z3_solver solver; static std::vector<Expr*> pending;
static Z3_sort bvSort(int w){ static Z3_sort s[65]; if(!s[w]){ s[w]=Z3_mk_bv_sort(ctx,w); } return s[w]; }
static Z3_ast toZ3(Expr* e);
static Z3_ast bvOf(Expr* e){ // as bit-vector even for width 1
  Z3_ast z=toZ3(e); if(e->w!=1) return z;
  return Z3_mk_ite(ctx,z,Z3_mk_unsigned_int64(ctx,1,bvSort(1)),Z3_mk_unsigned_int64(ctx,0,bvSort(1)));
}
static Z3_ast toZ3(Expr* e){
  if(e->z) return (Z3_ast)e->z;
  Z3_ast r=0;
  switch(e->k){
  case K_CONST: r=e->w==1?(e->v?Z3_mk_true(ctx):Z3_mk_false(ctx)):Z3_mk_unsigned_int64(ctx,e->v,bvSort(e->w)); break;
  case K_VAR: { Z3_symbol s=Z3_mk_int_symbol(ctx,(int)e->v); r=Z3_mk_const(ctx,s,e->w==1?Z3_mk_bool_sort(ctx):bvSort(e->w)); break; }
  case K_ITE: { Z3_ast c=toZ3(e->a),x=toZ3(e->b),y=toZ3(e->c); r=Z3_mk_ite(ctx,c,x,y); break; }
  case K_ZEXT: { Z3_ast x=toZ3(e->a); r=e->a->w==1?Z3_mk_ite(ctx,x,Z3_mk_unsigned_int64(ctx,1,bvSort(e->w)),Z3_mk_unsigned_int64(ctx,0,bvSort(e->w))):Z3_mk_zero_ext(ctx,e->w-e->a->w,x); break; }
  case K_SEXT: r=Z3_mk_sign_ext(ctx,e->w-e->a->w,bvOf(e->a)); break;
  case K_EXTRACT: { Z3_ast x=toZ3(e->a); r=Z3_mk_extract(ctx,e->lo+e->w-1,e->lo,x); if(e->w==1) r=Z3_mk_eq(ctx,r,Z3_mk_unsigned_int64(ctx,1,bvSort(1))); break; }
  case K_CONCAT: r=Z3_mk_concat(ctx,bvOf(e->a),bvOf(e->b)); break;
  default: {
    Z3_ast x=toZ3(e->a),y=toZ3(e->b); Z3_ast p[2]={x,y}; bool b1=e->a->w==1;
    switch(e->k){
    case K_ADD: r=b1?Z3_mk_xor(ctx,x,y):Z3_mk_bvadd(ctx,x,y); break; case K_SUB: r=b1?Z3_mk_xor(ctx,x,y):Z3_mk_bvsub(ctx,x,y); break;
    case K_MUL: r=Z3_mk_bvmul(ctx,x,y); break;
    case K_UDIV: r=Z3_mk_bvudiv(ctx,x,y); break; case K_SDIV: r=Z3_mk_bvsdiv(ctx,x,y); break; case K_UREM: r=Z3_mk_bvurem(ctx,x,y); break; case K_SREM: r=Z3_mk_bvsrem(ctx,x,y); break;
    case K_AND: r=b1?Z3_mk_and(ctx,2,p):Z3_mk_bvand(ctx,x,y); break; case K_OR: r=b1?Z3_mk_or(ctx,2,p):Z3_mk_bvor(ctx,x,y); break;
    case K_XOR: r=b1?(e->b->k==K_CONST?Z3_mk_not(ctx,x):Z3_mk_xor(ctx,x,y)):Z3_mk_bvxor(ctx,x,y); break;
    case K_SHL: r=Z3_mk_bvshl(ctx,x,y); break; case K_LSHR: r=Z3_mk_bvlshr(ctx,x,y); break; case K_ASHR: r=Z3_mk_bvashr(ctx,x,y); break;
    case K_EQ: r=Z3_mk_eq(ctx,x,y); break;
    case K_ULT: r=Z3_mk_bvult(ctx,bvOf(e->a),bvOf(e->b)); break; case K_ULE: r=Z3_mk_bvule(ctx,bvOf(e->a),bvOf(e->b)); break;
    case K_SLT: r=Z3_mk_bvslt(ctx,bvOf(e->a),bvOf(e->b)); break; case K_SLE: r=Z3_mk_bvsle(ctx,bvOf(e->a),bvOf(e->b)); break;
    default: abort(); } }
  }
  e->z=r; return r;
}
static void z3err(Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); S->crashed++; _exit(3); }
static void initSolver(){
  Z3_config cfg=Z3_mk_config(); Z3_set_param_value(cfg,"model","true"); ctx=Z3_mk_context(cfg); Z3_set_error_handler(ctx,z3err);
  solver=Z3_mk_solver_for_logic(ctx,Z3_mk_string_symbol(ctx,getenv("SYMX_LOGIC")?getenv("SYMX_LOGIC"):"QF_FD")); Z3_solver_inc_ref(ctx,solver);
  if(rlimit_){ Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"rlimit"),rlimit_); Z3_solver_set_params(ctx,solver,p); }
}
static void flushPending(){ for(Expr* e: pending) Z3_solver_assert(ctx,solver,toZ3(e)); pending.clear(); }
static std::vector<u64> lastModel;
static void loadModel(){
  Z3_model m=Z3_solver_get_model(ctx,solver); Z3_model_inc_ref(ctx,m);
  lastModel.resize(g_vars.size());
  for(size_t i=0;i<g_vars.size();++i){
    Expr* e=g_vars[i].e; u64 v=g_vars[i].model;
    if(g_vars[i].fixed) v=g_vars[i].fval;
    else if(e->z){ Z3_func_decl d=Z3_get_app_decl(ctx,Z3_to_app(ctx,(Z3_ast)e->z)); Z3_ast a=Z3_model_get_const_interp(ctx,m,d);
      if(a){ if(e->w==1) v=Z3_get_bool_value(ctx,a)==Z3_L_TRUE; else { uint64_t t=0; Z3_get_numeral_uint64(ctx,a,&t); v=t; } } }
    lastModel[i]=v;
  }
  Z3_model_dec_ref(ctx,m);
}
// 1 sat (lastModel set), 0 unsat, -1 unknown
static int query(Expr* c){
  c=substFixed(c);
  if(c->k==K_CONST){ if(!c->v) return 0; lastModel.resize(g_vars.size()); for(size_t i=0;i<g_vars.size();++i) lastModel[i]=g_vars[i].model; return 1; }
  checkTime();
  double t=now(); flushPending(); Z3_ast a=toZ3(c); Z3_ast p;
  // literals: plain booleans only; introduce a proxy otherwise
  static int proxy=0; Z3_symbol s=Z3_mk_string_symbol(ctx,("p"+std::to_string(proxy++)).c_str()); p=Z3_mk_const(ctx,s,Z3_mk_bool_sort(ctx));
  Z3_solver_assert(ctx,solver,Z3_mk_implies(ctx,p,a));
  Z3_lbool r=Z3_solver_check_assumptions(ctx,solver,1,&p);
  S->queries++; int res;
  if(r==Z3_L_TRUE){ S->sat++; loadModel(); res=1; } else if(r==Z3_L_FALSE){ S->unsat++; res=0; } else { S->unknown++; res=-1; }
  Z3_solver_assert(ctx,solver,Z3_mk_not(ctx,p));
  S->solver_us+=(u64)((now()-t)*1e6);
  return res;
}
static void useModel(){ for(size_t i=0;i<g_vars.size()&&i<lastModel.size();++i) g_vars[i].model=lastModel[i]; ++g_modelEpoch; }
static void fixVar(int v,u64 val){ if(g_vars[v].fixed) return; g_vars[v].fixed=true; g_vars[v].fval=val; g_fixedSupp|=1ull<<(v&63); ++g_substEpoch; }
// evaluate a single-variable expression at a given value without touching the model memo permanently
static u64 evalAt(Expr* e,int var,u64 val){ u64 o=g_vars[var].model; g_vars[var].model=val; ++g_modelEpoch; u64 r=evalExpr(e); g_vars[var].model=o; ++g_modelEpoch; return r; }
static void markMulti(u64){ }
static void collectVars(Expr* e,std::vector<int>& out,std::set<Expr*>& seen){
  if(!e||e->onevar==-2||!seen.insert(e).second) return;
  if(e->k==K_VAR){ out.push_back((int)e->v); return; }
  collectVars(e->a,out,seen); collectVars(e->b,out,seen); collectVars(e->c,out,seen);
}
static void assume(Expr* c){ // c is known feasible and satisfied by the current model
  c=substFixed(c);
  if(c->k==K_CONST) return;
  if(c->dec==1) return;
  if(c->k==K_AND){ assume(c->a); assume(c->b); return; }
  c->dec=1; { Expr* n=mkNot(c); if(n->k!=K_CONST&&n!=c) n->dec=2; }
  if(c->k==K_XOR&&c->b->k==K_CONST){ c->a->dec=2;
    if(c->a->k==K_OR){ assume(mkNot(c->a->a)); assume(mkNot(c->a->b)); return; } }
  pending.push_back(c);
  if(c->onevar>=0){
    int v=c->onevar; Var& V=g_vars[v];
    if(V.w<=8){ int cnt=0; u64 last=0; u64 o=V.model;
      for(int x=0;x<(1<<V.w);++x) if(V.dom[x>>6]>>(x&63)&1){ V.model=x; ++g_modelEpoch; if(!evalExpr(c)) V.dom[x>>6]&=~(1ull<<(x&63)); else { ++cnt; last=x; } }
      V.model=o; ++g_modelEpoch;
      if(cnt==1) fixVar(v,last);
    } else if(c->k==K_EQ&&c->a->k==K_VAR&&c->b->k==K_CONST) fixVar(v,c->b->v);
  } else {
    std::vector<int> vs; std::set<Expr*> seen; collectVars(c,vs,seen); for(int v: vs) g_vars[v].multi=true;
    if(c->k==K_EQ&&c->a->k==K_VAR&&c->b->k==K_CONST) fixVar((int)c->a->v,c->b->v);
  }
  if(c->k==K_VAR) fixVar((int)c->v,1);
  if(c->k==K_XOR&&c->a->k==K_VAR&&c->b->k==K_CONST) fixVar((int)c->a->v,0);
}
// decide feasibility of c (other = not the model's side). returns 1 feasible (lastModel), 0 not
static int feasible(Expr* c){
  c=substFixed(c);
  if(c->k==K_CONST) return c->v?2:0;
  if(c->dec) return c->dec==1?2:0;
  if(c->onevar>=0&&g_vars[c->onevar].w<=8){
    int v=c->onevar; Var& V=g_vars[v]; int found=-1; u64 o=V.model;
    for(int x=0;x<(1<<V.w)&&found<0;++x) if(V.dom[x>>6]>>(x&63)&1){ V.model=x; ++g_modelEpoch; if(evalExpr(c)) found=x; }
    V.model=o; ++g_modelEpoch;
    if(found<0){ S->domdec++; return 0; }
    if(!V.multi){ S->domdec++; lastModel.resize(g_vars.size()); for(size_t i=0;i<g_vars.size();++i) lastModel[i]=g_vars[i].model; lastModel[v]=found; return 1; }
  }
  int r=query(c);
  if(r<0){ S->incomplete++; u64 i=S->nInc++; if(i<16) snprintf(S->incWhy[i],200,"solver limit at %s",where().substr(0,150).c_str()); return 0; }
  return r;
}
// ------------------------------------------------------------------ forking
static u64 rssMB(){ static FILE* f=0; (void)f; char b[128]; int fd=open("/proc/self/statm",O_RDONLY); if(fd<0) return 0; int n=read(fd,b,127); close(fd); if(n<=0) return 0; b[n]=0; long a,r; if(sscanf(b,"%ld %ld",&a,&r)!=2) return 0; return r*4096ull>>20; }
static bool tryToken(){ char c; return read(tokR,&c,1)==1; }
static bool forkPath(){ // true in the child
  checkTime(); S->forks++;
  while(waitpid(-1,0,WNOHANG)>0);
  bool par=tryToken(); std::atomic<int>* slot=0;
  if(!par){ u64 k=S->fallbackSlot++; slot=&S->slots[k&((1<<20)-1)]; *slot=0; }
  fflush(stdout); fflush(stderr);
  pid_t pid=fork();
  if(pid<0){ if(par){ char c='t'; if(write(tokW,&c,1)!=1){} } incomplete("fork failed"); }
  if(pid==0){ S->instrs+=0; localInstr=0; mySlot=slot; ++depth_; return true; }
  ++depth_;
  if(!par){
    int pfd=syscall(SYS_pidfd_open,pid,0); int to=5;
    for(;;){
      int st; pid_t r=waitpid(pid,&st,WNOHANG);
      if(r==pid||(r<0&&errno==ECHILD)){ 
        if(r==pid&&(!WIFEXITED(st)||WEXITSTATUS(st)!=0)) { S->crashed++; }
        int z=0; if(slot->compare_exchange_strong(z,3)){ /* child died without handing over: we keep the token */ }
        else if(z==2){ /* token handed to us */ }
        break; }
      if(tryToken()){ int z=0; if(slot->compare_exchange_strong(z,1)) break; /* detached: child keeps old token, we own the new one */
        char c='t'; if(write(tokW,&c,1)!=1){} }
      pollfd pf={pfd,POLLIN,0}; poll(&pf,pfd>=0?1:0,to); if(to<100) to*=2;
      if(S->stop||(deadline&&now()>deadline+2)) { /* let the child end on its own */ }
    }
    if(pfd>=0) close(pfd);
    checkTime();
  }
  return false;
}
// branch on width-1 expression; returns the side taken
static bool undefDependent(Expr* c);
static bool branch(Expr* c){
  c=substFixed(c);
  if(c->k==K_CONST) return c->v;
  if(c->dec) return c->dec==1;
  if(undefBranch&&c->undef&&undefDependent(c)) { violation("undef-branch","control flow depends on uninitialised memory"); checkTime(); }
  bool side=evalExpr(c);
  Expr* here=side?c:mkNot(c); Expr* other=side?mkNot(c):c;
  int r=feasible(other);
  if(r==0){ // implied
    here->dec=1; if(other->k!=K_CONST) other->dec=2; if(c->k!=K_CONST) c->dec=side?1:2;
    return side;
  }
  std::vector<u64> om; if(r==1) om=lastModel; 
  if(forkPath()){ if(r==1){ lastModel=om; useModel(); } assume(other); return !side; }
  assume(here); return side;
}
static bool undefDependent(Expr* c){
  u64 v=evalExpr(c); Expr* q=c->w==1?(v?mkNot(c):c):mkNot(mkBin(K_EQ,c,mkConst(v,c->w)));
  std::vector<int> vs; std::set<Expr*> seen; collectVars(c,vs,seen);
  for(auto& V: g_vars) if(!V.undef&&!V.fixed) q=mkBin(K_AND,q,V.w==1?(V.model?V.e:mkNot(V.e)):mkBin(K_EQ,V.e,mkConst(V.model,V.w)));
  return query(q)==1;
}
static u64 concretize(Expr* e){
  for(;;){
    e=substFixed(e); if(e->k==K_CONST) return e->v;
    S->concretized++;
    u64 v=evalExpr(e); Expr* eq=e->w==1?(v?e:mkNot(e)):mkBin(K_EQ,e,mkConst(v,e->w));
    if(branch(eq)) return v;
  }
}
static inline u64 conc(Value v){ return v.e?concretize(v.e):v.c; }

// ------------------------------------------------------------------ memory
static std::string hex(u64 v){ char b[32]; snprintf(b,32,"0x%llx",(unsigned long long)v); return b; }
[[noreturn]] static void memViol(u64 a,u64 n,bool wr){
  std::string m=std::string(wr?"write":"read")+" of "+std::to_string(n)+" bytes at "+hex(a);
  if(a<65536) m+=" (null)"; 
  else if(inRegion(a,1)){ u64 k; for(k=1;k<4096;++k) if(a-k>=GLOBAL_BASE&&*SHB(a-k)){ m+=" ("+std::to_string(k-1)+" bytes behind an object)"; break; }
    if(k==4096) m+=" (not in a live object)"; }
  fatalViolation("memory",m);
}
static inline void needAddr(u64 a,u64 n,bool wr){
  if(!inRegion(a,n)) memViol(a,n,wr);
  if(memchr(SHB(a),0,n)) memViol(a,n,wr);
}
static Expr* undefByte(u64 a){ Expr* e=mkVar("undef@"+hex(a),8,true,false); *SXB(a)=e; *SHB(a)=2; return e; }
static inline Expr* byteAt(u64 a){ u8 s=*SHB(a); if(s==1) return mkConst(*(u8*)a,8); if(s==2) return *SXB(a); return undefByte(a); }
static Value norm(Expr* e){ e=substFixed(e); if(e->k==K_CONST) return {e->v,0}; return {0,e}; }
static const u64 ONES=0x0101010101010101ull;
static Value loadConc(u64 a,int w){
  int n=(w+7)/8;
  if(!inRegion(a,n)) memViol(a,n,false);
  u8* s=SHB(a); u64 v;
  switch(n){
  case 1: if(*s==1){ v=*(u8*)a; return {w<8?v&msk(w):v,0}; } break;
  case 2: if(*(uint16_t*)s==0x0101) return {*(uint16_t*)a,0}; break;
  case 4: if(*(u32*)s==0x01010101u){ v=*(u32*)a; return {v&msk(w),0}; } break;
  case 8: if(*(u64*)s==ONES) { v=*(u64*)a; return {v&msk(w),0}; } break;
  default: { bool ok=true; for(int i=0;i<n;++i) ok&=s[i]==1; if(ok){ v=0; memcpy(&v,(void*)a,n); return {v&msk(w),0}; } }
  }
  if(memchr(s,0,n)) memViol(a,n,false);
  Expr* e=byteAt(a); for(int i=1;i<n;++i) e=mkConcat(byteAt(a+i),e);
  if(w<n*8) e=mkExtract(e,0,w);
  return norm(e);
}
static void storeConc(u64 a,Value v,int w){
  int n=(w+7)/8;
  if(!inRegion(a,n)) memViol(a,n,true);
  u8* s=SHB(a);
  if(!v.e){
    switch(n){
    case 1: if(!*s) memViol(a,n,true); *s=1; *(u8*)a=v.c; return;
    case 2: if(!s[0]||!s[1]) memViol(a,n,true); *(uint16_t*)s=0x0101; *(uint16_t*)a=v.c; return;
    case 4: { u32 x=*(u32*)s; x|=x>>1; if((x&0x01010101u)!=0x01010101u) memViol(a,n,true); *(u32*)s=0x01010101u; *(u32*)a=(u32)v.c; return; }
    case 8: { u64 x=*(u64*)s; x|=x>>1; if((x&ONES)!=ONES) memViol(a,n,true); *(u64*)s=ONES; *(u64*)a=v.c; return; }
    default: if(memchr(s,0,n)) memViol(a,n,true); memset(s,1,n); memcpy((void*)a,&v.c,n); return;
    }
  }
  if(memchr(s,0,n)) memViol(a,n,true);
  Expr* e=v.e; if(e->w<n*8) e=mkZext(e,n*8);
  for(int i=0;i<n;++i){ Expr* b=mkExtract(e,8*i,8); if(b->k==K_CONST){ s[i]=1; *(u8*)(a+i)=b->v; } else { s[i]=2; SXB(a)[i]=b; } }
}
// ---- symbolic addresses
static bool possVals(Expr* e,std::vector<u64>& out,size_t cap,int depth=0){
  if(e->k==K_CONST){ out.assign(1,e->v); return true; }
  if(depth>40) return false;
  auto fin=[&](){ std::sort(out.begin(),out.end()); out.erase(std::unique(out.begin(),out.end()),out.end()); return out.size()<=cap; };
  if(e->w==1){ out={0,1}; return true; }
  switch(e->k){
  case K_VAR: { Var& V=g_vars[e->v]; if(V.w>8) return false; out.clear(); for(int x=0;x<(1<<V.w);++x) if(V.dom[x>>6]>>(x&63)&1) out.push_back(x); return out.size()<=cap; }
  case K_ITE: { std::vector<u64> o2; if(!possVals(e->b,out,cap,depth+1)||!possVals(e->c,o2,cap,depth+1)) return false; out.insert(out.end(),o2.begin(),o2.end()); return fin(); }
  case K_ZEXT: return possVals(e->a,out,cap,depth+1);
  case K_SEXT: if(!possVals(e->a,out,cap,depth+1)) return false; for(auto& v: out) v=(u64)sx(v,e->a->w)&msk(e->w); return fin();
  case K_EXTRACT: if(!possVals(e->a,out,cap,depth+1)) return false; for(auto& v: out) v=(v>>e->lo)&msk(e->w); return fin();
  case K_CONCAT: { std::vector<u64> x,y; if(!possVals(e->a,x,cap,depth+1)||!possVals(e->b,y,cap,depth+1)) return false; if(x.size()*y.size()>cap) return false; out.clear(); for(u64 p: x) for(u64 q: y) out.push_back((p<<e->b->w)|q); return fin(); }
  default: { if(!e->b) return false; std::vector<u64> x,y; if(!possVals(e->a,x,cap,depth+1)||!possVals(e->b,y,cap,depth+1)) return false; if(x.size()*y.size()>cap*4) return false; out.clear(); for(u64 p: x) for(u64 q: y) out.push_back(foldBin(e->k,p,q,e->a->w)); return fin(); }
  }
}
static bool oneVarVals(Expr* e,std::vector<u64>& out){
  if(e->onevar<0||g_vars[e->onevar].w>8) return false;
  Var& V=g_vars[e->onevar]; u64 o=V.model; out.clear();
  for(int x=0;x<(1<<V.w);++x) if(V.dom[x>>6]>>(x&63)&1){ V.model=x; ++g_modelEpoch; out.push_back(evalExpr(e)); }
  V.model=o; ++g_modelEpoch; std::sort(out.begin(),out.end()); out.erase(std::unique(out.begin(),out.end()),out.end()); return true;
}
// all values an expression can take on this path, at most cap; false if more
static bool allVals(Expr* e,std::vector<u64>& out,size_t cap,size_t qcap){
  if(oneVarVals(e,out)) return out.size()<=cap;
  if(cap<=1) return false;
  std::vector<u64> pv; bool have=possVals(e,pv,cap);
  if(have&&pv.size()<=4){ out=pv; return true; }
  // exact enumeration with the solver while cheap
  out.clear(); Expr* rest=mkConst(1,1); u64 v=evalExpr(e); std::vector<u64> save;
  for(auto& V: g_vars) save.push_back(V.model);
  bool ok=true;
  for(;;){
    out.push_back(v); if(out.size()>qcap){ ok=false; break; }
    rest=mkBin(K_AND,rest,mkNot(mkBin(K_EQ,e,mkConst(v,e->w))));
    int r=query(rest); if(r==0) break; if(r<0){ ok=false; break; }
    useModel(); v=evalExpr(e);
  }
  for(size_t i=0;i<save.size();++i) g_vars[i].model=save[i]; ++g_modelEpoch;
  if(ok){ std::sort(out.begin(),out.end()); return true; }
  if(have){ out=pv; return true; }
  return false;
}
static bool objectOf(u64 p,u64& lo,u64& hi){
  if(!inRegion(p,1)||!*SHB(p)) return false;
  lo=p; while(*SHB(lo-1)) --lo; hi=p; u8* q=(u8*)memchr(SHB(hi),0,REGION_END-hi); hi=q-SH+GLOBAL_BASE; return true;
}
static bool provenance(Expr* e,u64& lo,u64& hi){ // object the address must stay in
  if(e->k==K_ADD&&e->b->k==K_CONST&&inRegion(e->b->v,1)&&e->a->umax<(1ull<<40)){
    u64 k=e->b->v, m=evalExpr(e);
    if(*SHB(k)){ objectOf(k,lo,hi); if(m>=lo&&m<hi) return true; u64 l2,h2; return !objectOf(m,l2,h2); } // address leaves the base's object for dead memory: keep the base's bounds
    return objectOf(m,lo,hi);
  }
  return false;
}
static bool addrCands(Expr*& e,int n,bool wr,std::vector<u64>& c,size_t cap,size_t qcap){
  // returns false if address was concretized (e becomes const)
  u64 lo=0,hi=0; bool prov=provenance(e,lo,hi);
  if(!allVals(e,c,cap,qcap)){
    // too many: bounds check first, then fork on values
    if(prov){ Expr* bad=mkBin(K_OR,mkBin(K_ULT,e,mkConst(lo,64)),mkBin(K_ULT,mkConst(hi-n,64),e)); S->memQ++;
      if(feasible(bad)){ if(branch(bad)) memViol(evalExpr(e),n,wr); e=substFixed(e); } }
    e=mkConst(concretize(e),64); return false;
  }
  std::vector<u64> good; Expr* anyBad=mkConst(0,1);
  for(u64 a: c){ bool ok=prov?(a>=lo&&a+n<=hi):(inRegion(a,n)&&!memchr(SHB(a),0,n)); if(ok) good.push_back(a); else anyBad=mkBin(K_OR,anyBad,mkBin(K_EQ,e,mkConst(a,64))); }
  if(good.size()!=c.size()){
    S->memQ++;
    if(branch(anyBad)) { u64 a=evalExpr(e); if(getenv("SYMX_DEBUG")){ std::string s; for(u64 x: c) s+=hex(x)+" "; fprintf(stderr,"ADDR %s prov=%d lo=%s hi=%s cands %s\n bad %s\n val %llx\n",exprStr(e,8).c_str(),prov,hex(lo).c_str(),hex(hi).c_str(),s.c_str(),exprStr(anyBad,6).c_str(),(unsigned long long)a); } memViol(a,n,wr); }
    e=substFixed(e);
  }
  c=good; return true;
}
static Value loadMem(Value p,i64 off,int w){
  if(!p.e) return loadConc(p.c+off,w);
  Expr* e=substFixed(p.e); if(off) e=mkBin(K_ADD,e,mkConst(off,64));
  if(e->k==K_CONST) return loadConc(e->v,w);
  int n=(w+7)/8; std::vector<u64> c;
  if(!addrCands(e,n,false,c,4096,48)) return loadConc(e->v,w);
  if(e->k==K_CONST) return loadConc(e->v,w);
  S->muxLoads++;
  // group equal values
  std::map<Expr*,std::vector<u64>> g; 
  struct L{ Expr* v; std::vector<u64> as; }; std::vector<L> ls; std::unordered_map<Expr*,int> ix;
  for(u64 a: c){ Value v=loadConc(a,w); Expr* x=v.e?v.e:mkConst(v.c,w); auto it=ix.find(x); if(it==ix.end()){ ix[x]=ls.size(); ls.push_back({x,{a}}); } else ls[it->second].as.push_back(a); }
  size_t big=0; for(size_t i=1;i<ls.size();++i) if(ls[i].as.size()>ls[big].as.size()) big=i;
  Expr* r=ls[big].v;
  for(size_t i=0;i<ls.size();++i) if(i!=big){ Expr* cnd=mkConst(0,1); for(u64 a: ls[i].as) cnd=mkBin(K_OR,cnd,mkBin(K_EQ,e,mkConst(a,64))); r=mkIte(cnd,ls[i].v,r); }
  return norm(r);
}
static void storeMem(Value p,i64 off,Value v,int w){
  if(v.e) { Expr* t=substFixed(v.e); if(t->k==K_CONST) v={t->v,0}; else v.e=t; }
  if(!p.e){ storeConc(p.c+off,v,w); return; }
  Expr* e=substFixed(p.e); if(off) e=mkBin(K_ADD,e,mkConst(off,64));
  if(e->k==K_CONST){ storeConc(e->v,v,w); return; }
  int n=(w+7)/8; std::vector<u64> c;
  if(!addrCands(e,n,true,c,muxCap?muxCap:300,muxCap?muxCap:40)){ storeConc(e->v,v,w); return; }
  if(e->k==K_CONST){ storeConc(e->v,v,w); return; }
  S->muxStores++;
  Expr* nv=v.e?v.e:mkConst(v.c,w);
  for(u64 a: c){ Value o=loadConc(a,w); Expr* ov=o.e?o.e:mkConst(o.c,w); Expr* x=mkIte(mkBin(K_EQ,e,mkConst(a,64)),nv,ov); storeConc(a,x->k==K_CONST?Value{x->v,0}:Value{0,x},w); }
}
static void copyMem(u64 d,u64 s,u64 n){
  if(!n) return;
  needAddr(s,n,false); needAddr(d,n,true);
  u8* ss=SHB(s); u8* ds=SHB(d);
  bool plain=true; { u64 i=0; for(;i+8<=n;i+=8) if(*(u64*)(ss+i)!=ONES){ plain=false; break; } for(;plain&&i<n;++i) if(ss[i]!=1) plain=false; }
  if(plain){ memmove((void*)d,(void*)s,n); memset(ds,1,n); return; }
  // keep expressions of symbolic bytes
  memmove((void*)d,(void*)s,n); 
  if(d<s){ for(u64 i=0;i<n;++i){ if(ss[i]==2) SXB(d)[i]=SXB(s)[i]; else if(ss[i]==3){ undefByte(s+i); SXB(d)[i]=SXB(s)[i]; } ds[i]=ss[i]; } }
  else for(u64 i=n;i-->0;){ if(ss[i]==2) SXB(d)[i]=SXB(s)[i]; else if(ss[i]==3){ undefByte(s+i); SXB(d)[i]=SXB(s)[i]; } ds[i]=ss[i]; }
}
static void setMem(u64 d,Value v,u64 n){
  if(!n) return; needAddr(d,n,true);
  if(!v.e){ memset((void*)d,(int)v.c,n); memset(SHB(d),1,n); } else for(u64 i=0;i<n;++i) storeConc(d+i,v,8);
}
static u64 heapAlloc(u64 n){
  if(n>0x100000000ull) incomplete("allocation larger than 4 GB");
  u64 a=heapTop; heapTop+=((n+15)&~15ull)+48; if(heapTop>=REGION_END) incomplete("heap exhausted");
  memset(SHB(a),3,n); heapObjs[a]=n; return a;
}
static void heapFree(u64 a,const char* what){
  if(!a) return; auto it=heapObjs.find(a); if(it==heapObjs.end()) fatalViolation("memory",std::string(what)+" of a pointer that is not a live heap object: "+hex(a));
  memset(SHB(a),0,it->second); 
  if(it->second>=65536){ u64 l=(a+4095)&~4095ull, h=(a+it->second)&~4095ull; if(h>l){ madvise((void*)l,h-l,MADV_DONTNEED); madvise(SXB(l),(h-l)*8,MADV_DONTNEED); } }
  heapObjs.erase(it);
}
static u64 stackAlloc(u64 n,int lg){ u64 al=std::max(16ull,1ull<<lg); u64 a=(sp_+al-1)&~(al-1); sp_=a+((n+15)&~15ull)+32; if(sp_>=STACK_BASE+STACK_SIZE) fatalViolation("stack","stack exhausted (1 GB)"); memset(SHB(a),3,n); return a; }
static void stackPop(u64 sp){ if(sp_>sp) memset(SHB(sp),0,sp_-sp); sp_=sp; }
static std::string cstr(u64 a){ std::string s; for(;inRegion(a,1)&&*SHB(a)==1&&*(char*)a;++a) s+=*(char*)a; return s; }

// ------------------------------------------------------------------ externals
enum Nat { N_NONE, N_LIVE, N_MALLOC, N_CALLOC, N_REALLOC, N_FREE, N_NEW, N_DELETE, N_ASSERT, N_EXIT, N_THROW, N_RET0, N_RETARG0, N_SYMU, N_CHOICE, N_ASSUME, N_SASSERT, N_REACH, N_CONC, N_PARAM, N_DEFINED, N_F1, N_POW, N_PRINT, N_SYMFILL, N_ISSYM, N_UNREACH, N_MEMCPY, N_MEMSET, N_BUDGET, N_ABORTOK, N_USABLE, N_DUMP };
struct NatF { Nat n; int sub; };
static std::vector<NatF> nat;
static NatF natOf(const std::string& s){
  static std::map<std::string,NatF> m={
    {"malloc",{N_MALLOC,0}},{"calloc",{N_CALLOC,0}},{"realloc",{N_REALLOC,0}},{"free",{N_FREE,0}},{"_Znwm",{N_NEW,0}},{"_Znam",{N_NEW,0}},{"_ZnwmRKSt9nothrow_t",{N_NEW,0}},{"_ZnamRKSt9nothrow_t",{N_NEW,0}},
    {"_ZdlPv",{N_DELETE,0}},{"_ZdaPv",{N_DELETE,0}},{"_ZdlPvm",{N_DELETE,0}},{"_ZdaPvm",{N_DELETE,0}},{"_ZdlPvRKSt9nothrow_t",{N_DELETE,0}},{"_ZdaPvRKSt9nothrow_t",{N_DELETE,0}},
    {"__assert_fail",{N_ASSERT,0}},{"exit",{N_EXIT,0}},{"_exit",{N_EXIT,0}},{"abort",{N_EXIT,1}},{"_ZSt9terminatev",{N_EXIT,2}},
    {"__cxa_throw",{N_THROW,0}},{"__cxa_rethrow",{N_THROW,0}},{"__cxa_allocate_exception",{N_NEW,0}},{"__cxa_pure_virtual",{N_EXIT,3}},
    {"__cxa_atexit",{N_RET0,0}},{"atexit",{N_RET0,0}},{"__cxa_guard_acquire",{N_RET0,0}},{"__cxa_guard_release",{N_RET0,0}},
    {"printf",{N_RET0,0}},{"fprintf",{N_RET0,0}},{"puts",{N_RET0,0}},{"putchar",{N_RET0,0}},{"perror",{N_RET0,0}},{"fputs",{N_RET0,0}},{"__cxa_begin_catch",{N_RET0,0}},{"__cxa_end_catch",{N_RET0,0}},
    {"_ZNSt8ios_base4InitC1Ev",{N_RET0,0}},{"_ZNSt8ios_base4InitD1Ev",{N_RET0,0}},{"_ZNKSt5ctypeIcE13_M_widen_initEv",{N_RET0,0}},
    {"sym_u",{N_SYMU,0}},{"sym_choice",{N_CHOICE,0}},{"sym_assume",{N_ASSUME,0}},{"sym_assert",{N_SASSERT,0}},{"sym_reach",{N_REACH,0}},{"sym_concretize",{N_CONC,0}},
    {"sym_param",{N_PARAM,0}},{"sym_defined",{N_DEFINED,0}},{"sym_print",{N_PRINT,0}},{"sym_is_symbolic",{N_ISSYM,0}},{"sym_budget",{N_BUDGET,0}},{"sym_dump",{N_DUMP,0}},{"sym_live",{N_LIVE,0}},
    {"log",{N_F1,4}},{"log2",{N_F1,5}},{"sqrt",{N_F1,3}},{"floor",{N_F1,1}},{"ceil",{N_F1,2}},{"exp",{N_F1,9}},{"log10",{N_F1,10}},{"pow",{N_POW,0}},{"round",{N_F1,7}},{"fabs",{N_F1,0}},
    {"memcpy",{N_MEMCPY,0}},{"memmove",{N_MEMCPY,0}},{"memset",{N_MEMSET,0}}
  };
  auto it=m.find(s); if(it!=m.end()) return it->second;
  if(s.compare(0,10,"_ZSt9__thr")==0||s.find("__throw_")!=std::string::npos) return {N_THROW,0};
  if(s.compare(0,5,"_ZNSo")==0||s.find("ostream")!=std::string::npos||s.compare(0,6,"_ZStls")==0||s.find("basic_ios")!=std::string::npos) return {N_RETARG0,0};
  return {N_NONE,0};
}
static double asD(u64 v){ double d; memcpy(&d,&v,8); return d; } static u64 fromD(double d){ u64 v; memcpy(&v,&d,8); return v; }
static float asF(u64 v){ u32 x=(u32)v; float f; memcpy(&f,&x,4); return f; } static u64 fromF(float f){ u32 x; memcpy(&x,&f,4); return x; }
static double fget(u64 v,int w){ return w==64?asD(v):(double)asF(v); } static u64 fput(double d,int w){ return w==64?fromD(d):fromF((float)d); }
static double fun1(int k,double x){ switch(k){ case 0: return fabs(x); case 1: return floor(x); case 2: return ceil(x); case 3: return sqrt(x); case 4: return log(x); case 5: return log2(x); case 6: return nearbyint(x); case 7: return round(x); case 8: return trunc(x); case 9: return exp(x); case 10: return log10(x);} return x; }
static Expr* asE(Value v,int w){ return v.e?v.e:mkConst(v.c,w); }
static Value fromE(Expr* e){ if(e->k==K_CONST) return {e->v,0}; return {0,e}; }
static void reach(const std::string& n){
  lockS(); int i; for(i=0;i<64;++i){ if(!S->reach[i].name[0]){ snprintf(S->reach[i].name,64,"%s",n.c_str()); } if(!strncmp(S->reach[i].name,n.c_str(),63)){ S->reach[i].n++; break; } } unlockS();
}
static Value newInput(const std::string& name,int bits){
  if(concreteMode){ u64 v=inputs.size()<concreteVals.size()?concreteVals[inputs.size()]:0; inputNames.push_back(name); inputs.push_back({-1,bits}); inputConst.push_back(v&msk(bits)); return {v&msk(bits),0}; }
  Expr* e=mkVar(name+"#"+std::to_string(inputs.size()),bits,false,true); inputNames.push_back(name); inputs.push_back({(int)e->v,bits}); inputConst.push_back(0); return {0,e};
}
static Value callNative(u32 fn,Value* a,int n){
  NatF f=nat[fn];
  switch(f.n){
  case N_MALLOC: { return {heapAlloc(conc(a[0])),0}; }
  case N_NEW: { u64 s=conc(a[0]); return {heapAlloc(s),0}; }
  case N_CALLOC: { u64 s=conc(a[0])*conc(a[1]); u64 p=heapAlloc(s); memset(SHB(p),1,s); return {p,0}; }
  case N_REALLOC: { u64 p=conc(a[0]),s=conc(a[1]); u64 q=heapAlloc(s); if(p){ auto it=heapObjs.find(p); if(it==heapObjs.end()) fatalViolation("memory","realloc of a bad pointer"); u64 k=std::min(it->second,s);
      u8* ss=SHB(p); u8* ds=SHB(q); memcpy((void*)q,(void*)p,k); for(u64 i=0;i<k;++i){ ds[i]=ss[i]; if(ss[i]==2) SXB(q)[i]=SXB(p)[i]; } heapFree(p,"realloc"); } return {q,0}; }
  case N_LIVE: { u64 n=0; if(conc(a[0])) for(auto& h:heapObjs) n+=h.second; else n=heapObjs.size(); return {n,0}; }
  case N_FREE: heapFree(conc(a[0]),"free"); return {0,0};
  case N_DELETE: heapFree(conc(a[0]),"delete"); return {0,0};
  case N_ASSERT: fatalViolation("assert","assertion failed: "+cstr(a[0].c)+" ("+cstr(a[1].c)+":"+std::to_string(a[2].c)+")");
  case N_EXIT: { static const char* w[]={"exit called","abort called","terminate called","pure virtual call"}; fatalViolation("abort",w[f.sub]); }
  case N_THROW: fatalViolation("exception",std::string("exception thrown: ")+(strs+funcs[fn].name));
  case N_RET0: return {0,0};
  case N_RETARG0: return a[0];
  case N_SYMU: { std::string nm=cstr(conc(a[0])); return [&]{ int b=(int)conc(a[1]); Value v=newInput(nm,b); if(v.e) v.e=mkZext(v.e,64); return v; }(); }
  case N_CHOICE: { std::string nm=cstr(conc(a[0])); u64 k=conc(a[1]); if(k==0){ S->infeasible++; S->paths++; endPath(); } int b=1; while((1ull<<b)<k) ++b; Value v=newInput(nm,b);
      if(!v.e) return {v.c%k,0};
      Expr* in=mkBin(K_ULT,mkZext(v.e,64),mkConst(k,64)); if(in->k!=K_CONST) assume(in);
      // the fresh variable's model value 0 satisfies the range
      return {concretize(mkZext(v.e,64)),0}; }
  case N_ASSUME: { if(!a[0].e){ if(!a[0].c){ S->infeasible++; endPath(); } return {0,0}; }
      Expr* c=substFixed(a[0].e); if(c->w!=1) c=mkNot(mkBin(K_EQ,c,mkConst(0,c->w)));
      if(c->k==K_CONST){ if(!c->v){ S->infeasible++; endPath(); } return {0,0}; }
      if(!evalExpr(c)){ int r=feasible(c); if(!r){ S->infeasible++; endPath(); } if(r==1) useModel(); }
      assume(c); return {0,0}; }
  case N_SASSERT: { S->asserts++; std::string msg=cstr(conc(a[1]));
      if(!a[0].e){ if(!a[0].c) fatalViolation("property",msg); return {0,0}; }
      Expr* c=substFixed(a[0].e); if(c->w!=1) c=mkNot(mkBin(K_EQ,c,mkConst(0,c->w)));
      if(c->k==K_CONST){ if(!c->v) fatalViolation("property",msg); return {0,0}; }
      S->assertQ++;
      if(!evalExpr(c)) { violation("property",msg); checkTime(); int r=feasible(c); if(!r){ S->paths++; endPath(); } if(r==1) useModel(); assume(c); return {0,0}; }
      int r=query(mkNot(c));
      if(r==1){ std::vector<u64> save; for(auto& V: g_vars) save.push_back(V.model); useModel(); violation("property",msg); for(size_t i=0;i<save.size();++i) g_vars[i].model=save[i]; ++g_modelEpoch; checkTime(); assume(c); }
      else if(r<0){ S->incomplete++; u64 i=S->nInc++; if(i<16) snprintf(S->incWhy[i],200,"solver limit at assertion: %s",msg.c_str()); }
      else { c->dec=1; }
      return {0,0}; }
  case N_REACH: reach(cstr(conc(a[0]))); return {0,0};
  case N_CONC: return {conc(a[0]),0};
  case N_PARAM: { std::string nm=cstr(conc(a[0])); auto it=params.find(nm); return {it==params.end()?a[1].c:(u64)it->second,0}; }
  case N_DEFINED: { u64 p=conc(a[0]),l=conc(a[1]); std::string msg=cstr(conc(a[2])); if(l) needAddr(p,l,false);
      for(u64 i=0;i<l;++i){ u8 s=*SHB(p+i); if(s==1) continue; Expr* e=substFixed(byteAt(p+i)); if(e->undef&&undefDependent(e)){ useModel(); fatalViolation("undef-output",msg+" (byte "+std::to_string(i)+" depends on uninitialised memory)"); } } return {0,0}; }
  case N_F1: return {fromD(fun1(f.sub,asD(conc(a[0])))),0};
  case N_POW: return {fromD(pow(asD(conc(a[0])),asD(conc(a[1])))),0};
  case N_PRINT: if(traceMode){ Expr* e=a[1].e?substFixed(a[1].e):mkConst(a[1].c,64); fprintf(stderr,"[%d] %s %s\n",(int)getpid(),cstr(conc(a[0])).c_str(),exprStr(e,6).c_str()); } return {0,0};
  case N_DUMP: { u64 p=conc(a[0]),l=conc(a[1]); std::string h; for(u64 i=0;i<l;++i){ char b[4]; Expr* e=substFixed(byteAt(p+i)); snprintf(b,4,"%02x",(unsigned)evalExpr(e)); h+=b; } if(concreteMode) printf("DUMP %s\n",h.c_str()); return {0,0}; }
  case N_ISSYM: return {a[0].e?1ull:0,0};
  case N_BUDGET: budget=localInstr+conc(a[0]); return {0,0};
  case N_MEMCPY: copyMem(conc(a[0]),conc(a[1]),conc(a[2])); return a[0];
  case N_MEMSET: { Value v=a[1]; if(v.e) v=fromE(mkExtract(v.e,0,8)); else v.c&=255; setMem(conc(a[0]),v,conc(a[2])); return a[0]; }
  default: { std::string s=std::string("unmodelled external function ")+(strs+funcs[fn].name)+" called from "+where().substr(0,120); incomplete(s.c_str()); }
  }
}
// ------------------------------------------------------------------ interpreter
static void pushFrame(u32 fn,Value* a,int n,int retDst,int nret){
  Func& f=funcs[fn];
  if(stack_.size()>20000) fatalViolation("stack","call depth exceeds 20000");
  Frame fr; fr.fn=fn; fr.pc=f.start; fr.base=regTop; fr.sp=sp_; fr.retDst=retDst; fr.nret=nret; fr.cov=curCov;
  regTop+=f.nregs; if(regTop>REGMAX) fatalViolation("stack","register stack exhausted");
  for(int i=0;i<n&&i<(int)f.nparams;++i) regs[fr.base+i]=a[i];
  stack_.push_back(fr);
}
static Kind binKind(int o){ switch(o){ case O_ADD: return K_ADD; case O_SUB: return K_SUB; case O_MUL: return K_MUL; case O_UDIV: return K_UDIV; case O_SDIV: return K_SDIV; case O_UREM: return K_UREM; case O_SREM: return K_SREM; case O_AND: return K_AND; case O_OR: return K_OR; case O_XOR: return K_XOR; case O_SHL: return K_SHL; case O_LSHR: return K_LSHR; case O_ASHR: return K_ASHR; } return K_ADD; }
static Expr* cmpE(int o,Expr* a,Expr* b){
  switch(o){ case O_EQ: return mkBin(K_EQ,a,b); case O_NE: return mkNot(mkBin(K_EQ,a,b)); case O_ULT: return mkBin(K_ULT,a,b); case O_ULE: return mkBin(K_ULE,a,b); case O_UGT: return mkBin(K_ULT,b,a); case O_UGE: return mkBin(K_ULE,b,a);
  case O_SLT: return mkBin(K_SLT,a,b); case O_SLE: return mkBin(K_SLE,a,b); case O_SGT: return mkBin(K_SLT,b,a); default: return mkBin(K_SLE,b,a); } }
static u64 shAmt(u64 v,int w){ return (w==32||w==64)?v&(w-1):v; }
static Value symBin(int o,Value x,Value y,int w){
  Expr *a=asE(x,w),*b=asE(y,w);
  if(o>=O_EQ&&o<=O_SGE) return fromE(cmpE(o,a,b));
  if(o==O_UDIV||o==O_SDIV||o==O_UREM||o==O_SREM){
    Expr* z=mkBin(K_EQ,b,mkConst(0,w)); S->memQ++;
    if(branch(z)) fatalViolation("div","division by zero");
    b=substFixed(b);
  }
  if(o==O_SHL||o==O_LSHR||o==O_ASHR) if(w==32||w==64) b=mkBin(K_AND,b,mkConst(w-1,w));
  return fromE(mkBin(binKind(o),a,b));
}
static void run(size_t stopDepth){
  Frame* F=&stack_.back(); Value* R=regs+F->base; Op* op=ops+F->pc; static Value tmp[4096];
  u8* covp=S->cov; u64 cnt=0;
#define GET(i) ((i)>=0?R[i]:consts[~(i)])
#define PC() (F->pc=(u32)(op-ops))
  for(;;){
    Op& o=*op++; 
    if(++cnt>=1048576){ localInstr+=cnt; cnt=0; PC(); checkTime(); if(localInstr>budget){ fatalViolation("budget","instruction budget exceeded (possible non-termination)"); }
      static int rc=0; if((++rc&15)==0&&rssMB()>memLimitMB) incomplete("memory budget"); }
    switch(o.opc){
    case O_NOP: break;
    case O_MOV: R[o.dst]=GET(o.a); break;
#define ARITH(OPC,EXPR) case OPC: { const Value& x=GET(o.a); const Value& y=GET(o.b); if(!x.e&&!y.e){ u64 p=x.c,q=y.c; (void)p;(void)q; R[o.dst]={(EXPR)&msk(o.w),0}; } else { PC(); Value r=symBin(o.opc,x,y,o.w); R=regs+F->base; R[o.dst]=r; } break; }
    ARITH(O_ADD,p+q) ARITH(O_SUB,p-q) ARITH(O_MUL,p*q) ARITH(O_AND,p&q) ARITH(O_OR,p|q) ARITH(O_XOR,p^q)
    ARITH(O_SHL,foldBin(K_SHL,p,shAmt(q,o.w),o.w)) ARITH(O_LSHR,foldBin(K_LSHR,p,shAmt(q,o.w),o.w)) ARITH(O_ASHR,foldBin(K_ASHR,p,shAmt(q,o.w),o.w))
    case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: { Value x=GET(o.a),y=GET(o.b); PC(); if(!x.e&&!y.e){ if(!y.c) fatalViolation("div","division by zero"); R[o.dst]={foldBin(binKind(o.opc),x.c,y.c,o.w),0}; } else R[o.dst]=symBin(o.opc,x,y,o.w); break; }
#define CMP(OPC,EXPR) case OPC: { const Value& x=GET(o.a); const Value& y=GET(o.b); if(!x.e&&!y.e){ u64 p=x.c,q=y.c; R[o.dst]={(u64)(EXPR),0}; } else { PC(); R[o.dst]=symBin(o.opc,x,y,o.w); } break; }
    CMP(O_EQ,p==q) CMP(O_NE,p!=q) CMP(O_ULT,p<q) CMP(O_ULE,p<=q) CMP(O_UGT,p>q) CMP(O_UGE,p>=q)
    CMP(O_SLT,sx(p,o.w)<sx(q,o.w)) CMP(O_SLE,sx(p,o.w)<=sx(q,o.w)) CMP(O_SGT,sx(p,o.w)>sx(q,o.w)) CMP(O_SGE,sx(p,o.w)>=sx(q,o.w))
    case O_SELECT: { Value c=GET(o.a); if(!c.e) R[o.dst]=c.c?GET(o.b):GET(o.c); else { Value x=GET(o.b),y=GET(o.c); Expr* ce=substFixed(c.e); if(ce->k==K_CONST) R[o.dst]=ce->v?x:y; else if(ce->dec) R[o.dst]=ce->dec==1?x:y; else {
        R[o.dst]=fromE(mkIte(ce,asE(x,o.w),asE(y,o.w))); } } break; }
    case O_ZEXT: { const Value& x=GET(o.a); if(!x.e) R[o.dst]=x; else R[o.dst]=fromE(mkZext(x.e,o.w2)); break; }
    case O_SEXT: { const Value& x=GET(o.a); if(!x.e) R[o.dst]={(u64)sx(x.c,o.w)&msk(o.w2),0}; else R[o.dst]=fromE(mkSext(x.e,o.w2)); break; }
    case O_TRUN: { const Value& x=GET(o.a); if(!x.e) R[o.dst]={x.c&msk(o.w2),0}; else R[o.dst]=fromE(mkExtract(x.e,0,o.w2)); break; }
    case O_GEP: { const Value& x=GET(o.a); if(!x.e) R[o.dst]={x.c+(u64)o.imm,0}; else R[o.dst]=fromE(mkBin(K_ADD,x.e,mkConst(o.imm,64))); break; }
    case O_GEPX: { const Value& x=GET(o.a); const Value& y=GET(o.b); if(!x.e&&!y.e) R[o.dst]={x.c+(u64)(sx(y.c,o.w)*o.imm),0}; else { Expr* i=asE(y,o.w); if(o.w<64) i=mkSext(i,64); R[o.dst]=fromE(mkBin(K_ADD,asE(x,64),mkBin(K_MUL,i,mkConst(o.imm,64)))); } break; }
    case O_LOAD: { PC(); Value p=GET(o.a); Value v=loadMem(p,o.imm,o.w); R[o.dst]=v; break; }
    case O_STORE: { PC(); Value p=GET(o.a); storeMem(p,o.imm,GET(o.b),o.w); break; }
    case O_ALLOCA: { u64 n=o.imm; PC(); if(o.a!=INT32_MAX) n*=conc(GET(o.a)); u64 p=stackAlloc(n,o.w); R[o.dst]={p,0}; break; }
    case O_BYVAL: { PC(); u64 s=conc(GET(o.a)); u64 p=stackAlloc(o.imm,o.w); copyMem(p,s,o.imm); R[o.dst]={p,0}; break; }
    case O_COV: covp[o.imm]=1; curCov=(int)o.imm; break;
    case O_CBR: { const Value& c=GET(o.a); bool t; if(!c.e) t=c.c; else { PC(); t=branch(c.e); } Edge& e=edges[t?o.b:o.c];
        if(e.nmv==1){ Move& m=moves[e.mv]; R[m.dst]=GET(m.src); } else if(e.nmv){ for(u32 i=0;i<e.nmv;++i) tmp[i]=GET(moves[e.mv+i].src); for(u32 i=0;i<e.nmv;++i) R[moves[e.mv+i].dst]=tmp[i]; }
        op=ops+e.target; break; }
    case O_BR: { Edge& e=edges[o.c];
        if(e.nmv==1){ Move& m=moves[e.mv]; R[m.dst]=GET(m.src); } else if(e.nmv){ for(u32 i=0;i<e.nmv;++i) tmp[i]=GET(moves[e.mv+i].src); for(u32 i=0;i<e.nmv;++i) R[moves[e.mv+i].dst]=tmp[i]; }
        op=ops+e.target; break; }
    case O_SWITCH: { Value c=GET(o.a); int en=o.b; PC();
        if(c.e){ Expr* s=substFixed(c.e); if(s->k==K_CONST) c={s->v,0}; else c.e=s; }
        if(!c.e){ for(int i=0;i<o.c;++i) if(cases_[o.imm+i].val==c.c){ en=cases_[o.imm+i].edge; break; } }
        else { // group cases by target
          std::map<u32,Expr*> byT; std::vector<u32> order; Expr* none=mkConst(1,1);
          for(int i=0;i<o.c;++i){ Case& k=cases_[o.imm+i]; Expr* q=mkBin(K_EQ,c.e,mkConst(k.val,o.w)); u32 t=k.edge; auto it=byT.find(t); if(it==byT.end()){ byT[t]=q; order.push_back(t); } else it->second=mkBin(K_OR,it->second,q); }
          (void)none; bool done=false;
          for(u32 t: order) if(branch(byT[t])){ en=t; done=true; break; }
          (void)done; }
        Edge& e=edges[en]; for(u32 i=0;i<e.nmv;++i) tmp[i]=GET(moves[e.mv+i].src); for(u32 i=0;i<e.nmv;++i) R[moves[e.mv+i].dst]=tmp[i];
        op=ops+e.target; break; }
    case O_CALL: case O_CALLI: {
        PC(); u32 fn; if(o.opc==O_CALL) fn=o.a; else { u64 t=conc(GET(o.a)); if(t<FUNC_BASE||(t-FUNC_BASE)%16||(t-FUNC_BASE)/16>=H->funcs.n) fatalViolation("memory","call through bad function pointer "+hex(t)); fn=(t-FUNC_BASE)/16; }
        for(int i=0;i<o.c;++i) tmp[i]=GET(argtab[o.b+i]);
        if(funcs[fn].nops==0){ Value av[32]; for(int i=0;i<o.c&&i<32;++i) av[i]=tmp[i]; localInstr+=cnt; cnt=0; Value r=callNative(fn,av,o.c); R=regs+F->base; if(o.imm>0) R[o.dst]=r; break; }
        pushFrame(fn,tmp,o.c,o.dst,o.imm); F=&stack_.back(); R=regs+F->base; op=ops+F->pc; break; }
    case O_RET: {
        for(int i=0;i<o.c;++i) tmp[i]=GET(argtab[o.a+i]);
        int d=F->retDst,n=F->nret; stackPop(F->sp); regTop=F->base; curCov=F->cov; stack_.pop_back();
        if(stack_.size()==stopDepth){ localInstr+=cnt; return; }
        F=&stack_.back(); R=regs+F->base; op=ops+F->pc;
        for(int i=0;i<n&&i<o.c;++i) R[d+i]=tmp[i];
        break; }
    case O_UNREACHABLE: PC(); fatalViolation("unreachable","unreachable code or trap executed");
    case O_UNSUPPORTED: { PC(); std::string s=std::string("unsupported instruction: ")+(strs+o.imm); incomplete(s.c_str()); }
    case O_UMIN: case O_UMAX: case O_SMIN: case O_SMAX: { Value x=GET(o.a),y=GET(o.b); if(!x.e&&!y.e){ bool t; i64 p=sx(x.c,o.w),q=sx(y.c,o.w); switch(o.opc){ case O_UMIN: t=x.c<y.c; break; case O_UMAX: t=x.c>y.c; break; case O_SMIN: t=p<q; break; default: t=p>q; } R[o.dst]=t?x:y; }
        else { Expr *a=asE(x,o.w),*b=asE(y,o.w); Expr* c=o.opc==O_UMIN?mkBin(K_ULT,a,b):o.opc==O_UMAX?mkBin(K_ULT,b,a):o.opc==O_SMIN?mkBin(K_SLT,a,b):mkBin(K_SLT,b,a); R[o.dst]=fromE(mkIte(c,a,b)); } break; }
    case O_USUBSAT: { Value x=GET(o.a),y=GET(o.b); Expr *a=asE(x,o.w),*b=asE(y,o.w); R[o.dst]=fromE(mkIte(mkBin(K_ULT,a,b),mkConst(0,o.w),mkBin(K_SUB,a,b))); break; }
    case O_UADDSAT: { Value x=GET(o.a),y=GET(o.b); Expr *a=asE(x,o.w),*b=asE(y,o.w); Expr* s=mkBin(K_ADD,a,b); R[o.dst]=fromE(mkIte(mkBin(K_ULT,s,a),mkConst(~0ull,o.w),s)); break; }
    case O_CTLZ: case O_CTTZ: { Value x=GET(o.a); int w=o.w; bool l=o.opc==O_CTLZ; if(!x.e){ u64 r=w; if(x.c) r=l?__builtin_clzll(x.c)-(64-w):__builtin_ctzll(x.c); R[o.dst]={r,0}; }
        else if(l){ PC(); // the position of the highest bit decides shifts and loop counts: one path per value
          for(;;){ Expr* e=substFixed(x.e); if(e->k==K_CONST){ R[o.dst]={e->v?(u64)__builtin_clzll(e->v)-(64-w):(u64)w,0}; break; }
            u64 v=evalExpr(e); if(!v){ if(branch(mkBin(K_EQ,e,mkConst(0,w)))){ R[o.dst]={(u64)w,0}; break; } continue; }
            int k=63-__builtin_clzll(v); Expr* hi=mkExtract(e,k,w-k); if(branch(mkBin(K_EQ,hi,mkConst(1,w-k)))){ R[o.dst]={(u64)(w-1-k),0}; break; } } }
        else { Expr* r=mkConst(w,w); for(int i=0;i<w;++i){ int bit=l?i:w-1-i; r=mkIte(mkExtract(x.e,bit,1),mkConst(l?w-1-bit:bit,w),r); } R[o.dst]=fromE(r); } break; }
    case O_CTPOP: { Value x=GET(o.a); if(!x.e) R[o.dst]={(u64)__builtin_popcountll(x.c),0}; else { Expr* r=mkConst(0,o.w); for(int i=0;i<o.w;++i) r=mkBin(K_ADD,r,mkZext(mkExtract(x.e,i,1),o.w)); R[o.dst]=fromE(r); } break; }
    case O_BSWAP: { Value x=GET(o.a); Expr* e=asE(x,o.w); Expr* r=mkExtract(e,0,8); for(int i=1;i<o.w/8;++i) r=mkConcat(r,mkExtract(e,8*i,8)); R[o.dst]=fromE(r); break; }
    case O_BITREV: { Value x=GET(o.a); Expr* e=asE(x,o.w); Expr* r=mkExtract(e,0,1); for(int i=1;i<o.w;++i) r=mkConcat(r,mkExtract(e,i,1)); R[o.dst]=fromE(r); break; }
    case O_FSHL: case O_FSHR: { Value x=GET(o.a),y=GET(o.b),z=GET(o.c); PC(); u64 s=conc(z)%o.w; Expr *a=asE(x,o.w),*b=asE(y,o.w); Expr* r; if(o.opc==O_FSHR) s=(o.w-s); 
        if(o.opc==O_FSHR&&s==o.w) r=b; else if(s==0) r=a; else r=mkConcat(mkExtract(a,0,o.w-s),mkExtract(b,o.w-s,s)); R[o.dst]=fromE(r); break; }
    case O_ABS: { Value x=GET(o.a); Expr* a=asE(x,o.w); R[o.dst]=fromE(mkIte(mkBin(K_SLT,a,mkConst(0,o.w)),mkBin(K_SUB,mkConst(0,o.w),a),a)); break; }
    case O_UADDO: case O_USUBO: case O_UMULO: case O_SADDO: case O_SSUBO: case O_SMULO: { Value x=GET(o.a),y=GET(o.b); PC(); int w=o.w;
        if(o.opc==O_UMULO||o.opc==O_SMULO){ u64 p=conc(x),q=conc(y); bool ov; u64 r; if(o.opc==O_UMULO){ unsigned __int128 t=(unsigned __int128)p*q; r=(u64)t&msk(w); ov=t>msk(w); } else { __int128 t=(__int128)sx(p,w)*sx(q,w); r=(u64)t&msk(w); ov=(__int128)sx(r,w)!=t; } R[o.dst]={r,0}; R[o.dst+1]={ov,0}; break; }
        Expr *a=asE(x,w),*b=asE(y,w); Expr* r=mkBin((o.opc==O_UADDO||o.opc==O_SADDO)?K_ADD:K_SUB,a,b); Expr* ov;
        if(o.opc==O_UADDO) ov=mkBin(K_ULT,r,a); else if(o.opc==O_USUBO) ov=mkBin(K_ULT,a,b);
        else { Expr* sa=mkExtract(a,w-1,1); Expr* sb=mkExtract(b,w-1,1); Expr* sr=mkExtract(r,w-1,1); if(o.opc==O_SSUBO) sb=mkNot(sb); ov=mkBin(K_AND,mkNot(mkBin(K_XOR,sa,sb)),mkBin(K_XOR,sa,sr)); }
        R[o.dst]=fromE(r); R[o.dst+1]=fromE(ov); break; }
    case O_MEMCPY: case O_MEMMOVE: { PC(); u64 d=conc(GET(o.a)); u64 s=conc(GET(o.b)); u64 n=conc(GET(o.c)); copyMem(d,s,n); cnt+=n/16; break; }
    case O_MEMSET: { PC(); u64 d=conc(GET(o.a)); Value v=GET(o.b); u64 n=conc(GET(o.c)); setMem(d,v,n); cnt+=n/16; break; }
    case O_STACKSAVE: R[o.dst]={sp_,0}; break;
    case O_STACKRESTORE: stackPop(conc(GET(o.a))); break;
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: { PC(); double x=fget(conc(GET(o.a)),o.w),y=fget(conc(GET(o.b)),o.w),r; switch(o.opc){ case O_FADD: r=x+y; break; case O_FSUB: r=x-y; break; case O_FMUL: r=x*y; break; case O_FDIV: r=x/y; break; default: r=fmod(x,y); } R[o.dst]={fput(r,o.w),0}; break; }
    case O_FNEG: { PC(); R[o.dst]={fput(-fget(conc(GET(o.a)),o.w),o.w),0}; break; }
    case O_FMULADD: { PC(); double x=fget(conc(GET(o.a)),o.w),y=fget(conc(GET(o.b)),o.w),z=fget(conc(GET(o.c)),o.w); R[o.dst]={fput(x*y+z,o.w),0}; break; }
    case O_FUN1: { PC(); R[o.dst]={fput(fun1(o.w2,fget(conc(GET(o.a)),o.w)),o.w),0}; break; }
    case O_FCMP: { PC(); double x=fget(conc(GET(o.a)),o.w),y=fget(conc(GET(o.b)),o.w); bool un=x!=x||y!=y; int p=o.w2; bool r=false; // predicate bits: 1 eq, 2 gt, 4 lt, 8 unordered
        if(un) r=p&8; else if(x==y) r=p&1; else if(x>y) r=p&2; else r=p&4; R[o.dst]={(u64)r,0}; break; }
    case O_SITOFP: { PC(); u64 v=conc(GET(o.a)); double d=(double)sx(v,o.w); if(o.w2==32) R[o.dst]={fromF((float)sx(v,o.w)),0}; else R[o.dst]={fromD(d),0}; break; }
    case O_UITOFP: { PC(); u64 v=conc(GET(o.a)); if(o.w2==32) R[o.dst]={fromF((float)v),0}; else R[o.dst]={fromD((double)v),0}; break; }
    case O_FPTOSI: { PC(); double d=fget(conc(GET(o.a)),o.w); R[o.dst]={(u64)(i64)d&msk(o.w2),0}; break; }
    case O_FPTOUI: { PC(); double d=fget(conc(GET(o.a)),o.w); R[o.dst]={(u64)d&msk(o.w2),0}; break; }
    case O_FPEXT: { PC(); R[o.dst]={fromD((double)asF(conc(GET(o.a)))),0}; break; }
    case O_FPTRUNC: { PC(); R[o.dst]={fromF((float)asD(conc(GET(o.a)))),0}; break; }
    default: PC(); incomplete(("unknown opcode "+std::to_string(o.opc)).c_str());
    }
  }
}
static int findFunc(const std::string& n){ for(u64 i=0;i<H->funcs.n;++i) if(n==strs+funcs[i].name) return (int)i; return -1; }
static void callTop(u32 fn){ pushFrame(fn,0,0,0,0); run(stack_.size()-1); }
static void setupMemory(){
  auto mm=[&](u64 addr,u64 size)->void*{ void* p=mmap((void*)addr,size,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|(addr?MAP_FIXED_NOREPLACE:0),-1,0); if(p==MAP_FAILED){ perror("mmap"); exit(2); } return p; };
  mm(GLOBAL_BASE,REGION_END-GLOBAL_BASE); SH=(u8*)mm(0,REGION_END-GLOBAL_BASE); SX=(Expr**)mm(0,(REGION_END-GLOBAL_BASE)*8);
  madvise((void*)GLOBAL_BASE,REGION_END-GLOBAL_BASE,MADV_NOHUGEPAGE); madvise(SH,REGION_END-GLOBAL_BASE,MADV_NOHUGEPAGE); madvise(SX,(REGION_END-GLOBAL_BASE)*8,MADV_NOHUGEPAGE);
  auto g=sec<Glob>(H->globs); u8* img=sec<u8>(H->image);
  for(u64 i=0;i<H->globs.n;++i){ memcpy((void*)g[i].addr,img+g[i].img,g[i].size); memset(SHB(g[i].addr),1,g[i].size); }
  regs=(Value*)mm(0,REGMAX*sizeof(Value)); sp_=STACK_BASE+4096;
}
int main(int argc,char** argv){
  rlimit rl; getrlimit(RLIMIT_STACK,&rl);
  if(rl.rlim_cur!=RLIM_INFINITY&&rl.rlim_cur<(512ull<<20)&&!getenv("SYMX_STACK")){ rl.rlim_cur=rl.rlim_max==RLIM_INFINITY?(1024ull<<20):std::min<u64>(rl.rlim_max,1024ull<<20); setrlimit(RLIMIT_STACK,&rl); setenv("SYMX_STACK","1",1); execv("/proc/self/exe",argv); }
  std::string file,entry; double tl=0;
  for(int i=1;i<argc;++i){ std::string a=argv[i]; auto nx=[&]{ return std::string(i+1<argc?argv[++i]:""); };
    if(a=="--entry") entry=nx(); else if(a=="--out") outDir=nx(); else if(a=="--time") tl=atof(nx().c_str()); else if(a=="--jobs") jobs=atoi(nx().c_str()); else if(a=="--mux") muxCap=atoi(nx().c_str()); else if(a=="--budget") budget=strtoull(nx().c_str(),0,10);
    else if(a=="--rlimit") rlimit_=strtoul(nx().c_str(),0,10); else if(a=="--max-viol") maxViol=atoi(nx().c_str()); else if(a=="--undef-branch") undefBranch=true; else if(a=="--trace") traceMode=true;
    else if(a=="--param"){ std::string s=nx(); size_t e=s.find('='); params[s.substr(0,e)]=strtoll(s.c_str()+e+1,0,10); }
    else if(a=="--mem") memLimitMB=strtoull(nx().c_str(),0,10);
    else if(a=="--concrete"){ concreteMode=true; FILE* f=fopen(nx().c_str(),"r"); char nm[256]; int b; unsigned long long v; while(f&&fscanf(f,"%255s %d %llu",nm,&b,&v)==3) concreteVals.push_back(v); if(f) fclose(f); }
    else file=a; }
  if(file.empty()||entry.empty()||outDir.empty()){ fprintf(stderr,"usage: symx prog.xir --entry f --out dir [--time s] [--param k=v]...\n"); return 2; }
  mkdir(outDir.c_str(),0777);
  int fd=open(file.c_str(),O_RDONLY); struct stat st; if(fd<0||fstat(fd,&st)){ perror("open"); return 2; }
  P=(char*)mmap(0,st.st_size,PROT_READ,MAP_PRIVATE,fd,0); H=(Header*)P; if(H->magic!=MAGIC){ fprintf(stderr,"bad program\n"); return 2; }
  ops=sec<Op>(H->ops); edges=sec<Edge>(H->edges); moves=sec<Move>(H->moves); cases_=sec<Case>(H->cases); funcs=sec<Func>(H->funcs); argtab=sec<int32_t>(H->args); strs=sec<char>(H->strs);
  S=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); 
  if(H->covs.n>sizeof(S->cov)){ fprintf(stderr,"too many blocks\n"); return 2; }
  int en=findFunc(entry); if(en<0||!funcs[en].nops){ fprintf(stderr,"no entry %s\n",entry.c_str()); return 2; }
  nat.resize(H->funcs.n); for(u64 i=0;i<H->funcs.n;++i) nat[i]=natOf(strs+funcs[i].name);
  int pp[2]; if(pipe2(pp,O_NONBLOCK|O_CLOEXEC)){ return 2; } tokR=pp[0]; tokW=pp[1]; for(int i=1;i<jobs;++i) if(write(tokW,"t",1)!=1){}
  double t0=now(); if(tl>0) deadline=t0+tl;
  prctl(PR_SET_CHILD_SUBREAPER,1);
  pid_t root=fork();
  if(root==0){
    setpgid(0,0); setupMemory();
    auto cs=sec<xir::Const>(H->consts); consts.resize(H->consts.n); 
    initSolver();
    for(u64 i=0;i<H->consts.n;++i){ consts[i]={cs[i].val,0}; if(cs[i].undefw&&!concreteMode) consts[i].e=0; }
    auto ct=sec<uint32_t>(H->ctors); for(u64 i=0;i<H->ctors.n;++i) callTop(ct[i]);
    localInstr=0; callTop(en); S->paths++;
    if(!concreteMode){ u64 k=S->nSamples++; if(k<8){ std::string s; for(size_t i=0;i<inputs.size()&&s.size()<400;++i) s+=inputNames[i]+"="+std::to_string(inputs[i].first<0?inputConst[i]:g_vars[inputs[i].first].model)+" "; snprintf(S->samples[k],512,"%s",s.c_str()); } }
    endPath();
  }
  setpgid(root,root);
  int abn=0; bool killed=false;
  for(;;){ int s2; pid_t r=waitpid(-1,&s2,WNOHANG); if(r<0&&errno==ECHILD) break; if(r>0){ if(!WIFEXITED(s2)||WEXITSTATUS(s2)) ++abn; continue; }
    if(r==0){ if(deadline&&now()>deadline+15&&!killed){ kill(-root,SIGKILL); killed=true; S->incomplete++; } usleep(2000); } }
  double wall=now()-t0;
  FILE* f=fopen((outDir+"/result.json").c_str(),"w");
  auto js=[&](const char* s){ std::string o; for(;*s;++s){ if(*s=='"'||*s=='\\') o+='\\'; if((u8)*s>=32) o+=*s; } return o; };
  fprintf(f,"{\"entry\":\"%s\",\"wall_s\":%.3f,\"paths\":%llu,\"forks\":%llu,\"infeasible\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"finite_domain_decisions\":%llu,\"instructions\":%llu,\"violations\":%llu,\"incomplete\":%llu,\"crashed\":%llu,\"max_vars\":%llu,\"max_depth\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"safety_queries\":%llu,\"mux_loads\":%llu,\"mux_stores\":%llu,\"concretized\":%llu,\"stopped\":%llu,",
    entry.c_str(),wall,(unsigned long long)S->paths,(unsigned long long)S->forks,(unsigned long long)S->infeasible,(unsigned long long)S->queries,(unsigned long long)S->sat,(unsigned long long)S->unsat,(unsigned long long)S->unknown,S->solver_us/1e6,(unsigned long long)S->domdec,(unsigned long long)S->instrs,(unsigned long long)S->viol,(unsigned long long)S->incomplete,(unsigned long long)(S->crashed+abn),(unsigned long long)S->maxVars,(unsigned long long)S->maxDepth,(unsigned long long)S->asserts,(unsigned long long)S->assertQ,(unsigned long long)S->memQ,(unsigned long long)S->muxLoads,(unsigned long long)S->muxStores,(unsigned long long)S->concretized,(unsigned long long)S->stop);
  fprintf(f,"\"reach\":{"); bool first=true; for(int i=0;i<64&&S->reach[i].name[0];++i){ fprintf(f,"%s\"%s\":%llu",first?"":",",js(S->reach[i].name).c_str(),(unsigned long long)S->reach[i].n); first=false; } fprintf(f,"},");
  fprintf(f,"\"incomplete_reasons\":["); for(u64 i=0;i<S->nInc&&i<16;++i) fprintf(f,"%s\"%s\"",i?",":"",js(S->incWhy[i]).c_str()); fprintf(f,"],");
  fprintf(f,"\"samples\":["); for(u64 i=0;i<S->nSamples&&i<8;++i) fprintf(f,"%s\"%s\"",i?",":"",js(S->samples[i]).c_str()); fprintf(f,"],");
  std::set<std::string> fns; std::map<std::string,std::set<u32>> lines; auto covs=sec<Cov>(H->covs); auto poss=sec<Pos>(H->poss);
  for(u64 i=0;i<H->covs.n;++i) if(S->cov[i]) for(u32 k=0;k<covs[i].n;++k){ Pos& p=poss[covs[i].first+k]; fns.insert(strs+p.func); lines[strs+p.file].insert(p.line); }
  fprintf(f,"\"functions\":["); first=true; for(auto& s: fns){ fprintf(f,"%s\"%s\"",first?"":",",js(s.c_str()).c_str()); first=false; } fprintf(f,"],\"lines\":{"); first=true;
  for(auto& l: lines){ fprintf(f,"%s\"%s\":[",first?"":",",js(l.first.c_str()).c_str()); first=false; bool f2=true; for(u32 n: l.second){ fprintf(f,"%s%u",f2?"":",",n); f2=false; } fprintf(f,"]"); }
  fprintf(f,"}}\n"); fclose(f);
  return S->viol?1:0;
}
