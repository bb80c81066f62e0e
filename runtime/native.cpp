// Native replay of a harness: inputs come from a file "name bits value" per line,
// in creation order.  Exit status: 0 harness finished, 7 a property assertion failed,
// 9 an assumption does not hold (the replay is not valid).
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <map>
#include <sys/resource.h>
static std::vector<uint64_t> vals; static size_t at; static std::map<std::string,int64_t> prm;
static FILE* out(){ static FILE* f=fdopen(dup(2),"w"); return f; }
extern "C" {
static uint64_t nextVal(int b){ uint64_t v=at<vals.size()?vals[at]:0; ++at; return b>=64?v:v&((1ull<<b)-1); }
uint64_t sym_u(const char*,int b){ return nextVal(b); }
uint64_t sym_choice(const char*,uint64_t k){ int b=1; while((1ull<<b)<k) ++b; uint64_t v=nextVal(b); return k?v%k:0; }
void sym_assume(bool c){ if(!c){ fprintf(out(),"ASSUMPTION-FAILED\n"); fflush(out()); _exit(9); } }
void sym_assert(bool c,const char* m){ if(!c){ fprintf(out(),"PROPERTY-FAILED: %s\n",m); fflush(out()); _exit(7); } }
void sym_reach(const char*){}
uint64_t sym_concretize(uint64_t v){ return v; }
int64_t sym_param(const char* n,int64_t d){ std::map<std::string,int64_t>::iterator i=prm.find(n); return i==prm.end()?d:i->second; }
void sym_defined(const void* p,size_t n,const char*){ fprintf(out(),"OUT "); for(size_t i=0;i<n;++i) fprintf(out(),"%02x",((const unsigned char*)p)[i]); fprintf(out(),"\n"); fflush(out()); }
void sym_print(const char*,uint64_t){}
void sym_budget(uint64_t){}
void sym_dump(const void* p,size_t n){ fprintf(out(),"DUMP "); for(size_t i=0;i<n;++i) fprintf(out(),"%02x",((const unsigned char*)p)[i]); fprintf(out(),"\n"); fflush(out()); }
void rt_stdin(const char* n){ if(!freopen(n,"rb",stdin)) _exit(8); }
void rt_stdout(const char* n){ fflush(stdout); if(!freopen(n,"wb",stdout)) _exit(8); }
static std::map<std::string,long> bases;
void rt_stdout_at(const char* n,long base){ rt_stdout(n); if(ftruncate(fileno(stdout),base)||fseek(stdout,base,SEEK_SET)) _exit(8); bases[n]=base; }
static FILE* rt_pipe;
void rt_stdout_pipe(const char* n){ fflush(stdout); rt_pipe=popen((std::string("cat > ")+n).c_str(),"w"); if(!rt_pipe||dup2(fileno(rt_pipe),1)<0) _exit(8); clearerr(stdout); }
void rt_stdout_end(){ fflush(stdout); if(!freopen("/dev/null","wb",stdout)) _exit(8); if(rt_pipe){ pclose(rt_pipe); rt_pipe=0; } }
void rt_put_file(const char* n,const unsigned char* p,uint64_t len){ FILE* f=fopen(n,"wb"); if(len) fwrite(p,1,len,f); fclose(f); }
uint64_t rt_file_size(const char* n){ fflush(stdout); FILE* f=fopen(n,"rb"); if(!f) return ~0ull; fseek(f,0,SEEK_END); uint64_t r=ftell(f); fclose(f); return r-(bases.count(n)?bases[n]:0); }
void rt_get_file(const char* n,unsigned char* to,uint64_t off,uint64_t len){ FILE* f=fopen(n,"rb"); fseek(f,off+(bases.count(n)?bases[n]:0),SEEK_SET); if(len) if(fread(to,1,len,f)!=len) sym_assert(false,"file is shorter than expected"); fclose(f); }
}
// Live heap objects: every allocation carries a header with its size.  Sanitizer builds count by themselves.
#if defined(__SANITIZE_ADDRESS__)||(defined(__has_feature)&&__has_feature(address_sanitizer))
extern "C" size_t __sanitizer_get_current_allocated_bytes(); extern "C" uint64_t sym_live(int){ return __sanitizer_get_current_allocated_bytes(); }
#else
static uint64_t liveN,liveB;
namespace { struct Head { uint64_t n,magic; }; const uint64_t MAGIC=0x5ca1ab1ed00dfeedull; }
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_realloc(void*,size_t);
uint64_t sym_live(int b){ return b?liveB:liveN; }
void* malloc(size_t n){ Head* h=(Head*)__libc_malloc(n+sizeof(Head)); if(!h) return 0; h->n=n; h->magic=MAGIC; ++liveN; liveB+=n; return h+1; }
void free(void* p){ if(!p) return; Head* h=(Head*)p-1; if(h->magic!=MAGIC){ __libc_free(p); return; } h->magic=0; --liveN; liveB-=h->n; __libc_free(h); }
void* calloc(size_t a,size_t b){ if(b&&a>~size_t(0)/b) return 0; void* p=malloc(a*b); if(p) memset(p,0,a*b); return p; }
void* realloc(void* p,size_t n){ if(!p) return malloc(n); Head* h=(Head*)p-1; if(h->magic!=MAGIC) return __libc_realloc(p,n); uint64_t o=h->n; h=(Head*)__libc_realloc(h,n+sizeof(Head)); if(!h) return 0; liveB+=n-o; h->n=n; return h+1; }
}
#endif
extern "C" void ENTRY();
int main(int argc,char** argv){
  out(); // working directory is the caller's scratch directory
  for(int i=2;i<argc;++i){ char* e=strchr(argv[i],'='); if(e) prm[std::string(argv[i],e)]=strtoll(e+1,0,10); }
  FILE* f=fopen(argv[1],"r"); int b; unsigned long long v; bool in=false; char line[4096];
  while(f&&fgets(line,sizeof line,f)){ if(!strncmp(line,"inputs:",7)){ in=true; continue; } if(!strncmp(line,"undef:",6)){ in=false; continue; } if(in){ char* e=line+strlen(line); int sp=0; while(e>line&&!(*--e==' '&&++sp==2)); if(sp==2&&sscanf(e," %d %llu",&b,&v)==2) vals.push_back(v); } }
  if(f) fclose(f);
  ENTRY();
  return 0;
}
