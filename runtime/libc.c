/* Models of the C library functions bwtc calls, compiled to bitcode and executed
 * symbolically together with the program.  The file system is a table of named
 * in-memory files; standard input/output are files named "<stdin>"/"<stdout>". */
typedef unsigned char u8; typedef unsigned long u64;
void* malloc(u64); void* realloc(void*,u64); void free(void*); u64 sym_concretize(u64);
struct File { char name[64]; u8* data; u64 size, cap; int used; };
struct Stream { struct File* f; u64 pos; long base; int rd, wr, eof, open, pipe; };
static struct File files[32];
static struct Stream s_in, s_out, s_err;
struct Stream* stdin = &s_in; struct Stream* stdout = &s_out; struct Stream* stderr = &s_err;
static int sameName(const char* a,const char* b){ int i; for(i=0;i<63;++i){ if(a[i]!=b[i]) return 0; if(!a[i]) return 1; } return 1; }
static struct File* findFile(const char* n,int create){
  int i,k; for(i=0;i<32;++i) if(files[i].used&&sameName(files[i].name,n)) return &files[i];
  if(!create) return 0;
  for(i=0;i<32;++i) if(!files[i].used){ files[i].used=1; for(k=0;k<63&&n[k];++k) files[i].name[k]=n[k]; files[i].name[k]=0; files[i].data=0; files[i].size=files[i].cap=0; return &files[i]; }
  return 0;
}
static void ensure(struct File* f,u64 n){ if(n>f->cap){ u64 c=f->cap?f->cap*2:256; while(c<n) c*=2; f->data=(u8*)realloc(f->data,c); f->cap=c; } }
static void std_open(struct Stream* s){ if(s==&s_in&&!s->open){ s->f=findFile("<stdin>",1); s->rd=1; s->open=1; } if((s==&s_out||s==&s_err)&&!s->open){ s->f=findFile(s==&s_out?"<stdout>":"<stderr>",1); s->wr=1; s->open=1; } }
struct Stream* fopen(const char* n,const char* m){
  struct File* f=findFile(n,m[0]!='r'); if(!f) return 0;
  struct Stream* s=(struct Stream*)malloc(sizeof *s); s->f=f; s->pos=0; s->eof=0; s->open=1; s->pipe=0; s->base=0; s->rd=m[0]=='r'; s->wr=m[0]!='r';
  { int i; for(i=1;m[i];++i) if(m[i]=='+') s->rd=s->wr=1; }
  if(m[0]=='w') f->size=0; if(m[0]=='a') s->pos=f->size; return s;
}
int fclose(struct Stream* s){ if(s!=&s_in&&s!=&s_out&&s!=&s_err) free(s); return 0; }
u64 fread(void* p,u64 sz,u64 n,struct Stream* s){
  std_open(s); if(!sz||!n) return 0; u64 want=sz*n, left=s->pos<s->f->size?s->f->size-s->pos:0; if(!s->rd) return 0;
  if(left<want){ want=left; s->eof=1; }
  if(want) __builtin_memcpy(p,s->f->data+s->pos,want); s->pos+=want; return want/sz;
}
u64 fwrite(const void* p,u64 sz,u64 n,struct Stream* s){
  std_open(s); u64 w=sz*n; if(!w||!s->wr) return 0;
  ensure(s->f,s->pos+w); if(s->pos>s->f->size) __builtin_memset(s->f->data+s->f->size,0,s->pos-s->f->size);
  __builtin_memcpy(s->f->data+s->pos,p,w); s->pos+=w; if(s->pos>s->f->size) s->f->size=s->pos; return n;
}
int fputc(int c,struct Stream* s){ u8 b=(u8)c; fwrite(&b,1,1,s); return b; }
int putc(int c,struct Stream* s){ return fputc(c,s); }
int fgetc(struct Stream* s){ u8 b; return fread(&b,1,1,s)==1?b:-1; }
int getc(struct Stream* s){ return fgetc(s); }
int ungetc(int c,struct Stream* s){ if(c<0) return -1; s->pos--; s->eof=0; return c; }
int fflush(struct Stream* s){ return 0; }
long ftell(struct Stream* s){ std_open(s); if(s->pipe) return -1; return s->base+(long)s->pos; }
int fseek(struct Stream* s,long off,int wh){ std_open(s); if(s->pipe) return -1; long b=wh==0?0:wh==1?(long)s->pos:(long)s->f->size; if(s->base){ if(wh==0) off-=s->base; if(b+off<0||b+off>(long)s->f->size) return -1; s->pos=sym_concretize(b+off); s->eof=0; return 0; } if(b+off<0) return -1; s->pos=b+off; s->eof=0; return 0; }
void rewind(struct Stream* s){ fseek(s,0,0); }
int feof(struct Stream* s){ std_open(s); return s->eof; }
int ferror(struct Stream* s){ return 0; }
int fileno(struct Stream* s){ return s==&s_in?0:s==&s_out?1:3; }
int setvbuf(struct Stream* s,char* b,int m,u64 n){ return 0; }
/* harness access to the file table */
void rt_stdin(const char* n){ s_in.f=findFile(n,1); s_in.pos=0; s_in.eof=0; s_in.rd=1; s_in.wr=0; s_in.open=1; }
void rt_stdout(const char* n){ s_out.f=findFile(n,1); s_out.f->size=0; s_out.pos=0; s_out.base=0; s_out.eof=0; s_out.wr=1; s_out.open=1; s_out.pipe=0; }
/* standard output continues a file that has base bytes already; the table keeps what is written behind them, and a seek to another place has no effect */
void rt_stdout_at(const char* n,long base){ rt_stdout(n); s_out.base=base; }
void rt_stdout_pipe(const char* n){ rt_stdout(n); s_out.pipe=1; }
void rt_stdout_end(void){ rt_stdout("<stdout>"); }
void rt_put_file(const char* n,const u8* p,u64 len){ struct File* f=findFile(n,1); ensure(f,len); if(len) __builtin_memcpy(f->data,p,len); f->size=len; }
u64 rt_file_size(const char* n){ struct File* f=findFile(n,0); return f?f->size:~0ul; }
void rt_get_file(const char* n,u8* to,u64 off,u64 len){ struct File* f=findFile(n,0); __builtin_memcpy(to,f->data+off,len); }

u64 strlen(const char* s){ u64 n=0; while(s[n]) ++n; return n; }
int memcmp(const void* a,const void* b,u64 n){ const u8* x=(const u8*)a; const u8* y=(const u8*)b; u64 i; for(i=0;i<n;++i) if(x[i]!=y[i]) return x[i]<y[i]?-1:1; return 0; }
int bcmp(const void* a,const void* b,u64 n){ return memcmp(a,b,n); }
int strcmp(const char* a,const char* b){ u64 i=0; for(;;++i){ if(a[i]!=b[i]) return (u8)a[i]<(u8)b[i]?-1:1; if(!a[i]) return 0; } }
void* memchr(const void* a,int c,u64 n){ const u8* x=(const u8*)a; u64 i; for(i=0;i<n;++i) if(x[i]==(u8)c) return (void*)(x+i); return 0; }
char* strcpy(char* d,const char* s){ u64 i=0; do d[i]=s[i]; while(s[i++]); return d; }
/* std::cout, cerr and clog: what is put into cout goes to standard output, the others are dropped; inlined manipulators look into the objects
 * (layout of libstdc++: vtable pointer, then the virtual base at offset 8 with its ctype facet at 240) */
static u8 rt_ctype[600]={[56]=1};
static const long rt_ovt[4]={8,0,0,0};
struct OStream { const void* vptr; u8 ios[240]; void* ctype; u8 rest[64]; };
struct OStream _ZSt4cout={&rt_ovt[3],{0},rt_ctype,{0}}, _ZSt4cerr={&rt_ovt[3],{0},rt_ctype,{0}}, _ZSt4clog={&rt_ovt[3],{0},rt_ctype,{0}};

/* formatted output: only that and what text arrives at standard output matters; numbers are decimal, conversions of printf are not expanded */
static int rt_outs(const char* s,u64 n){ if(n) fwrite(s,1,n,stdout); return (int)n; }
static void* rt_num(struct OStream* o,u64 v,int neg){ char b[24]; int i=24; if(o!=&_ZSt4cout) return o; do b[--i]='0'+v%10; while(v/=10); if(neg) b[--i]='-'; rt_outs(b+i,24-i); return o; }
void* _ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc(struct OStream* o,const char* s){ if(o==&_ZSt4cout) rt_outs(s,strlen(s)); return o; }
void* _ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c(struct OStream* o,char c){ if(o==&_ZSt4cout) rt_outs(&c,1); return o; }
void* _ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(struct OStream* o,const char* s,long n){ if(o==&_ZSt4cout) rt_outs(s,n); return o; }
void* _ZNSo3putEc(struct OStream* o,char c){ if(o==&_ZSt4cout) rt_outs(&c,1); return o; }
void* _ZNSo5writeEPKcl(struct OStream* o,const char* s,long n){ if(o==&_ZSt4cout) rt_outs(s,n); return o; }
void* _ZNSo5flushEv(struct OStream* o){ return o; }
void* _ZNSo9_M_insertImEERSoT_(struct OStream* o,u64 v){ return rt_num(o,v,0); }
void* _ZNSo9_M_insertIyEERSoT_(struct OStream* o,u64 v){ return rt_num(o,v,0); }
void* _ZNSo9_M_insertIlEERSoT_(struct OStream* o,long v){ return rt_num(o,v<0?-v:v,v<0); }
void* _ZNSo9_M_insertIxEERSoT_(struct OStream* o,long v){ return rt_num(o,v<0?-v:v,v<0); }
void* _ZNSo9_M_insertIbEERSoT_(struct OStream* o,_Bool v){ return rt_num(o,v,0); }
void* _ZNSolsEi(struct OStream* o,int v){ return rt_num(o,v<0?-(long)v:v,v<0); }
void* _ZNSolsEs(struct OStream* o,short v){ return rt_num(o,v<0?-(long)v:v,v<0); }
void* _ZNSo9_M_insertIdEERSoT_(struct OStream* o,double v){ return rt_num(o,0,0); }
int puts(const char* s){ rt_outs(s,strlen(s)); return rt_outs("\n",1); }
int putchar(int c){ char b=(char)c; rt_outs(&b,1); return c; }
int printf(const char* f,...){ return rt_outs(f,strlen(f)); }
int fputs(const char* s,struct Stream* f){ fwrite(s,1,strlen(s),f); return 0; }

int fseeko(struct Stream* s,long off,int wh){ return fseek(s,off,wh); }
long ftello(struct Stream* s){ return ftell(s); }
void clearerr(struct Stream* s){ s->eof=0; }
int getchar(void){ return fgetc(stdin); }
int remove(const char* n){ struct File* f=findFile(n,0); if(!f) return -1; f->used=0; return 0; }
int strncmp(const char* a,const char* b,u64 n){ u64 i; for(i=0;i<n;++i){ if(a[i]!=b[i]) return (u8)a[i]<(u8)b[i]?-1:1; if(!a[i]) return 0; } return 0; }
char* strchr(const char* s,int c){ for(;;++s){ if(*s==(char)c) return (char*)s; if(!*s) return 0; } }
char* strncpy(char* d,const char* s,u64 n){ u64 i=0; for(;i<n&&s[i];++i) d[i]=s[i]; for(;i<n;++i) d[i]=0; return d; }
int abs(int x){ return x<0?-x:x; }
long labs(long x){ return x<0?-x:x; }
