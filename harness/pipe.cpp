// Compressor and Decompressor, from input bytes to output bytes.
#include "sym.h"
#include "texts.h"
#include "Compressor.hpp"
#include "Decompressor.hpp"
#include <memory>
using namespace bwtc;
namespace {
typedef std::vector<byte> Str;
struct KeepOut : MemOut { Str& to; KeepOut(Str& t):to(t){} ~KeepOut(){ to.swap(d); } };
static const char CODERS[]={'B','H','b','u','m','M'};
struct Cfg { char coder,alg; uint32 sp; size_t mem; std::string pre; };
Cfg config(){ Cfg c; static const char AL[]={'d','s','a'}; static const uint32 SP[]={8,1,2,256,3}; int f=(int)sym_param("coder",-1);
  c.coder=CODERS[f>=0?f:(int)sym_choice("coder",sym_param("coders",2))]; c.alg=AL[sym_choice("algorithm",sym_param("algs",2))]; c.sp=SP[sym_param("sp",-1)>=0?sym_param("sp",-1):sym_choice("sp",sym_param("sps",2))]; c.mem=1000000; c.pre=std::string(sym_param("pre",0)?sym_choice("rounds",sym_param("pre",0)+1):0,'p'); return c; }
void trip(const Str& t,const Cfg& c){
  Str z,back; size_t got; { Compressor k(new MemIn(t),new KeepOut(z),c.pre,c.mem,c.coder); k.initializeBwtAlgorithm(c.alg,c.sp); got=k.compress(1); }
  sym_assert(got==z.size(),"compress reports the bytes written"); sym_assert(z.size()>=2&&z[0]==(byte)c.coder&&z.back()==0,"the stream names its coder and ends with the end marker");
  if(sym_param("defined",0)) sym_defined(&z[0],z.size(),"compressed bytes depend on the input only");
  { MemIn* in=new MemIn(z); Decompressor d(in,new KeepOut(back)); got=d.decompress(1); sym_assert(in->pos==z.size()&&in->past==0,"the whole stream is read, and no more"); }
  sym_assert(got==t.size(),"decompress reports the original size"); sym_assert(back.size()==t.size(),"decompressed length"); bool ok=true; for(size_t i=0;i<t.size();++i) if(back[i]!=t[i]) ok=false; sym_assert(ok,"decompressed bytes equal the original");
  if(sym_param("defined",0)&&back.size()) sym_defined(&back[0],back.size(),"decompressed bytes depend on the stream only");
}
}
// texts with pairs frequent enough to be replaced
namespace { void pairText(Str& t,int kind){
  if(kind!=0) for(int i=0;i<256;++i) t.push_back((byte)(kind==1?i:255-i)); for(int r=0;r<1400;++r){ t.push_back('a'); t.push_back('b'); if(kind==2){ t.push_back('a'); t.push_back('b'); t.push_back(0); } } if(kind!=0) t.push_back((byte)sym_concretize(symLetter(4,1))); else t.push_back((byte)sym_concretize(symLetter(4,0)));
} }
// every short input over k letters, blocks of 1, 2, ... bytes
extern "C" void h_pipe_small(){
  Cfg c=config(); Str t; smallText(t,sym_choice("n",sym_param("n",4)+1),sym_param("k",2),sym_choice("alphabet",sym_param("alphs",1))); static const size_t M[]={1000000,6,11,17,100}; c.mem=M[sym_choice("mem",sym_param("mems",4))]; trip(t,c); sym_reach("end");
}
// longer inputs in one or several blocks
extern "C" void h_pipe_text(){
  Cfg c=config(); Str t; scaffold(t,(int)(sym_param("pat",0)+sym_choice("pattern",sym_param("pats",8))),sym_param("len",600),sym_param("syms",2),sym_param("k",2)); static const size_t M[]={1000000,1500,700,3000,100}; c.mem=M[sym_choice("mem",sym_param("mems",3))]; trip(t,c); sym_reach("end");
}
// precompressed inputs: pairs are frequent enough to be replaced; several precompression blocks
extern "C" void h_pipe_pre(){
  Cfg c=config(); Str t; static const size_t M[]={1000000,8000,5000,16000}; c.mem=M[sym_choice("mem",sym_param("mems",2))]; pairText(t,(int)sym_choice("text",sym_param("texts",3))); trip(t,c); sym_reach("end");
}
// through files, with the file streams the programs use
extern "C" void h_pipe_files(){
  Cfg c=config(); Str t; static const size_t N[]={0,1,3,65535,65536,70000}; size_t n=N[sym_choice("size",sym_param("sizes",4))]; Lcg r(5); for(size_t i=0;i<n;++i) t.push_back(i<2||i==n-1?(n<1000?symLetter(2,0):(byte)sym_concretize(symLetter(2,0))):(byte)('a'+(r()%100==0)+(i%50==7))); 
  byte dummy=0; rt_put_file("in",n?&t[0]:&dummy,n); size_t got; { Compressor k(std::string("in"),std::string("z"),c.pre,sym_choice("blocks",2)?100000:1000000,c.coder); k.initializeBwtAlgorithm(c.alg,c.sp); got=k.compress(1); } sym_assert(got==rt_file_size("z"),"compress reports the bytes written");
  { Decompressor d(std::string("z"),std::string("out")); got=d.decompress(1); } sym_assert(got==n&&rt_file_size("out")==n,"decompressed length"); Str b(n+1); if(n) rt_get_file("out",&b[0],0,n); for(size_t i=0;i<n;++i) if(b[i]!=t[i]) sym_assert(false,"decompressed bytes equal the original"); sym_reach("end");
}

// the same input gives the same stream again, and the same stream the same bytes, whatever ran in between
extern "C" void h_pipe_twice(){
  Cfg c=config(); Str t; size_t len=sym_param("len",0); int pair=(int)sym_param("pair",0); if(pair) pairText(t,(int)sym_choice("text",pair)); else if(len) scaffold(t,(int)sym_choice("pattern",sym_param("pats",4)),len,sym_param("syms",2),2); else smallText(t,sym_choice("n",sym_param("n",3)+1),sym_param("k",2),0); static const size_t M[]={1000000,11,1500}; c.mem=M[sym_choice("mem",sym_param("mems",2))]; if((len||pair)&&c.mem==11) c.mem=pair?8000:1500;
  Str z[3],back[3]; for(int pass=0;pass<3;++pass){
    if(pass){ Str u; int kind=(int)sym_choice("between",sym_param("betweens",2)); for(int i=0;i<300;++i) u.push_back((byte)(kind==0?'x':i*37)); Cfg d=c; d.coder=pass==1?c.coder:c.coder=='H'?'B':'H'; d.alg=pass==1?'s':'d'; d.sp=5; d.mem=500; if(pair){ for(int i=0;i<1300;++i){ u.push_back((byte)'c'); u.push_back((byte)(kind==0?'d':'a'+i%2)); } d.pre="pp"; d.mem=1000000; } trip(u,d); byte* junk=(byte*)malloc(3000); for(int i=0;i<3000;++i) junk[i]=(byte)(0x5A+pass); free(junk); }
    { Compressor k(new MemIn(t),new KeepOut(z[pass]),c.pre,c.mem,c.coder); k.initializeBwtAlgorithm(c.alg,c.sp); k.compress(1); }
    { Decompressor d(new MemIn(z[0]),new KeepOut(back[pass])); d.decompress(1); } }
  for(int pass=1;pass<3;++pass){ sym_assert(z[pass].size()==z[0].size(),"same length every time"); for(size_t i=0;i<z[0].size();++i) sym_assert(z[pass][i]==z[0][i],"same bytes every time"); sym_assert(back[pass]==back[0],"decompressing gives the same bytes every time"); } sym_reach("end");
}

// standard output continues a file of any length below 2^40: the length fields are filled in at the right place
extern "C" void rt_stdout_at(const char*,long); extern "C" void rt_stdout_end(void);
extern "C" void h_pipe_far(){
  Cfg c=config(); long base=(long)sym_u("base",40); size_t n=sym_param("len",40); Str t; for(size_t i=0;i<n;++i) t.push_back((byte)('a'+(i*i%7==1))); t.back()=(byte)sym_concretize(symLetter(2,0)); rt_put_file("in",&t[0],n); size_t got; rt_stdout_at("far",base);
  { Compressor k(std::string("in"),std::string(""),c.pre,sym_choice("blocks",2)?100:1000000,c.coder); k.initializeBwtAlgorithm(c.alg,c.sp); got=k.compress(1); }
  size_t z=rt_file_size("far"); sym_assert(got==z,"compress reports the bytes written"); Str f(z+1),back; rt_get_file("far",&f[0],0,z); f.pop_back(); rt_stdout_end();
  { MemIn* in=new MemIn(f); Decompressor d(in,new KeepOut(back)); got=d.decompress(1); sym_assert(in->pos==f.size()&&in->past==0,"the whole stream is read, and no more"); }
  sym_assert(got==n&&back==t,"decompressed bytes equal the original"); sym_reach("end");
}
// many blocks and slices
extern "C" void h_pipe_slices(){
  Cfg c=config(); Str t; static const size_t M[]={6,17,53,11}; size_t n=sym_param("len",300); Lcg r(9); for(size_t i=0;i<n;++i) t.push_back(i%20<12?"abcdefghijkl"[i%20]:(byte)(r()%256)); t.back()=(byte)sym_concretize(symLetter(2,0)); c.mem=M[sym_choice("mem",sym_param("mems",3))]; trip(t,c); sym_reach("end");
}

// what a compression and a decompression allocate is given back
namespace {
byte zbuf[1<<16], obuf[1<<16]; size_t zlen, olen; uint64 peak[2];
void note(){ for(int b=0;b<2;++b){ uint64 v=sym_live(b); if(v>peak[b]) peak[b]=v; } }
struct FixOut : OutStream { byte* to; size_t& n; FixOut(byte* t,size_t& l):to(t),n(l){ n=0; } void writeByte(byte b){ to[n++]=b; } void writeBlock(const byte* b,const byte* e){ note(); for(;b!=e;++b) to[n++]=*b; } long getPos(){ return (long)n; } void write48bits(uint64 v,long pos){ note(); for(int i=0;i<6;++i) to[pos+i]=(byte)(v>>(8*(5-i))); } void flush(){} };
struct FixIn : InStream { const byte* d; size_t n,pos; int bits; uint16 buf; FixIn(const byte* f,size_t l):d(f),n(l),pos(0),bits(0),buf(0){} byte next(){ return pos<n?d[pos++]:0xff; } size_t readBlock(byte* to,size_t m){ note(); size_t i=0; for(;i<m&&pos<n;++i) to[i]=d[pos++]; return i; } bool readBit(){ if(bits==0){ buf=next(); bits=8; } return (buf>>--bits)&1; } byte readByte(){ byte x=next(); buf=(uint16)((buf<<8)|x); return (byte)((buf>>bits)&0xff); } void flushBuffer(){ bits=0; } uint64 read48bits(){ uint64 r=0; for(int i=0;i<6;++i) r=(r<<8)|next(); return r; } bool compressedDataEnding(){ return pos>=n; } };
void fixedTrip(const byte* p,size_t n,const Cfg& c){
  peak[0]=peak[1]=0; { Compressor k(new FixIn(p,n),new FixOut(zbuf,zlen),c.pre,c.mem,c.coder); k.initializeBwtAlgorithm(c.alg,c.sp); k.compress(1); }
  { Decompressor d(new FixIn(zbuf,zlen),new FixOut(obuf,olen)); d.decompress(1); } sym_assert(olen==n,"decompressed length");
}
}
// after the first time nothing more stays allocated, however often it is done
extern "C" void h_live_again(){
  Cfg c=config(); Str t; size_t len=sym_param("len",0); int pair=(int)sym_param("pair",0); if(pair) pairText(t,(int)sym_choice("text",pair)); else if(len) scaffold(t,(int)sym_choice("pattern",sym_param("pats",4)),len,sym_param("syms",1),2); else smallText(t,sym_choice("n",sym_param("n",3)+1),sym_param("k",2),0); static const size_t M[]={1000000,11,1500,8000}; c.mem=M[sym_choice("mem",sym_param("mems",2))]; if((len||pair)&&c.mem==11) c.mem=pair?8000:1500; t.push_back(0); size_t n=t.size()-1;
  fixedTrip(&t[0],n,c); uint64 first=sym_live(0),bytes=sym_live(1); for(int i=0;i<2;++i){ fixedTrip(&t[0],n,c); sym_assert(sym_live(0)<=first,"no object stays allocated after the work is done"); sym_assert(sym_live(1)<=bytes,"no memory stays allocated after the work is done"); } sym_reach("end");
}
// twice as many equal blocks do not need more memory
extern "C" void h_live_blocks(){
  Cfg c=config(); Str t; size_t per=0; if(sym_param("pair",0)){ Str u; pairText(u,0); c.mem=4000; per=2960; u.resize(per,'c'); t=u; } else { c.mem=(size_t)sym_param("mem",600); per=(size_t)(c.mem*0.185); scaffold(t,(int)sym_choice("pattern",sym_param("pats",4)),per,sym_param("syms",1),2); }
  for(size_t i=0;i<7*per;++i){ byte b=t[i]; t.push_back(b); }
  fixedTrip(&t[0],4*per,c); fixedTrip(&t[0],4*per,c); uint64 a=peak[0],b=peak[1]; fixedTrip(&t[0],8*per,c); sym_assert(peak[0]<=a,"more blocks do not keep more objects"); sym_assert(peak[1]<=b,"more blocks do not need more memory"); sym_reach("end");
}
// the file streams give back their buffers and close their files
extern "C" void h_live_files(){
  Cfg c=config(); size_t n=sym_choice("size",2)?70000:3; Str t(n,'a'); t[n/2]=(byte)sym_concretize(symLetter(4,0)); rt_put_file("in",&t[0],n); rt_put_file("z",&t[0],n); rt_put_file("out",&t[0],n); uint64 live=0,bytes=0;
  for(int i=0;i<3;++i){ { Compressor k(std::string("in"),std::string("z"),c.pre,100000,c.coder); k.initializeBwtAlgorithm(c.alg,c.sp); k.compress(1); } { Decompressor d(std::string("z"),std::string("out")); d.decompress(1); }
    if(i==0){ live=sym_live(0); bytes=sym_live(1); } else { sym_assert(sym_live(0)<=live,"no object stays allocated after the work is done"); sym_assert(sym_live(1)<=bytes,"no memory stays allocated after the work is done"); } } sym_reach("end");
}
