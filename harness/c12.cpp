// File streams.  Sizes are chosen around the 64 KB buffers, contents are partly symbolic.
#include "sym.h"
#include "Streams.hpp"
#include <memory>
using namespace bwtc;
namespace {
static const size_t SZ[]={0,1,65536,65535,65537,2,65530,131072,131071,65529,7,200000,65538,131073};
byte pat(size_t i){ return (byte)(i*131+(i>>8)*7+3); }
void checkFile(const char* name,const std::vector<byte>& want){
  sym_assert(rt_file_size(name)==want.size(),"file size"); std::vector<byte> got(want.size()+1); if(want.size()) rt_get_file(name,&got[0],0,want.size()); for(size_t i=0;i<want.size();++i) if(got[i]!=want[i]) sym_assert(false,"file holds the written bytes in order");
}
}
// sequences of write operations
extern "C" void h_out(){
  std::vector<byte> want; size_t ops=sym_param("ops",3),sizes=sym_param("sizes",5); 
  { RawOutStream out("o.bin"); sym_assert(!out.isStdout(),"file stream");
    std::vector<long> fields;
    for(size_t o=0;o<ops;++o){
      int op=(int)sym_choice("op",5);
      if(op==0){ size_t n=SZ[sym_choice("count",sizes)]; for(size_t i=0;i<n;++i){ byte b=i+1==n?sym_byte("b"):pat(want.size()); out.writeByte(b); want.push_back(b); } }
      else if(op==1){ size_t n=SZ[sym_choice("block",sizes)]; std::vector<byte> v(n+1); for(size_t i=0;i<n;++i) v[i]=pat(want.size()+i+o); if(n){ v[0]=sym_byte("b"); v[n-1]=sym_byte("b"); } out.writeBlock(&v[0],&v[0]+n); want.insert(want.end(),v.begin(),v.begin()+n); }
      else if(op==2){ long p=out.getPos(); sym_assert(p==(long)want.size(),"reported position"); for(int i=0;i<6;++i){ out.writeByte(0); want.push_back(0); } fields.push_back(p); }
      else if(op==3){ if(fields.empty()) continue; uint64 v=sym_u("field",48); long p=fields[sym_choice("which",fields.size())]; out.write48bits(v,p); for(int i=0;i<6;++i) want[p+i]=(byte)(v>>(8*(5-i))); }
      else { out.flush(); checkFile("o.bin",want); }
    }
    if(sym_choice("ask",2)) sym_assert(out.getPos()==(long)want.size(),"reported position");
  }
  checkFile("o.bin",want); sym_reach("end");
}
// a length field is patched after more data than the buffer holds, then writing goes on
extern "C" void h_out_field(){
  std::vector<byte> want; size_t pre=SZ[sym_choice("before",sym_param("sizes",12))],mid=SZ[sym_choice("between",sym_param("sizes",12))]; uint64 v=sym_u("field",48); bool asBlock=sym_choice("block",2);
  { RawOutStream out("f.bin"); for(size_t i=0;i<pre;++i){ out.writeByte(pat(i)); want.push_back(pat(i)); } long p=out.getPos(); sym_assert(p==(long)pre,"reported position"); for(int i=0;i<6;++i){ out.writeByte(0); want.push_back((byte)(v>>(8*(5-i)))); }
    std::vector<byte> m(mid+1); for(size_t i=0;i<mid;++i) m[i]=pat(i+77); if(asBlock) out.writeBlock(&m[0],&m[0]+mid); else for(size_t i=0;i<mid;++i) out.writeByte(m[i]); want.insert(want.end(),m.begin(),m.begin()+mid);
    out.write48bits(v,p); byte t=sym_byte("t"); out.writeByte(t); want.push_back(t); if(sym_choice("ask",2)) sym_assert(out.getPos()==(long)want.size(),"reported position after patching"); out.writeByte(9); want.push_back(9); }
  checkFile("f.bin",want); sym_reach("end");
}
// standard output that continues a file of any length below 2^40
extern "C" void rt_stdout_at(const char*,long); extern "C" void rt_stdout_end(void);
extern "C" void h_out_far(){
  std::vector<byte> want; long base=(long)sym_u("base",40); size_t pre=SZ[sym_choice("before",sym_param("sizes",4))],mid=SZ[sym_choice("between",sym_param("sizes",4))]; uint64 v=sym_u("field",48); rt_stdout_at("far.bin",base);
  { RawOutStream out(""); sym_assert(out.isStdout(),"standard output"); for(size_t i=0;i<pre;++i){ out.writeByte(pat(i)); want.push_back(pat(i)); } long p=out.getPos(); sym_assert(p==base+(long)pre,"reported position"); for(int i=0;i<6;++i){ out.writeByte(0); want.push_back((byte)(v>>(8*(5-i)))); }
    std::vector<byte> m(mid+1); for(size_t i=0;i<mid;++i) m[i]=pat(i+77); out.writeBlock(&m[0],&m[0]+mid); want.insert(want.end(),m.begin(),m.begin()+mid);
    out.write48bits(v,p); byte t=sym_byte("t"); out.writeByte(t); want.push_back(t); if(sym_choice("ask",2)) sym_assert(out.getPos()==base+(long)want.size(),"reported position after patching"); out.writeByte(9); want.push_back(9); out.flush(); }
  checkFile("far.bin",want); rt_stdout_end(); sym_reach("end");
}
// sequences of read operations; position kept by the harness in bits
extern "C" void h_in(){
  size_t n=SZ[sym_choice("size",sym_param("files",5))]; std::vector<byte> f(n+1); for(size_t i=0;i<n;++i) f[i]=pat(i);
  size_t start=0; if(n>16){ static const size_t BACK[]={0,4,1,7,8}; size_t b=BACK[sym_choice("start",sym_param("starts",4))]; size_t edge=n>65540&&sym_choice("edge",2)?65536:n; start=edge>b?edge-b:0; if(sym_choice("frombegin",sym_param("frombegin",1)+0)) start=0; }
  size_t symFrom=start; for(size_t i=symFrom;i<n&&i<symFrom+14;++i) f[i]=sym_byte("c");
  rt_put_file("i.bin",&f[0],n); RawInStream in("i.bin"); sym_assert(!in.isStdin(),"file stream"); uint64 bp=0; size_t ops=sym_param("ops",4);
  if(start){ std::vector<byte> t(start); size_t got=in.readBlock(&t[0],start); bool ok=got==start; for(size_t i=0;i<start&&ok;++i) ok&=t[i]==f[i]; sym_assert(ok,"readBlock delivers the file's bytes"); bp=8*(uint64)start; }
  for(size_t o=0;o<ops;++o){
    int op=(int)sym_choice("op",6); uint64 left=8*(uint64)n-bp;
    if(op==0){ if(left<1) continue; size_t k=1+2*sym_choice("bits",2); for(size_t i=0;i<k&&bp<8*(uint64)n;++i){ bool w=(f[bp/8]>>(7-bp%8))&1; sym_assert(in.readBit()==w,"bits come in order"); ++bp; } }
    else if(op==1){ if(left<8) continue; uint32 w=0; for(int i=0;i<8;++i){ w=(w<<1)|((f[bp/8]>>(7-bp%8))&1); ++bp; } sym_assert(in.readByte()==(byte)w,"bytes come in order"); }
    else if(op==2){ in.flushBuffer(); bp=(bp+7)/8*8; }
    else if(op==3){ if(bp%8) continue; static const size_t W[]={0,1,3,9,65536,140000}; size_t k=W[sym_choice("want",sym_param("wants",4))]; std::vector<byte> t(k+2,0xA5); size_t got=in.readBlock(&t[1],k); size_t w=std::min<uint64>(k,left/8); sym_assert(got==w,"readBlock is short only at the end of the file"); bool ok=t[0]==0xA5&&t[k+1]==0xA5; for(size_t i=0;i<got;++i) ok&=t[1+i]==f[bp/8+i]; for(size_t i=got;i<k;++i) ok&=t[1+i]==0xA5; sym_assert(ok,"readBlock delivers the file's bytes"); bp+=8*w; }
    else if(op==4){ if(bp%8||left<48) continue; uint64 w=0; for(int i=0;i<6;++i) w=(w<<8)|f[bp/8+i]; bp+=48; sym_assert(in.read48bits()==w,"48-bit field"); }
    else { if(bp%8) continue; bool e=in.compressedDataEnding(); if(left==0) sym_assert(e,"end of the file is signalled"); else if(left>=16) sym_assert(!e,"no end is signalled while bytes remain"); }
  }
  if(bp%8==0){ std::vector<byte> t(24,0xA5); uint64 left=n-bp/8; if(left<=20){ size_t got=in.readBlock(&t[0],20); bool ok=got==left; for(size_t i=0;i<got&&ok;++i) ok&=t[i]==f[bp/8+i]; sym_assert(ok,"the rest of the file is delivered"); sym_assert(in.readBlock(&t[0],5)==0,"nothing is delivered behind the end"); sym_assert(in.compressedDataEnding(),"end of the file is signalled"); } }
  sym_reach("end");
}
// standard input and output
extern "C" void h_stdio(){
  size_t n=SZ[sym_choice("size",sym_param("sizes",5))]; std::vector<byte> f(n+1); for(size_t i=0;i<n;++i) f[i]=i<3?sym_byte("c"):pat(i); rt_put_file("w.bin",&f[0],n);
  { RawInStream in("w.bin"); RawOutStream out("x.bin"); std::vector<byte> t(n+9); size_t k=in.readBlock(&t[0],n+9); sym_assert(k==n,"whole file"); size_t h=k/2; out.writeBlock(&t[0],&t[0]+h); for(size_t i=h;i<k;++i) out.writeByte(t[i]); }
  f.pop_back(); checkFile("x.bin",f); sym_reach("end");
}
