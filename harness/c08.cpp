// Integer codes and logarithm helpers: every argument is a symbolic variable.
#include "sym.h"
#include "Utils.hpp"
struct Bits { const std::vector<bool>& v; size_t at; Bits(const std::vector<bool>& b):v(b),at(0){} bool readBit(){ sym_assert(at<v.size(),"reader stays within the code"); return v[at++]; } };
extern "C" void h_pack(){
  uint64 n=sym_u("n",56); int bytes=-1; uint64 p=utils::packInteger(n,&bytes);
  sym_assert(bytes>=1&&bytes<=8,"byte count in range");
  sym_assert(utils::unpackInteger(p)==n,"unpackInteger(packInteger(n)) == n");
  sym_assert(bytes==8||(p>>(8*bytes))==0,"packed integer fits the announced bytes");
  sym_assert(bytes==1||(n>>(7*(bytes-1)))!=0,"no superfluous byte");
  byte buf[9]; for(int i=0;i<9;++i) buf[i]=0xEE;
  utils::writePackedInteger(p,buf);
  for(int i=0;i<9;++i) sym_assert(buf[i]==(i<bytes?(byte)(p>>(8*i)):0xEE),"writePackedInteger writes exactly the announced bytes");
  std::vector<bool> fw,rv; for(int i=0;i<bytes;++i) utils::pushBits(fw,buf[i],8);
  utils::pushBitsRev(rv,p,8*bytes);
  sym_assert(rv.size()==(size_t)8*bytes,"bit count of the reversed form");
  size_t used=sym_u("stale",64); Bits b1(fw),b2(rv);
  sym_assert(utils::readPackedInteger(b1,used)==n&&used==(size_t)bytes,"readPackedInteger returns the packed integer");
  used=sym_u("stale",64); sym_assert(utils::readPackedIntegerRev(b2,used)==n&&used==(size_t)bytes,"readPackedIntegerRev returns the packed integer");
  sym_reach("end");
}
extern "C" void h_packwrite(){
  uint64 n=sym_u("n",63); sym_assume(n>0);
  byte buf[12]; for(int i=0;i<12;++i) buf[i]=0x7E; unsigned w=utils::packAndWriteInteger(n,buf);
  sym_assert(w>=1&&w<=9,"byte count"); uint64 r=0; unsigned q=utils::readAndUnpackInteger(buf,&r);
  sym_assert(r==n,"readAndUnpackInteger returns the written integer"); sym_assert(q==w,"reader uses as many bytes as were written");
  for(unsigned i=w;i<12;++i) sym_assert(buf[i]==0x7E,"nothing written behind the code");
  sym_reach("end");
}
extern "C" void h_packwrite0(){
  byte buf[4]={0x55,0x55,0x55,0x55}; uint64 n=sym_u("n",7); unsigned w=utils::packAndWriteInteger(n,buf); uint64 r=99; unsigned q=utils::readAndUnpackInteger(buf,&r);
  sym_assert(q==w&&r==n,"small integers including zero are read back with the bytes written");
}
extern "C" void h_logs32(){
  uint32 n=(uint32)sym_u("n",32); sym_assume(n>0);
  uint32 f=utils::logFloor((unsigned)n); sym_assert(f<32&&(n>>f)==1,"logFloor is exact for 32-bit arguments");
  uint32 c=utils::logCeiling((unsigned)n); sym_assert(c<=32&&((uint64)1<<c)>=n&&(c==0||((uint64)1<<(c-1))<n),"logCeiling is exact for 32-bit arguments");
  uint32 m=utils::mostSignificantBit(n); sym_assert((m&(m-1))==0&&(m&n)==m&&m!=0&&(n^m)<m,"mostSignificantBit isolates the highest set bit");
  uint32 s=n&0xffff; uint32 m2=utils::mostSignificantBit16(s); sym_assert(s==0?m2==0:((m2&(m2-1))==0&&(m2&s)==m2&&m2!=0&&(s^m2)<m2),"mostSignificantBit16 isolates the highest set bit");
  sym_reach("end");
}
extern "C" void h_logs64(){
  unsigned long n=sym_u("n",64); sym_assume(n>0);
  uint32 f=utils::logFloor(n); sym_assert(f<64&&(n>>f)==1,"logFloor is exact for 64-bit arguments");
  if(n<=((unsigned long)1<<63)){ uint32 c=utils::logCeiling(n); sym_assert(c<64&&((uint64)1<<c)>=n&&(c==0||((uint64)1<<(c-1))<n),"logCeiling is exact for 64-bit arguments"); }
  sym_reach("end");
}
extern "C" void h_unary(){
  size_t max=sym_param("max",40); size_t n=1+sym_choice("n",max); size_t pre=sym_choice("pre",3);
  std::vector<bool> v; for(size_t i=0;i<pre;++i) v.push_back(sym_u("bit",1)); utils::unaryCode(v,n); size_t len=v.size(); v.push_back(sym_u("bit",1));
  sym_assert(len==pre+n,"unary code of n has n bits"); Bits b(v); b.at=pre; sym_assert(utils::unaryDecode(b)==n,"unary code decodes"); sym_assert(b.at==len,"unary decoder consumes the code only");
  sym_reach("end");
}
extern "C" void h_pushbits(){
  size_t bits=sym_choice("bits",65); uint64 n=sym_u("n",64); std::vector<bool> v,w; std::vector<bool> u;
  utils::pushBits(v,n,bits); utils::pushBitsRev(w,n,bits); utils::pushBits<uint64,std::vector<bool> >(n,(byte)bits,u);
  sym_assert(v.size()==bits&&w.size()==bits&&u.size()==bits,"bit count");
  bool a=true,b=true,c=true; for(size_t i=0;i<bits;++i){ a&=v[i]==(bool)((n>>(bits-1-i))&1); b&=w[i]==(bool)((n>>i)&1); c&=u[i]==(bool)((n>>(bits-1-i))&1); }
  sym_assert(a,"pushBits stores the bits most significant first"); sym_assert(b,"pushBitsRev stores the bits least significant first"); sym_assert(c,"pushBits(n,bits,v) stores the bits most significant first");
  sym_reach("end");
}
