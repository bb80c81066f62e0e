// Range-limited binary code and binary interpolative code.
#include "sym.h"
#include "Utils.hpp"
struct Bits { const std::vector<bool>& v; size_t at; Bits(const std::vector<bool>& b):v(b),at(0){} bool readBit(){ sym_assert(at<v.size(),"decoder stays within the code"); return v[at++]; } };
// one integer in a range: value and bounds symbolic, range length of a chosen magnitude
extern "C" void h_binary(){
  size_t maxlen=sym_param("max",48); size_t bits=sym_choice("rangebits",maxlen); size_t len=((size_t)1<<bits)+ (bits?sym_u("rangelow",(int)bits):0); // 2^bits .. 2^(bits+1)-1
  size_t lo=sym_u("lo",40); size_t off=sym_u("off",(int)bits+1); sym_assume(off<len); size_t hi=lo+len-1, n=lo+off;
  std::vector<bool> v; v.push_back(sym_u("before",1)); utils::binaryCode(n,lo,hi,v); size_t end=v.size(); v.push_back(sym_u("behind",1));
  sym_assert(end-1<=bits+1,"code is no longer than the range needs"); if(bits==0) sym_assert(end==1,"a range of one value needs no bits");
  Bits a(v); a.at=1; size_t r=utils::binaryDecode(a,lo,hi); sym_assert(r==n,"binaryDecode returns the coded integer"); sym_assert(a.at==end,"binaryDecode consumes exactly the code");
  Bits b(v); b.at=1; size_t used=5; size_t r2=utils::binaryDecode(b,lo,hi,&used); sym_assert(r2==n,"binaryDecode with counter returns the coded integer"); sym_assert(used==5+(end-1)&&b.at==end,"bit counter counts the bits read");
  sym_reach("end");
}
// all code words of a range are distinct and none is a prefix of another (two values, same range)
extern "C" void h_binary_prefix(){
  size_t bits=sym_choice("rangebits",sym_param("max",12)); size_t len=((size_t)1<<bits)+(bits?sym_u("rangelow",(int)bits):0); size_t x=sym_u("x",(int)bits+1),y=sym_u("y",(int)bits+1); sym_assume(x<y); sym_assume(y<len);
  std::vector<bool> a,b; utils::binaryCode(x,0,len-1,a); utils::binaryCode(y,0,len-1,b); size_t m=a.size()<b.size()?a.size():b.size(); bool same=true; for(size_t i=0;i<m;++i) same&=(bool)a[i]==(bool)b[i];
  sym_assert(!same,"different integers have codes neither of which is a prefix of the other"); sym_reach("end");
}
template<class I> static void interp(const std::vector<I>& l,size_t max){
  std::vector<bool> v; utils::binaryInterpolativeCode(l,max,v); size_t end=v.size(); v.push_back(sym_u("behind",1));
  Bits b(v); std::vector<I> d; size_t used=utils::binaryInterpolativeDecode(d,b,max,l.size());
  sym_assert(d.size()==l.size(),"same number of integers"); bool ok=true; for(size_t i=0;i<l.size();++i) ok&=d[i]==l[i]; sym_assert(ok,"interpolative code decodes to the list");
  sym_assert(b.at==end,"decoder consumes exactly the code"); sym_assert(used==end,"reported bits equal the bits of the code"); sym_reach("end");
}
// k strictly increasing values below 2^w, the maximum is any value at least the last one
template<class I> static void interpSym(int w){
  size_t k=sym_param("lo",1)+sym_choice("k",sym_param("k",3)-sym_param("lo",1)+1); std::vector<I> l; size_t max=sym_u("max",w); size_t prev=0;
  for(size_t i=0;i<k;++i){ size_t x=sym_u("v",w); if(i) sym_assume(x>prev); sym_assume(x<=max); l.push_back((I)x); prev=x; }
  interp(l,max);
}
extern "C" void h_interp_byte(){ interpSym<byte>((int)sym_param("w",8)); }
extern "C" void h_interp_u32(){ interpSym<uint32>((int)sym_param("w",12)); }
// long lists: every value below max is in or out; a few memberships are symbolic
extern "C" void h_interp_set(){
  size_t n=sym_param("n",256), syms=sym_param("syms",6); int pat=(int)sym_choice("pattern",6); std::vector<byte> in(n,0);
  for(size_t i=0;i<n;++i) in[i]=pat==0?1:pat==1?0:pat==2?i%2:pat==3?(i<n/2):pat==4?(i>=n/2):(i*i%7<3);
  for(size_t i=0;i<syms;++i){ size_t p=i*(n-1)/(syms>1?syms-1:1); in[p]=(byte)sym_choice("member",2); }
  std::vector<byte> l; for(size_t i=0;i<n;++i) if(in[i]) l.push_back((byte)i); if(l.empty()) return; interp(l,n-1);
}
// wide ranges: the maximum from a list up to 2^32 - 1, any list of up to k integers near chosen places of the range
extern "C" void h_interp_wide(){
  static const size_t M[]={255,256,65535,65536,1000000,2147483647ul,2147483648ul,4294967295ul}; size_t max=M[sym_choice("max",sym_param("maxs",8))],k=1+sym_choice("k",sym_param("k",3)); int w=(int)sym_param("w",3); std::vector<uint32> l; size_t at[]={0,max/2-2,max-((1u<<w)-1),max/3}; size_t prev=0;
  size_t first=sym_choice("first",3); for(size_t i=0;i<k;++i){ size_t place=first+i<3?first+i:2; size_t x=at[place]+sym_u("v",w); if(i) sym_assume(x>prev); l.push_back((uint32)x); prev=x; }
  interp(l,max);
}
