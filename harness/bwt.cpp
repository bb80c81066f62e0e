// Burrows-Wheeler transform: forward algorithms, starting points, inverses.
#include "sym.h"
#include "BWTBlock.hpp"
#include "bwtransforms/BWTManager.hpp"
#include "bwtransforms/InverseBWT.hpp"
#include "texts.h"
#include <memory>
using namespace bwtc;
namespace {
const size_t PAD=24;
struct Buf { std::vector<byte> v; size_t n; Buf(const std::vector<byte>& t):v(t.size()+1+2*PAD,0xA5),n(t.size()){ for(size_t i=0;i<n;++i) v[PAD+i]=t[i]; } byte* p(){ return &v[PAD]; }
  bool padsOk(bool behind){ bool ok=true; for(size_t i=0;i<PAD;++i) ok&=v[i]==0xA5; for(size_t i=PAD+n+(behind?0:1);i<v.size();++i) ok&=v[i]==0xA5; return ok; } };
// order of the suffixes of x followed by a terminator smaller than every byte
void suffixOrder(const std::vector<byte>& x,std::vector<uint32>& sa){
  struct L { const std::vector<byte>& x; bool operator()(uint32 a,uint32 b) const { size_t n=x.size(); for(;;++a,++b){ if(b==n) return false; if(a==n) return true; if(x[a]!=x[b]) return x[a]<x[b]; } } } less={x};
  sa.clear();
  for(uint32 i=0;i<=x.size();++i){ size_t lo=0,hi=sa.size(); while(lo<hi){ size_t m=(lo+hi)/2; if(less(i,sa[m])) hi=m; else lo=m+1; } sa.insert(sa.begin()+lo,i); }
}
}
static void forwardInverse(const std::vector<byte>& t,char algo,uint32 sp,bool withFreqs,int canonical,int inv){
  size_t n=t.size(); Buf b(t); BWTBlock blk(b.p(),(uint32)n,false); BWTManager m; m.initialize(algo); m.setStartingPoints(sp);
  uint32 freqs[256]; for(int i=0;i<256;++i) freqs[i]=0;
  if(withFreqs) m.doTransform(blk,freqs); else m.doTransform(blk);
  sym_assert(blk.isTransformed(),"block is marked transformed"); sym_assert(blk.size()==n&&blk.begin()==b.p(),"block keeps its place");
  sym_assert(b.padsOk(true),"forward transform leaves memory outside the block as it was");
  uint32 want=n<=256?1:(sp<1?1:(sp>256?256:sp));
  sym_assert(blk.LFpowers().size()==want,"number of starting points");
  for(size_t i=0;i<want;++i) sym_assert(blk.LFpowers()[i]<=n,"starting point is a row");
  if(withFreqs){ uint32 f[256]; for(int i=0;i<256;++i) f[i]=0; for(size_t i=0;i<n;++i) ++f[t[i]]; bool ok=true; for(int i=0;i<256;++i) ok&=f[i]==freqs[i]; sym_assert(ok,"frequencies are the counts of the block's bytes"); }
  if(canonical==2){
    // the last column of the sorted suffixes is the only column whose last-to-first mapping is a single
    // cycle through the terminator's row that spells the text; check that and the starting points on it
    std::vector<uint32> lf(n+1); uint32 cnt[257]; for(int i=0;i<257;++i) cnt[i]=0; uint32 e=blk.LFpowers()[0]; std::vector<byte> col(b.p(),b.p()+n); col.push_back(e<n?b.p()[e]:0);
    for(size_t i=0;i<=n;++i) if(i!=e) ++cnt[col[i]+1];
    cnt[0]=1; for(int i=1;i<257;++i) cnt[i]+=cnt[i-1];
    for(size_t i=0;i<=n;++i) lf[i]=i==e?0:cnt[col[i]]++;
    size_t bs=(n+1)/want; uint32 row=e; bool ok=true,sp=true;
    for(size_t s=0;s<=n;++s){ if(s%bs==0&&s/bs<want) sp&=blk.LFpowers()[s/bs]==row; row=lf[row]; if(s<n) ok&=row!=e&&col[row]==t[s]; }
    sym_assert(ok,"block holds the last column of the sorted suffixes"); sym_assert(sp,"starting points are reached by repeated last-to-first mapping");
  }
  if(canonical==1){
    std::vector<byte> x(t.rbegin(),t.rend()); std::vector<uint32> sa,isa(n+1); suffixOrder(x,sa); for(size_t i=0;i<=n;++i) isa[sa[i]]=(uint32)i;
    sym_assert(blk.LFpowers()[0]==isa[0],"first starting point is the terminator's row");
    size_t bs=(n+1)/want; for(size_t j=1;j<want;++j) sym_assert(blk.LFpowers()[j]==isa[n+1-j*bs],"starting point is reached by repeated last-to-first mapping");
    bool ok=true; uint32 e=isa[0];
    for(size_t i=0;i<=n;++i){ if(i==e) continue; byte w=x[sa[i]-1]; if(i<n) ok&=b.p()[i]==w; else ok&=b.p()[e]==w; }
    sym_assert(ok,"block holds the last column of the sorted suffixes");
  }
  if(inv==0) return;
  Buf c(t); for(size_t i=0;i<n;++i) c.p()[i]=b.p()[i]; c.p()[n]=0xA5;
  BWTBlock ib(c.p(),(uint32)n,true); ib.LFpowers()=blk.LFpowers();
  InverseBWTransform* it=inv==1?giveInverseTransformer():new FastInverseBWTransform(); it->doTransform(ib); delete it;
  sym_assert(c.padsOk(false),"inverse transform leaves memory outside the block and the byte behind it as it was");
  bool ok=true; for(size_t i=0;i<n;++i) ok&=c.p()[i]==t[i]; sym_assert(ok,"inverse transform restores the block");
}
// every block of length 1..n over an alphabet of k letters
extern "C" void h_bwt_small(){
  size_t n=sym_param("lo",1)+sym_choice("n",sym_param("n",4)-sym_param("lo",1)+1); std::vector<byte> t; smallText(t,n,sym_param("k",2),sym_choice("alphabet",sym_param("alphs",3)));
  char a=sym_choice("algorithm",2)?'s':'d'; int inv=(int)sym_param("inv",1); bool f=sym_param("freqs",1);
  forwardInverse(t,a,(uint32)sym_param("sp",1),f,(int)sym_param("canon",2),inv); sym_reach("end");
}
// long scaffold texts with a few symbolic bytes, any number of starting points from the list
extern "C" void h_bwt_scaffold(){
  std::vector<byte> t; int pat=(int)(sym_param("pat",-1)>=0?sym_param("pat",-1):(int)sym_choice("pattern",sym_param("pats",10)));
  scaffold(t,pat,sym_param("len",300),sym_param("syms",2),sym_param("k",3));
  static const uint32 SP[]={1,2,3,7,16,255,256,300,0}; uint32 sp=SP[sym_choice("sp",sym_param("sps",9))];
  char a=sym_choice("algorithm",2)?'s':'d'; forwardInverse(t,a,sp,sym_choice("freqs",2),(int)sym_param("canon",2),(int)sym_param("inv",1)); sym_reach("end");
}

// texts made for the rarely taken branches of the sorters, unchanged and with a free byte
extern "C" void h_bwt_special(){
  std::vector<byte> t; special(t,(int)sym_choice("text",sym_param("texts",SPECIALS))); switch(sym_choice("free",sym_param("frees",2))){ case 0: break; case 1: t.back()=symLetter(2,0); break; case 2: t[t.size()/2]=symLetter(2,0); break; default: t[0]=symLetter(2,1); }
  static const uint32 SP[]={1,256,7}; forwardInverse(t,sym_choice("algorithm",2)?'s':'d',SP[sym_choice("sp",sym_param("sps",1))],sym_choice("freqs",2),(int)sym_param("canon",2),(int)sym_param("inv",1)); sym_reach("end");
}

// every number of starting points
extern "C" void h_bwt_points(){
  static const size_t N[]={257,300,515}; size_t n=N[sym_choice("length",3)]; std::vector<byte> t; scaffold(t,(int)(sym_choice("pattern",2)?7:3),n,1,2); uint32 sp=sym_param("all",0)?1+(uint32)sym_choice("sp",256):1+(uint32)sym_choice("sp",64)*4+(uint32)(n%4);
  forwardInverse(t,sym_choice("algorithm",2)?'s':'d',sp,true,2,1); sym_reach("end");
}

// a transform and its inverse give back what they allocate: doing it again keeps nothing
static void allOnce(const std::vector<byte>& t,char algo,uint32 sp,int inv){
  Buf b(t); BWTBlock blk(b.p(),(uint32)t.size(),false); BWTManager m; m.initialize(algo); m.setStartingPoints(sp); m.doTransform(blk);
  InverseBWTransform* it=inv==1?giveInverseTransformer():new FastInverseBWTransform(); it->doTransform(blk); delete it;
}
extern "C" void h_live_bwt(){
  std::vector<byte> t; int len=(int)sym_param("len",0); if(len) scaffold(t,(int)sym_choice("pattern",sym_param("pats",17)),len,sym_param("syms",1),2); else special(t,(int)sym_choice("text",sym_param("texts",SPECIALS)));
  char a=sym_choice("algorithm",2)?'s':'d'; uint32 sp=sym_choice("sp",2)?1:8; int inv=1+(int)sym_choice("inverse",2);
  allOnce(t,a,sp,inv); uint64 live=sym_live(0),bytes=sym_live(1); allOnce(t,a,sp,inv); sym_assert(sym_live(0)<=live,"no object stays allocated after the work is done"); sym_assert(sym_live(1)<=bytes,"no memory stays allocated after the work is done"); sym_reach("end");
}
