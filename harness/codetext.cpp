// Entropy coders through their public interface: text in, text out.
#include "sym.h"
#include "BWTBlock.hpp"
#include "EntropyCoders.hpp"
#include "bwtransforms/BWTManager.hpp"
#include "bwtransforms/InverseBWT.hpp"
#include "texts.h"
#include <memory>
using namespace bwtc;
namespace {
static const char CODERS[]={'H','B','b','u','m','M','n'};
void checkField(const MemOut& o,size_t at){ uint64 v=0; for(int i=0;i<6;++i) v=(v<<8)|o.d[at+i]; sym_assert(v==o.d.size()-at-6,"stored length equals the bytes that follow"); }
char pick(){ int f=(int)sym_param("coder",-1); return CODERS[f>=0?f:(int)(sym_param("first",0)+sym_choice("coder",sym_param("coders",1)))]; }
}
// the same through transformAndEncode and the inverse transform: text in, text out, reported size
extern "C" void h_code_text(){
  char c=pick(); size_t n=sym_param("blocks",1); std::vector<std::vector<byte> > t(n); MemOut o; std::unique_ptr<EntropyEncoder> e(giveEntropyEncoder(c)); BWTManager m; m.initialize(sym_choice("algorithm",sym_param("algs",1))?'s':'d'); static const uint32 SP[]={1,2,8,256}; m.setStartingPoints(SP[sym_choice("sp",sym_param("sps",1))]); std::vector<size_t> end(n);
  for(size_t i=0;i<n;++i){ if(sym_param("len",0)) scaffold(t[i],(int)sym_choice("pattern",sym_param("pats",4)),sym_param("len",0),sym_param("syms",2),sym_param("k",3)); else smallText(t[i],1+sym_choice("n",sym_param("n",4)),sym_param("k",2),sym_choice("alphabet",sym_param("alphs",1)));
    std::vector<byte> w(t[i]); w.push_back(0); BWTBlock k(&w[0],(uint32)t[i].size(),false); size_t at=o.d.size(); size_t got=e->transformAndEncode(k,m,&o); sym_assert(got==o.d.size()-at,"reported size equals the bytes written"); checkField(o,at); end[i]=o.d.size(); }
  o.d.push_back(0); MemIn in(o.d); std::unique_ptr<EntropyDecoder> d(giveEntropyDecoder(c)); std::unique_ptr<InverseBWTransform> inv(giveInverseTransformer());
  for(size_t i=0;i<n;++i){ std::vector<byte> to(t[i].size()+1,0xA5); BWTBlock k; k.setBegin(&to[0]); d->decodeBlock(k,&in); sym_assert(k.size()==t[i].size(),"decoded length"); inv->doTransform(k); bool ok=true; for(size_t j=0;j<t[i].size();++j) ok&=to[j]==t[i][j]; sym_assert(ok,"decoded and inverted block equals the text"); sym_assert(in.pos==end[i]&&in.past==0&&in.bits==0,"decoder stops at the first byte after the block"); }
  sym_reach("end");
}
